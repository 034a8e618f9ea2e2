#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(R+'/properties.jsonl')]
src=open(R+'/tools/claims.py').read()
ns={}; exec(src,ns)
checks=[]; na=[]
for i in ids:
    if i in ns['CLAIMS']:
        t,n=ns['CLAIMS'][i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":t,"level":"model_checking","level_note":n})
    else: na.append({"property":i,"reason":ns['NA'].get(i,"its exploration is not built yet")})
m={"version":1,"setup_cmd":"bash check.sh build","checks":checks,"not_applicable":na}
if ns.get('HOOKS'): m['hooks']=ns['HOOKS']
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); print(len(checks),len(na))
