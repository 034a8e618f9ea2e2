#!/usr/bin/env python3-vt
import json,jsonschema,re,os,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,s); ids.append(o['id'])
    n=len([x for x in re.split(r'(?<=[.!?])\s+(?=[A-Z(a-z_])',o['statement']) if x])
    if n>3: print(o['id'],'sentences',n)
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c=[x['property'] for x in m['checks']]; na=[x['property'] for x in m.get('not_applicable',[])]
assert set(c)|set(na)==set(ids) and not set(c)&set(na),(c,na)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for x in c:
    p=f'/verif/evidence/{x}.json'
    if os.path.exists(p): jsonschema.validate(json.load(open(p)),e)
    else: print('no evidence',x)
print('ok',len(ids),len(c))
