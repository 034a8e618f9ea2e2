#!/usr/bin/env python3
"""seed.py FILE.py [ID...]: makes and tries the planted bugs which FILE.py lists in SEEDS.
A development tool: no check uses it. It edits /repo and puts it back."""
import json, os, re, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAIN = '''#![allow(unused)]
use prost::Message;
use prost_reflect::*;
use prost_reflect::text_format::FormatOptions;
fn pool() -> DescriptorPool {
    static P: std::sync::OnceLock<DescriptorPool> = std::sync::OnceLock::new();
    P.get_or_init(|| DescriptorPool::decode(&include_bytes!("../schema.bin")[..]).unwrap()).clone()
}
fn desc(n: &str) -> MessageDescriptor { pool().get_message_by_name(n).unwrap() }
fn text(n: &str, t: &str) -> DynamicMessage { DynamicMessage::parse_text_format(desc(n), t).unwrap() }
fn json(n: &str, t: &str) -> Result<DynamicMessage, String> {
    let mut d = serde_json::Deserializer::from_str(t);
    let m = DynamicMessage::deserialize(desc(n), &mut d).map_err(|e| e.to_string())?;
    d.end().map_err(|e| e.to_string())?;
    Ok(m)
}
fn wire(n: &str, b: &[u8]) -> Result<DynamicMessage, prost::DecodeError> { DynamicMessage::decode(desc(n), b) }
fn to_json(m: &DynamicMessage, o: &SerializeOptions) -> Result<String, String> {
    let mut s = serde_json::Serializer::new(vec![]);
    m.serialize_with_options(&mut s, o).map_err(|e| e.to_string())?;
    Ok(String::from_utf8(s.into_inner()).unwrap())
}
/// Schemas written as the text format of FileDescriptorSet
fn files(t: &str) -> prost_types::FileDescriptorSet {
    let d = DescriptorPool::global().get_message_by_name("google.protobuf.FileDescriptorSet").unwrap();
    DynamicMessage::parse_text_format(d, t).unwrap().transcode_to().unwrap()
}
fn build(t: &str) -> Result<DescriptorPool, DescriptorError> { DescriptorPool::from_file_descriptor_set(files(t)) }

fn main() {
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
prost-reflect = { path = "REPO/prost-reflect", features = ["serde", "text-format", "derive"] }
prost = "0.14"
prost-types = "0.14"
serde = "1"
serde_json = { version = "1", features = ["float_roundtrip"] }
'''
SH = '''#!/bin/bash
# Exits 0 if the property holds for the case in main.rs.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.82.0}" CARGO_NET_OFFLINE=true
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/schema.bin" "$here/Cargo.lock" "$dir/"
sed "s#REPO#$PWD#" "$here/Cargo.toml.in" >"$dir/Cargo.toml"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$dir/target}"
cd "$dir" || exit 2
cargo build --offline -q 2>build.log || { cat build.log; exit 3; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
'''
GEN_TOML = TOML.replace('prost-types = "0.14"', '').replace('serde = "1"', '').replace('serde_json = { version = "1", features = ["float_roundtrip"] }', '') + '''[build-dependencies]
prost-reflect-build = { path = "REPO/prost-reflect-build" }
prost-build = "0.14"
'''
GEN_SH = SH.replace('cp "$here/schema.bin" "$here/Cargo.lock" "$dir/"', 'cp "$here/Cargo.lock" "$here/build.rs.in" "$dir/"; cp "$here/test.proto" "$dir/"; mv "$dir/build.rs.in" "$dir/build.rs"').replace("exit 3;", "exit ${BUILD_FAILS:-1};")
GEN_BUILD = '''// Builds the code which main.rs includes.
use prost_reflect_build::Builder;
fn main() {
    println!("cargo:rerun-if-changed=test.proto");
    %s
}
'''
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean():
    run("git -C /repo checkout -- .")
env = dict(os.environ, TERM="dumb", DEMO_TARGET="/tmp/demo-t2")
def demo(d):
    r = run(f"bash {d}/demo.sh", cwd="/repo", env=env)
    return r.returncode, (r.stdout + r.stderr)[-600:]
GEN_POOL = 'Builder::new().descriptor_pool("crate::POOL").compile_protos(&["test.proto"], &["."]).unwrap();'
specs = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
assert run("git -C /repo status --porcelain").stdout == "", "dirty"
for s in specs:
    i = s["id"]
    if only and i not in only: continue
    d = f"{V}/seeded/{i}"
    if os.path.exists(d) and not only: continue
    os.makedirs(d, exist_ok=True)
    ok = True
    try:
        for f, a, b in s["edits"]:
            p = f"/repo/prost-reflect/src/{f}" if not f.startswith("/") else "/repo" + f
            t = open(p).read()
            if t.count(a) != 1:
                print(f"{i}: {f}: {t.count(a)} matches of {a!r}"); ok = False; break
            open(p, "w").write(t.replace(a, b))
        if not ok: raise StopIteration
        diff = run("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        gen = "proto" in s
        if gen:
            open(d + "/main.rs", "w").write("#![allow(unused)]\n" + s["demo"].strip("\n") + "\n")
            open(d + "/test.proto", "w").write(s["proto"].strip("\n") + "\n")
            open(d + "/build.rs.in", "w").write(GEN_BUILD % s.get("build", GEN_POOL).strip())
            open(d + "/Cargo.toml.in", "w").write(GEN_TOML)
            open(d + "/demo.sh", "w").write(GEN_SH)
            lock = open(V + "/gen/Cargo.lock").read().replace('name = "gen"', 'name = "demo"')
        else:
            open(d + "/main.rs", "w").write(MAIN + s["demo"].strip("\n") + "\n}\n")
            open(d + "/Cargo.toml.in", "w").write(TOML)
            open(d + "/demo.sh", "w").write(SH)
            shutil.copy(V + "/mc/protos/all.bin", d + "/schema.bin")
            lock = open(V + "/mc/Cargo.lock").read().replace('name = "mc"', 'name = "demo"')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/Cargo.lock", "w").write(lock)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # lines which commits of ours added do not count
        ours = set(l[1:].strip() for l in run("git -C /repo diff 5ef658e HEAD").stdout.splitlines() if l.startswith("+"))
        bad = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and len(l.strip()) > 4 and l[1:].strip() in ours]
        if bad: print(f"{i}: NOTE lines of ours: {bad}")
        b = run("bash /opt/vp/build.sh", env=env)
        if b.returncode:
            print(f"{i}: BUILD FAILS", b.stderr[-1500:]); ok = False; raise StopIteration
        t = run("bash /opt/vp/test.sh /tmp/seed-out.json", env=env).stdout.strip().splitlines()
        rc, out = demo(d)
        if rc == 3: print(f"{i}: DEMO DOES NOT BUILD\n{out}"); ok = False
        res = []
        for p in s.get("checks", [s["property"]]):
            r = run("GT=/tmp/gent2 VRG=/tmp/vrg2 TAIL=400 bash /tmp/g.sh" if p == "B01" else f"TAIL=400 /tmp/b.sh {p}", env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            first = ""
            if v:
                try: first = open(f"{"/tmp/vrg2" if p == "B01" else os.environ.get("VR","/tmp/vr")}/evidence/{p}.replay.txt").read()[:260].replace("\n", " | ")
                except OSError: pass
            res.append(f"{p}={'CAUGHT' if v else 'missed'} {first if v else r.stdout[-200:]}")
        print(f"{i}: tests {t[-1] if t else '?'}; demo {rc} {out[-160:] if rc in (0,) else ''}\n   " + "\n   ".join(res), flush=True)
    except StopIteration:
        pass
    finally:
        clean()
    if ok:
        rc, out = demo(d)
        if rc: print(f"{i}: DEMO FAILS ON THE UNCHANGED TREE: {out}")
    elif os.path.exists(d) and not os.path.exists(d + "/keep"):
        shutil.rmtree(d)
