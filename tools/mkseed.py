#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py (each defines SEEDS: a list of dicts with
id, property, needs, breaks, edits=[(file, old, new)], demo (Rust main.rs), feats).
usage: mkseed.py [id...]   -- regenerates patch.diff, demo.sh, main.rs, meta.json"""
import sys,os,json,subprocess,glob,importlib.util,tempfile,shutil
R='/repo'; OUT='/verif/seeded'
DEMO='''#!/bin/bash
# Demonstration: exit 0 on the unchanged tree, nonzero with the patch. Run with cwd = the repository.
REPO="$PWD"; HERE="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'find "$D" -depth -delete' EXIT
mkdir -p "$D/src"; cp "$HERE/main.rs" "$D/src/main.rs"; cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
schemars = { path = "$REPO/schemars", features = [FEATS] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
DEPS
T
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
timeout 280 cargo run --offline -q
'''
BAD='''[ $? = 0 ] || exit 1
cp "$HERE/bad.rs" "$D/src/main.rs"; touch "$D/src/main.rs"
if timeout 100 cargo check --offline -q 2>"$D/err"; then echo "accepted"; exit 1; fi
cat "$D/err"
grep -q 'panicked' "$D/err" && exit 1
grep -q 'WANT' "$D/err" || exit 1
exit 0
'''
def load():
    out=[]
    for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
        s=importlib.util.spec_from_file_location('s',f);m=importlib.util.module_from_spec(s);s.loader.exec_module(m);out+=m.SEEDS
    return out
ids=sys.argv[1:]
for s in load():
    if ids and s['id'] not in ids: continue
    d=f"{OUT}/{s['id']}"; os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C',R,'status','--porcelain','-uno'],capture_output=True,text=True).stdout=='', 'repo dirty'
    try:
        for f,old,new in s['edits']:
            p=f'{R}/{f}';t=open(p).read()
            assert t.count(old)==1,(s['id'],f,t.count(old),old)
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO.replace('FEATS',', '.join(f'"{x}"' for x in s.get('feats',[]))).replace('DEPS\n',s.get('deps',''))+(BAD.replace('WANT',s.get('want','error')) if 'bad' in s else ''))
    if 'bad' in s: open(d+'/bad.rs','w').write(s['bad'])
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(s['demo'].lstrip('\n'))
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    print('wrote',s['id'])
