#!/usr/bin/env python3
"""mkseed.py SPEC.py...  : each spec defines ID, PROPERTY, EDITS=[(file,old,new[,count])], NEEDS, BREAKS, MAIN (demo main.rs body)
Confirms in a scratch copy: builds, stable tests pass, demo exits 0 without and non-zero with the change; then writes seeded/ID."""
import sys,os,subprocess,json,shutil,runpy
V='/verif'; S='/tmp/seedrepo'
DEMO='''#!/bin/bash
# run with cwd = the festa_rs checkout; exit 0 iff the library behaves as the property says
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" CARGO_NET_OFFLINE=true
w=/tmp/festa_demo_@ID@
rm -rf /tmp/festa_demo_@ID@; mkdir -p "$w/src" || exit 3
cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOT
[package]
name = "festa_demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 2
[dependencies]
festa_rs = { path = "$repo" }
num-bigint = { version = "*", features = ["rand"] }
EOT
(cd "$w" && timeout 280 cargo run -q --offline); rc=$?
rm -rf /tmp/festa_demo_@ID@
exit $rc
'''
def sh(c,cwd=S,t=900):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t); return r.returncode,r.stdout+r.stderr
def demo(d): return sh('bash %s/demo.sh'%d,S,400)
def main(f):
    g=runpy.run_path(f); ID=g['ID']
    if not os.path.isdir(S): sh('cp -a /repo /tmp/seedrepo','/tmp')
    sh('git checkout -q -- . && git clean -fdq -e target'); sh('git -C /repo rev-parse HEAD')
    d='/tmp/seedout/'+ID; shutil.rmtree(d,True); os.makedirs(d)
    open(d+'/main.rs','w').write(g['MAIN']); open(d+'/demo.sh','w').write(DEMO.replace('@ID@',ID))
    rc,o=demo(d)
    if rc: print(ID,'demo fails on unchanged tree',o[-800:]); return
    for e in g['EDITS']:
        p=os.path.join(S,e[0]); t=open(p).read(); n=e[3] if len(e)>3 else 1
        if t.count(e[1])!=n: print(ID,'edit matches',t.count(e[1]),e[1][:60]); return
        open(p,'w').write(t.replace(e[1],e[2]))
    rc,o=sh('git diff'); open(d+'/patch.diff','w').write(o)
    rc,o2=demo(d)
    if rc==0: print(ID,'demo passes with the change'); return
    rc,o=sh('. /opt/vp/env.sh; timeout 700 cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    ok={l.split()[1] for l in o.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}
    base=[x.split('::',1)[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    bad=[b for b in base if b not in ok]
    sh('git checkout -q -- .')
    if bad: print(ID,'tests fail',bad); return
    json.dump(dict(property=g['PROPERTY'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(V+'/seeded/'+ID,True); shutil.copytree(d,V+'/seeded/'+ID)
    print(ID,'kept; demo said:',o2.strip()[-200:])
for f in sys.argv[1:]: main(f)
