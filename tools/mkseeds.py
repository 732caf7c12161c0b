#!/usr/bin/env python3
"""mkseeds.py [id-prefix...]: plant each bug of seeds.py in a scratch copy of /repo, confirm it
(builds, existing tests pass, demo fails with it and passes without) and keep it in /verif/seeded."""
import sys,os,json,subprocess,shutil
sys.path.insert(0,os.path.dirname(__file__))
from seeds import SEEDS
W='/tmp/seedwork'; REPO=W+'/repo'; OUT='/verif/seeded'
PRELUDE='''#![allow(unused, ambiguous_glob_reexports)]
use chrono::NaiveDate;
use financelib::fixedincomes::{bonds::{rates::{RateCurve::*, *}, *}, moneymarkets::*};
use financelib::{statements::*, *};
use std::collections::*;
fn d(y: i32, m: u32, dd: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, dd).unwrap()
}
fn close(a: f64, b: f64, tol: f64) {
    assert!((a - b).abs() <= tol * (1.0 + b.abs()), "{a} but {b} expected");
}
'''
DEMO='''#!/bin/bash
# exit 0 when the behaviour holds, not 0 when it is broken; run with the repository as working directory
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d)
trap '/bin/rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$H/demo.rs" "$D/src/main.rs"
cat >"$D/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
financelib = { path = "$R" }
chrono = "*"
serde_json = "*"
ron = "*"
[workspace]
EOT
cd "$D" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$D/target} CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 2
timeout 200 "$CARGO_TARGET_DIR/debug/demo"
'''
def run(c,cwd,env=None,t=400):
    e=dict(os.environ,CARGO_NET_OFFLINE='true');e.update(env or {})
    try: p=subprocess.run(c,cwd=cwd,env=e,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return 124,'timeout'
    return p.returncode,p.stdout+p.stderr
def sh(c): subprocess.run(c,shell=True,check=True)
want=sys.argv[1:]
if not os.path.exists(REPO):
    os.makedirs(W); sh(f'cp -a /repo {REPO}')
res=[]
for s in SEEDS:
    if want and not any(s['id'].startswith(w) for w in want): continue
    sh(f'git -C {REPO} checkout -q -- .')
    f=f"{REPO}/{s['file']}"; src=open(f).read(); bad=None
    for o,n in s['edits']:
        if src.count(o)!=1 and not (src.count(o)>1 and s.get('first')): bad=f'{src.count(o)} matches of {o[:50]!r}';break
        src=src.replace(o,n,1)
    if bad: print(s['id'],'EDIT',bad,flush=True); continue
    open(f,'w').write(src)
    patch=subprocess.run(['git','-C',REPO,'diff','--','src'],capture_output=True,text=True).stdout
    body=s['demo']; items=''
    dd=f"{OUT}/{s['id']}"; os.makedirs(dd,exist_ok=True)
    open(dd+'/patch.diff','w').write(patch)
    open(dd+'/demo.rs','w').write(PRELUDE+'fn main() {\n    '+body.replace(';',';\n    ')+'\n}\n')
    run(['rustfmt','--edition','2021',dd+'/demo.rs'],W)
    open(dd+'/demo.sh','w').write(DEMO); os.chmod(dd+'/demo.sh',0o755)
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(dd+'/meta.json','w'),indent=1)
    rc,out=run(['cargo','test','--offline','--quiet'],REPO)
    t='tests pass' if rc==0 else 'TESTS FAIL '+'; '.join(l for l in out.splitlines() if 'panicked' in l or l.startswith('error'))[:300]
    env={'DEMO_TARGET':W+'/dt'}
    rc1,o1=run([dd+'/demo.sh'],REPO,env) if rc==0 else (0,'')
    sh(f'git -C {REPO} checkout -q -- .')
    rc2,o2=run([dd+'/demo.sh'],REPO,env) if rc==0 else (0,'')
    ok=rc==0 and rc1 not in (0,2) and rc2==0
    print(s['id'],'OK' if ok else 'BAD',t,rc1,rc2,'' if ok else (o1[-600:] if rc1 in(0,2) else '')+(o2[-800:] if rc2 else ''),flush=True)
    if not ok: shutil.rmtree(dd)
