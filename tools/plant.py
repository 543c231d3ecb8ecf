#!/usr/bin/env python3
"""plant.py <spec.py> [id ...]: build seeded bugs.  spec.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Each change is applied to a scratch copy of /repo, has to build and pass the stable tests, and its demonstration has to pass
without it and fail with it; only then is it written to /verif/seeded/<id>."""
import sys, os, subprocess, shutil, json, runpy
REPO, VERIF = '/repo', '/verif'
DEMO = '''#!/bin/bash
# builds main.rs against the working directory's crate and runs it: 0 = the property holds on these inputs
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "drv_x"
version = "0.1.0"
edition = "2021"
[dependencies]
mixed-num = { path = "$repo" }
fixed = "1.13"
cordic = "0.1"
libm = "0.2"
typenum = "1.15"
num = { version = "0.4", default-features = false }
[workspace]
X
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/drv_x"
'''
PRE = '''#![allow(unused)]
use mixed_num::*; use mixed_num::traits::*; use fixed::*; use fixed::types::extra::*;
'''
def sh(c, cwd=None, t=600):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']; only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    W = '/tmp/plant'
    if os.path.exists(W): shutil.rmtree(W)
    os.makedirs(W); sh(f'cp -a {REPO} {W}/repo')
    for s in seeds:
        if only and s['id'] not in only: continue
        d = f"{VERIF}/seeded/{s['id']}"
        sh('git checkout -q -- .', f'{W}/repo')
        ok = True
        for f, old, new in s['edits']:
            p = f'{W}/repo/{f}'; t = open(p).read()
            if t.count(old) < 1: print(s['id'], 'EDIT NOT FOUND', f, old[:60]); ok = False; break
            i = s.get('nth', 0); pos = -1
            for _ in range(i+1): pos = t.index(old, pos+1)
            t = t[:pos] + new + t[pos+len(old):]
            open(p, 'w').write(t)
        if not ok: continue
        tmp = f'{W}/demo'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(f'{tmp}/main.rs', 'w').write(PRE + s['demo']); open(f'{tmp}/demo.sh', 'w').write(DEMO); shutil.copy(f'{VERIF}/engine/Cargo.lock', f'{tmp}/Cargo.lock')
        sh("find src tests -name '*.rs' -exec touch {} +; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1", f'{W}/repo')
        sh(f'python3 /opt/vp/results.py {W}/out.json cargo:{W}/repo/target/vp-test.log')
        got = set(json.load(open(f'{W}/out.json'))['passed']) if os.path.exists(f'{W}/out.json') else set()
        lost = [x for x in base['stable'] if x not in got]; rc = bool(lost); o = str(lost[:4])
        if rc: print(s['id'], 'TESTS FAIL', o[-500:]); continue
        sh('git checkout -q -- figures', f'{W}/repo')
        _, diff = sh('git diff', f'{W}/repo')
        r1, o1 = sh(f'bash {tmp}/demo.sh', f'{W}/repo'); r0, o0 = sh(f'bash {tmp}/demo.sh', REPO)
        if r0 != 0 or r1 in (0, 3): print(s['id'], 'DEMO BAD: clean', r0, o0[-700:], 'patched', r1, o1[-700:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        print(s['id'], 'kept')
    shutil.rmtree(W)
main()
