"""Run the check of each planted bug's property against the bug, in scratch copies.
usage: trybugs.py [ids...]  (copies /verif's committed work to /tmp/tb/verif and /repo to /tmp/tb/repo)"""
import os, sys, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(f'{V}/seeded'))
W = os.environ.get('TB', '/tmp/tb'); shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.check_call(['git', 'clone', '-q', '/repo', f'{W}/repo'])
if os.environ.get('TB_COMMITTED'): subprocess.check_call(['git', 'clone', '-q', V, f'{W}/verif'])
else: subprocess.check_call(f'mkdir {W}/verif && cd {V} && cp -a checks engine tools run.py known_findings.json properties.jsonl {W}/verif/', shell=True)
if os.path.isdir(f'{V}/build/target'): subprocess.call(f'mkdir -p {W}/verif/build && cp -a {V}/build/target {W}/verif/build/', shell=True)
os.makedirs(f'{W}/verif/build', exist_ok=True)
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json')); p = m['property']
    if not os.path.exists(f'{V}/checks/{p.lower()}.py'): print(f'{i:22} {p} no check', flush=True); continue
    if not i.startswith('-'):
        subprocess.check_call(['git', '-C', f'{W}/repo', 'apply', f'{V}/seeded/{i}/patch.diff'])
    t = time.time()
    r = subprocess.run(['python3-vt', 'run.py', p, os.environ.get('TIER', 'quick')], cwd=f'{W}/verif', env=dict(os.environ, VERIF_REPO=f'{W}/repo', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
    print(f'{i:22} {p} {"CAUGHT" if ok else "missed rc=%d" % r.returncode} {time.time()-t:.0f}s', flush=True)
    l = [x for x in r.stdout.split('\n') if x.startswith('   ')][:1] if ok else r.stdout.split('\n')[-8:]
    for x in l: print('      ', x[:260], flush=True)
    subprocess.check_call(['git', '-C', f'{W}/repo', 'checkout', '-q', '--', '.'])
shutil.rmtree(W, ignore_errors=True)
