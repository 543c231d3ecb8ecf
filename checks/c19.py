"""C19 is decided by Kani: the crate's formatting code and core::fmt are executed symbolically by CBMC on a component type
whose text shows what was asked of it; values, flags and precision are symbolic."""
import os, re, subprocess, time, shutil, signal, fcntl
from engine import build
from engine.check import finish

HARNESSES = ['display', 'lower_exp', 'upper_exp', 'lower_hex', 'upper_hex', 'octal', 'binary', 'polar']
CARGO = '''[package]
name = "c19"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[[bin]]
name = "c19"
path = "main.rs"
[dependencies]
mixed-num = {{ path = "{repo}" }}
[workspace]
'''
class B: name = 'kani_c19'; reach = []; dm = {}; t_cargo = 0.0

def sh(cmd, cwd, timeout, e=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: out, _ = p.communicate(timeout=max(5, timeout)); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); return None, out or ''

def main(cfg, t0):
    limit = 520 if cfg['quick'] else 3000
    left = lambda: limit-(time.time()-t0)
    d = os.path.join(build.BUILD, 'kani_c19'); os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(build.VERIF, 'engine', 'kani_c19')
    for f in ('lib.rs', 'main.rs'): shutil.copyfile(f'{src}/{f}', f'{d}/{f}')
    shutil.copyfile(os.path.join(build.VERIF, 'engine', 'Cargo.lock'), f'{d}/Cargo.lock')
    with open(f'{d}/Cargo.toml', 'w') as f: f.write(CARGO.format(repo=build.REPO))
    tb = time.time(); e = build.env(); tgt = f'{d}/target'
    rc, out = sh(['cargo', 'build', '--offline', '-q', '--target-dir', tgt], d, 400, e)
    if rc != 0: raise build.BuildError(out[-3000:])
    exe = f'{tgt}/debug/c19'
    B.t_cargo = time.time()-tb
    ek = dict(e); ek.pop('RUSTUP_TOOLCHAIN')
    base = ['cargo', 'kani', '--lib', '--target-dir', f'{d}/kani', '-Z', 'unstable-options', '--no-memory-safety-checks', '--output-format=terse']
    rc, out = sh(base + ['-j', '8'], d, left()-60, ek)
    # results per harness: threads print interleaved, each block starts with "Thread k:"
    res = {h: dict(name=h, desc=f'{"Polar Display" if h == "polar" else "Cartesian "+"".join(x.capitalize() for x in h.split("_"))} with symbolic components{"" if h == "polar" else ", sign, alternate and precision flags"}',
                   status='ok', queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, violations=[], undecided=[], validated=0, known=[], notes=[], fns=[]) for h in HARNESSES}
    cur = {}; seen = {}; thread = None
    for l in out.splitlines():
        m = re.match(r'Thread (\d+): *(.*)', l)
        if m: thread = m[1]; l = m[2]
        m = re.search(r'Checking harness (?:proofs::)?(\w+)', l)
        if m: cur[thread] = m[1]; continue
        h = cur.get(thread)
        if not h or h not in res: continue
        r = res[h]
        m = re.search(r'\*\* (\d+) of (\d+) failed', l)
        if m: r['queries'] += int(m[2]); r['sat'] += int(m[1]); r['unsat'] += int(m[2])-int(m[1]); r['blocks'] = int(m[2]); r['instrs'] = int(m[2])
        m = re.search(r'\*\* (\d+) of (\d+) cover', l)
        if m and m[1] == '0': r['notes'].append('nothing covered')
        m = re.search(r'Failed Checks: (.*)', l)
        if m: r['notes'].append('failed: '+m[1])
        m = re.search(r'VERIFICATION:- (\w+)', l)
        if m: seen[h] = m[1]
        m = re.search(r'Verification Time: ([\d.]+)', l)
        if m: r['solver_s'] = float(m[1])
    if os.environ.get('VERIF_DBG'): print(out[-3000:])
    replayed = 0
    for h in HARNESSES:
        r = res[h]
        if seen.get(h) == 'SUCCESSFUL':
            if 'nothing covered' in r['notes']: r['status'] = 'error'
        else:
            r['unknown'] += 1
            bad = None
            if seen.get(h) == 'FAILED' and replayed < 2 and left() > 150:
                replayed += 1
                _, o = sh(base + ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', f'proofs::{h}'], d, left()-30, ek)
                for blk in re.findall(r'/// Check for `(\w+)`(.*?)```', o, re.S):
                    v = [int(x) for x in re.findall(r'vec!\[(\d+)\]', blk[1])]
                    if blk[0] == 'cover' or len(v) < 2: continue
                    v = [x-256 if x > 127 and k < 2 else x for k, x in enumerate(v)] + [0]*(6-len(v))
                    bad = run(exe, [h] + [str(x) for x in v[:6]])
                    if bad: bad['query'] = 'counterexample of the solver'; break
            if not bad:
                bad = run(exe, ['scan', h, '200000', str(cfg['seed'])])
                if bad: bad['query'] = f'search after the solver answered {seen.get(h, "nothing")}'
            if bad: r['violations'].append(bad)
            else: r['undecided'].append(f'Kani: {seen.get(h, "no answer")} {r["notes"][:2]}, no failing input found')
        # the compiled code on random inputs
        k = sh([exe, 'scan', h, '500', str(cfg['seed']+1)], d, 20)[1].strip()
        if k.startswith('same'): r['validated'] = int(k.split()[1]); r['witness'] = 'covered: re < 0, im < 0, alternate, precision'
        elif not r['violations']:
            bad = run(exe, ['scan', h, '500', str(cfg['seed']+1)])
            if bad: r['violations'].append(dict(bad, query='validation of the verdict'))
    return finish('C19', list(res.values()), B, cfg, t0,
        bounds=dict(components='a component type of 255 values (-127..127) that follows the formatting conventions of the number types', flags='sign-plus, alternate and precision (absent, 0..7) free; width and fill not set',
                    unrolling='10 iterations per loop, with unwinding assertions', formats=HARNESSES),
        assumptions=['Kani 0.68 and CBMC translate the crate and core::fmt faithfully; memory-safety checks are off', 'the digits of a part are printed by the component type itself and are outside the property',
                     'components whose magnitude is not representable, negative zeros and NaN are outside the property'],
        extra=dict(solver='CBMC (SAT) through Kani 0.68.0', meaning='states/transitions = assertions and reachability conditions decided by CBMC over all inputs; traces = native runs compared with the required text'))

def run(exe, args):
    """replay natively; a dict when the printed text is not the required one"""
    rc, o = sh([exe] + args, '/', 60)
    o = o.strip().split('\n')[-1]
    if rc is None: return None
    if rc == 0 and o.startswith('same'): return None
    if rc == 0 and o.count('\t') == 2:
        i, g, w = o.split('\t'); i = i.split()
        return dict(input=dict(zip(('re', 'im', 'sign_plus', 'alternate', 'has_precision', 'precision'), i)), outcome='ok', got=g, required=w, replay=f'c19 {" ".join(args)}')
    if rc != 0 and args[0] != 'scan': return dict(input=' '.join(args), outcome='panic', got=o[-200:], required='text')
    return None
