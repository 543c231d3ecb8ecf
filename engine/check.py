"""Property-check framework.

A check generates a driver crate (harness functions calling the library, and spec functions that state the
required outcome), compiles it against /repo's working tree, executes the LLVM IR of both symbolically, and
asks the solver for an input on which they disagree.  Models are replayed natively before being reported.
"""
import os, sys, json, time, ctypes, struct, signal, random, traceback, multiprocessing as mp
from . import terms as T, symex, solve, build
from .build import VERIF
os.environ['RUST_BACKTRACE'] = '0'

INTS = {}
for n in (8, 16, 32, 64, 128):
    INTS[f'i{n}'] = (n, True); INTS[f'u{n}'] = (n, False)
INTS['isize'] = (64, True); INTS['usize'] = (64, False)
PRIMS = ['f32', 'f64', 'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']
def fbits_of(ty): return {'f32': 32, 'f64': 64}.get(ty) or INTS[ty][0]

class Ty:
    """a component type: primitive or fixed"""
    def __init__(s, name):
        s.name = name
        if name in ('f32', 'f64'):
            s.kind = 'float'; s.bits = int(name[1:]); s.signed = True; s.inner = name; s.rust = name
        elif name in INTS:
            s.kind = 'int'; s.bits, s.signed = INTS[name]; s.inner = name; s.rust = name
        else:   # I32F16 notation: sign, bits, frac
            import re
            m = re.match(r'([IU])(\d+)U(\d+)$', name); s.kind = 'fixed'
            s.signed = m.group(1) == 'I'; s.bits = int(m.group(2)); s.frac = int(m.group(3))
            s.inner = ('i' if s.signed else 'u') + m.group(2); s.rust = name
    def inp(s, e): return f'{s.rust}::from_bits({e})' if s.kind == 'fixed' else e
    def out(s, e): return f'({e}).to_bits()' if s.kind == 'fixed' else e
    def __repr__(s): return s.name
def tys(*names):
    return [Ty(n) for n in ' '.join(names).split()]

PRELUDE = '''#![allow(unused_imports,unused_parens,unused_variables,unused_mut,dead_code,non_snake_case,unused_unsafe,clippy::all,arithmetic_overflow,unused_assignments,non_camel_case_types,unused_macros,unconditional_panic)]
use mixed_num::*;
use mixed_num::traits::*;
use mixed_num::trigonometry;
use fixed::*;
use fixed::types::extra::*;
use num::Complex;
'''

class H:
    """one harness.
    ins/outs: list of (name, primitive type);  body: Rust statements assigning o_<name>;
    spec: Rust statements assigning o_<name> and ok (1 value required, 0 panic required, 2 unspecified, >=10 known finding)
    """
    def __init__(s, name, ins, outs, body, spec, opts=None, desc=None):
        s.name, s.ins, s.outs, s.body, s.spec = name, ins, outs, body, spec
        s.opts = opts or {}; s.desc = desc or name
    def zero(s, t): return '0.0' if t in ('f32', 'f64') else '0'
    def rust(s):
        ti = ', '.join(t for _, t in s.ins); r = []
        def st(nm, fields):
            return f'#[repr(C)] pub struct {nm} {{ ' + ', '.join(f'pub {n}: {t}' for n, t in fields) + ' }\n'
        r.append(st(f'I_{s.name}', s.ins)); r.append(st(f'O_{s.name}', s.outs)); r.append(st(f'S_{s.name}', s.outs + [('ok', 'u8')]))
        binds = ' '.join(f'let {n} = i.{n};' for n, _ in s.ins)
        outs = ' '.join(f'let mut o_{n}: {t} = {s.zero(t)};' for n, t in s.outs)
        wr = ' '.join(f'o.{n} = o_{n};' for n, t in s.outs)
        r.append(f'#[no_mangle] pub extern "C" fn h_{s.name}(i: &I_{s.name}, o: &mut O_{s.name}) {{ {binds} {outs} {s.body} {wr} }}\n')
        if s.spec is not None:
            r.append(f'#[no_mangle] pub extern "C" fn s_{s.name}(i: &I_{s.name}, o: &mut S_{s.name}) {{ {binds} {outs} let mut ok: u8 = 1; {s.spec} {wr} o.ok = ok; }}\n')
        return ''.join(r)
    def fns(s): return [f'h_{s.name}'] + ([f's_{s.name}'] if s.spec is not None else [])

def layout(fields):
    off = 0; al = 1; r = []
    for n, t in fields:
        sz = fbits_of(t)//8; off = (off+sz-1)//sz*sz; r.append((n, t, off, sz)); off += sz; al = max(al, sz)
    return r, (off+al-1)//al*al

def sym_inputs(h):
    """input cells and variables"""
    lay, size = layout(h.ins); cells = {}; vs = {}
    for n, t, off, sz in lay:
        v = T.var(n, sz*8); vs[n] = v
        cells[off] = (sz, T.bits_to_f(v) if t in ('f32', 'f64') else v)
    return cells, vs, size

def read_outs(ex, mem, obj, fields):
    lay, size = layout(fields); r = {}
    for n, t, off, sz in lay:
        ty = t if t in ('f32', 'f64') else ('i', sz*8)
        r[n] = ex.load(mem, ty, symex.Ptr(obj, off))
    return r

# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self, so): self.so = so; self.lib = None
    def run(self, fn, ins, env, outs, timeout=10):
        """-> ('ok', {name: bits}) | ('panic', message) | ('hang', None)"""
        if self.lib is None: self.lib = ctypes.CDLL(self.so)
        lay, size = layout(ins); buf = bytearray(max(size, 16))
        for n, t, off, sz in lay: buf[off:off+sz] = int(env.get(n, 0) & T.mask(sz*8)).to_bytes(sz, 'little')
        olay, osz = layout(outs)
        rd, wr = os.pipe(); er, ew = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd); os.close(er)
                os.dup2(ew, 2)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout+1))
                signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(timeout)
                ib = ctypes.create_string_buffer(len(buf)+64); ob = ctypes.create_string_buffer(osz+64)
                ia = (ctypes.addressof(ib)+31)//32*32; oa = (ctypes.addressof(ob)+31)//32*32
                ctypes.memmove(ia, bytes(buf), len(buf))
                f = getattr(self.lib, fn); f.restype = None
                f(ctypes.c_void_p(ia), ctypes.c_void_p(oa))
                os.write(wr, ctypes.string_at(oa, osz))
                os._exit(0)
            finally: os._exit(77)
        os.close(wr); os.close(ew)
        data = b''
        while True:
            x = os.read(rd, 65536)
            if not x: break
            data += x
        os.close(rd)
        err = b''
        while True:
            x = os.read(er, 65536)
            if not x: break
            err += x
        os.close(er)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            sg = os.WTERMSIG(st)
            if sg in (signal.SIGALRM, signal.SIGXCPU): return 'hang', None
            return 'panic', err.decode(errors='replace').strip()[:300] or f'signal {sg}'
        if os.WEXITSTATUS(st): return 'panic', f'exit {os.WEXITSTATUS(st)} ' + err.decode(errors='replace')[:300]
        return 'ok', {n: int.from_bytes(data[o:o+sz], 'little') for n, t, o, sz in olay}

def isnan_bits(t, b):
    if t == 'f32': return (b & 0x7fffffff) > 0x7f800000
    if t == 'f64': return (b & (1 << 63)-1) > 0x7ff << 52
    return False
def same(t, a, b): return a == b or (isnan_bits(t, a) and isnan_bits(t, b))

def show_val(t, b):
    if t in ('f32', 'f64'): return repr(float(T.b2f(t, b)))
    n, s = INTS[t]
    return str(T.sgn(b, n) if s else b)

def judge_native(nat, h, env):
    """run harness and spec natively. -> (bad?, description, spec ok)"""
    ks, sp = nat.run('s_'+h.name, h.ins, env, h.outs + [('ok', 'u8')])
    kh, hv = nat.run('h_'+h.name, h.ins, env, h.outs)
    if ks != 'ok': return None, f'spec failed natively: {ks} {sp}', None
    ok = sp['ok']
    if kh == 'hang' and ok == 1: kh, hv = nat.run('h_'+h.name, h.ins, env, h.outs, timeout=30)     # slow is not a failure
    d = dict(input={n: show_val(t, env.get(n, 0)) for n, t in h.ins}, input_bits={n: hex(env.get(n, 0)) for n, t in h.ins},
             outcome=kh, got=({n: show_val(t, hv[n]) for n, t in h.outs} if kh == 'ok' else hv), spec_ok=ok,
             required=({n: show_val(t, sp[n]) for n, t in h.outs} if ok != 0 else 'panic'))
    if ok == 2: return False, d, ok
    if ok == 0: return kh == 'ok' or kh == 'hang', d, ok
    bad = kh != 'ok' or any(not same(t, hv[n], sp[n]) for n, t in h.outs)
    if bad and kh == 'ok' and 'tolerate' in h.opts and h.opts['tolerate'](env, hv): bad = False
    return bad, d, ok

# ------------------------------------------------------------------ deciding one harness (merge mode, equality with the spec)
def ev_nan_ok(t): return t

def rand_env(h, rng):
    env = {}
    common = rng.randrange(1, 65) if rng.random() < .5 else None
    for n, t in h.ins:
        b = fbits_of(t)
        r = rng.random()
        if n in h.opts.get('rand', {}): env[n] = rng.randrange(*h.opts['rand'][n]) & T.mask(b); continue
        if t in ('f32', 'f64'):
            if r < .5: env[n] = T.f2b(t, rng.uniform(-10, 10))
            elif r < .7: env[n] = T.f2b(t, rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 3.0, -2.0, 1e10, 1e-10, float('inf'), float('-inf'), float('nan')]))
            else: env[n] = rng.getrandbits(b)
        elif common: env[n] = (rng.choice([1, 1, -1])*rng.getrandbits(min(common, b))) & T.mask(b)
        else:
            if r < .3: env[n] = rng.getrandbits(b)
            elif r < .5: env[n] = rng.randrange(-5, 6) & T.mask(b)
            elif r < .6: env[n] = rng.choice([0, 1, T.mask(b), 1 << (b-1), (1 << (b-1))-1])
            else: env[n] = (rng.choice([1, -1])*rng.getrandbits(rng.randrange(1, b+1))) & T.mask(b)
    return env

def eval_uf(roots, env):
    """evaluate with every uninterpreted function returning a constant"""
    r = T.evaluate(roots, env)
    for k in range(8):
        ufs = [t for t in T.topo(r) if t.op == 'uf']
        if not ufs: break
        m = {t.id: (T.bv(t.sort, 0) if not isinstance(t.sort, str) and t.sort else T.FALSE if t.sort == 0 else T.fc(t.sort, 0.5)) for t in ufs}
        r = T.substitute(r, m)
    return r

class Task:
    pass

def make_feasible(timeout, stats_assume=()):
    def feas(pc):
        g = list(pc) + list(stats_assume)
        r, _, _ = solve.check(g, timeout=timeout)
        return False if r == 'unsat' else None
    return feas

def check_split(g, split, tmo):
    """case split: each case is (substitution {var: term}, extra goals); the cases cover every input"""
    worst = 'unsat'
    for sub, extra in split:
        r, env, lvl = solve.check(T.substitute(list(g) + list(extra), {v.id: t for v, t in sub}), timeout=tmo)
        if r == 'sat':
            for v, t in sub:
                x = T.evaluate([t], {**{u.p: 0 for u in T.free_vars([t])}, **env})[0]; env = {**env, v.p: x.p}
            return r, env, lvl
        if r == 'unknown': worst = 'unknown'
    return worst, None, 'split'

def float_exp_split(name, w, emin, emax):
    """cases on the biased exponent of float input `name`: below emin, each value, above emax"""
    m = 23 if w == 32 else 52; eb = w-1-m
    def f(vs):
        v = vs[name]; e = T.extract(w-2, m, v); fr = T.var(f'{name}.frac', m); sg = T.var(f'{name}.sign', 1); r = []
        r.append(([], [T.cmp('ult', e, T.bv(eb, emin))])); r.append(([], [T.cmp('ult', T.bv(eb, emax), e)]))
        for k in range(emin, emax+1): r.append(([(v, T.concat(sg, T.concat(T.bv(eb, k), fr)))], []))
        return r
    return f

def decide(B, h, cfg):
    """returns a result dict for harness h"""
    t0 = time.time()
    R = dict(name=h.name, desc=h.desc, status='ok', queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, violations=[], undecided=[],
             validated=0, known=[], notes=[])
    st0 = (solve.STATS.queries, solve.STATS.unsat, solve.STATS.sat, solve.STATS.unknown, solve.STATS.time)
    nat = Native(B.so)
    rng = random.Random(f"{cfg['seed']}-{h.name}")
    try:
        cells, vs, isz = sym_inputs(h)
        def run(fn, outs):
            ex = symex.Exec(B.mod, 'merge', feasible=make_feasible(cfg.get('feas_timeout', 5)), loop_bound=h.opts.get('loop_bound', cfg.get('loop_bound', 300)),
                            stub=B.stub)
            ex.deadline = t0 + cfg.get('harness_timeout', 120)
            mem = {}
            i = ('in', 0); o = ('out', 0)
            mem[i] = dict(cells); mem[o] = {}
            ex.objsize[i] = isz; ex.objsize[o] = layout(outs)[1]
            rets = ex.run('@'+fn, [symex.Ptr(i), symex.Ptr(o)], mem, ())
            ov = read_outs(ex, rets[0][2], o, outs) if rets else None
            P = T.or_(*[T.and_(*pc) for pc, _ in ex.panics])
            return ex, ov, P
        es, so, SP = run('s_'+h.name, h.outs + [('ok', 'u8')])
        eh, ho, HP = run('h_'+h.name, h.outs)
        R['fns'] = sorted(x[1:] for x in eh.stats['fns']); R['ufs'] = sorted(eh.stats['ufs'])
        R['blocks'] = eh.stats['blocks'] + es.stats['blocks']; R['instrs'] = eh.stats['instrs'] + es.stats['instrs']; R['merges'] = eh.stats['merges']
        R['panic_sites'] = len(eh.panics)
        ok = so['ok']
        ok1 = T.eq(ok, T.bv(8, 1)); ok0 = T.eq(ok, T.bv(8, 0))
        qs = []
        if SP is not T.FALSE: qs.append(('spec-total', [SP]))
        for pc, why in eh.incomplete: qs.append(('bound', [T.or_(ok0, ok1), T.and_(*pc)]))
        for pc, why in eh.panics: qs.append(('panic:'+str(why), [ok1, T.and_(*pc)]))
        qs.append(('must-panic', [ok0, T.not_(HP)]))
        if ho is None: ho = {n: so[n] for n, _ in h.outs}
        for n, t in h.outs:
            qs.append((f'value:{n}', [ok1, T.not_(HP), T.not_(T.eq(ho[n], so[n]))]))
        tmo = cfg.get('timeout', 20)
        if len(qs) > 1 and (not h.opts.get('split') or h.opts.get('split_after')):
            # everything at once, with nonlinear and float operations uninterpreted
            r, _, _ = solve.solve1([T.or_(*[T.and_(*g) for _, g in qs])], min(tmo, 10), True)
            if r == 'unsat': R['combined'] = len(qs); qs = []
        split = h.opts['split'](vs) if h.opts.get('split') else None
        if split and len(qs) > 1:
            r, _, _ = check_split([T.or_(*[T.and_(*g) for _, g in qs])], split, tmo)
            if r == 'unsat': R['combined'] = len(qs); qs = []
        for label, g in qs:
            if split: r, env, lvl = check_split(g, split, tmo)
            else: r, env, lvl = solve.check(g, timeout=tmo, exact_timeout=cfg.get('exact_timeout', tmo))
            if r == 'unsat': continue
            if r == 'unknown':
                R['undecided'].append(label); continue
            # sat: replay
            tried = [env]
            bad = None
            vname = {n for n, _ in h.ins}
            e0 = {k: v for k, v in env.items() if k in vname}
            for n, _ in h.ins: e0.setdefault(n, 0)
            if label == 'spec-total': R['status'] = 'error'; R['notes'].append(f'spec panics at {e0}'); continue
            b, d, _ = judge_native(nat, h, e0)
            if b:
                R['violations'].append(dict(query=label, **d)); continue
            # not reproduced: uninterpreted functions can be the reason; look for other models
            found = False
            if solve.has_uf(g) or lvl == 'exact':
                for k in range(cfg.get('uf_models', 6)):
                    g2 = g + [T.not_(T.and_(*[T.eq(vs[n], T.bv(vs[n].sort, e[n])) for n in e])) for e in tried if e]
                    if k % 2 == 0:   # steer away from special values
                        for n, t in h.ins:
                            if t in ('f32', 'f64'):
                                lo, hi = rng.uniform(-3, 2), None
                                f = T.bits_to_f(vs[n]); g2 = g2 + [T.fcmp('flt', T.fc(t, lo), f), T.fcmp('flt', f, T.fc(t, lo+1.0))]
                    r, env, _ = solve.solve1(g2, 5, True)
                    if r != 'sat': continue
                    e1 = {n: env.get(n, rng.getrandbits(8)) for n, _ in h.ins}; tried.append(e1)
                    b, d, _ = judge_native(nat, h, e1)
                    if b: R['violations'].append(dict(query=label, **d)); found = True; break
            if not found:
                # last resort against functions outside the encoding: concrete probing of the same disagreement
                tp = time.time()
                for k in range(cfg.get('probe', 200)):
                    if time.time()-tp > cfg.get('probe_s', 20): break
                    e1 = rand_env(h, rng)
                    b, d, _ = judge_native(nat, h, e1)
                    if b: R['violations'].append(dict(query=label, **d)); found = True; break
            if not found: R['undecided'].append(label + ' (model not reproduced natively)')
        # known findings listed by the spec (ok >= 10)
        for kf in h.opts.get('known', []):
            code, key = kf
            g = [T.eq(ok, T.bv(8, code)), T.or_(HP, *[T.not_(T.eq(ho[n], so[n])) for n, _ in h.outs])]
            r, env, _ = solve.check(g, timeout=tmo)
            if r == 'sat':
                e0 = {n: env.get(n, 0) for n, _ in h.ins}
                b, d, _ = judge_native(nat, h, e0)
                if b: R['known'].append(dict(key=key, **d))
        # vacuity and translator validation
        wit = []; need = {1} | ({0} if HP is not T.FALSE else set()); got = set()
        for k in range(150):
            if got >= need: break
            e = rand_env(h, rng); v = eval_uf([ok], e)[0]
            if T.is_c(v) and v.p in need - got: got.add(v.p); wit.append(e)
        for want in need - got:
            g = [ok1, T.not_(HP)] if want else [ok0, HP]
            r, env, _ = solve.check(g, timeout=2, exact_timeout=4)
            if r == 'sat': wit.append({n: env.get(n, 0) for n, _ in h.ins})
            if r == 'unsat' and want and not h.opts.get('may_be_vacuous'):
                R['status'] = 'error'; R['notes'].append('vacuous: no input with a required value')
        for k in range(cfg.get('rand_validate', 4)): wit.append(rand_env(h, rng))
        for e in wit:
            if eh.incomplete:
                inc = T.evaluate([T.or_(*[T.and_(*pc) for pc, _ in eh.incomplete])], e)[0]
                if inc is not T.FALSE: continue
            kh, hv = nat.run('h_'+h.name, h.ins, e, h.outs, timeout=1)
            if kh == 'hang': continue
            pv = T.evaluate([HP] + [ho[n] for n, _ in h.outs], e)
            if kh == 'hang': continue
            if T.is_c(pv[0]):
                if kh != 'ok' and not pv[0].p and eh.stats['ufs']: continue     # a panic inside a function left uninterpreted
                if bool(pv[0].p) != (kh != 'ok'):
                    R['status'] = 'error'; R['notes'].append(f'translator: panic mismatch at {e}: symbolic {bool(pv[0].p)} native {kh} {hv}'); continue
                if kh == 'ok':
                    allc = True
                    for (n, t), v in zip(h.outs, pv[1:]):
                        if not T.is_c(v): allc = False; continue
                        if not same(t, v.p, hv[n]):
                            R['status'] = 'error'; R['notes'].append(f'translator: {n} mismatch at {e}: symbolic {hex(v.p)} native {hex(hv[n])}')
                    if allc: R['validated'] += 1; continue
                else: R['validated'] += 1; continue
            # functions left uninterpreted: the verdict itself is compared with the compiled code
            if kh == 'ok' and not R['undecided'] and not R['violations']:
                b, d, sok = judge_native(nat, h, e)
                if b: R['violations'].append(dict(query='validation of the verdict', **d))
                elif b is False and sok == 1: R['validated'] += 1
        R['witness'] = {n: show_val(t, wit[0][n]) for n, t in h.ins} if wit else None
    except (symex.Unsupported, symex.Bound, NotImplementedError) as e:
        R['undecided'].append(f'{type(e).__name__}: {e}')
    except Exception as e:
        R['status'] = 'error'; R['internal'] = True; R['notes'].append(traceback.format_exc()[-1500:])
    R['queries'], R['unsat'], R['sat'], R['unknown'], R['solver_s'] = [b-a for a, b in zip(st0, (solve.STATS.queries, solve.STATS.unsat, solve.STATS.sat, solve.STATS.unknown, solve.STATS.time))]
    R['wall'] = time.time()-t0
    return R

_G = {}
def _work(k):
    B, hs, cfg, fn = _G['x']
    return fn(B, hs[k], cfg)

def run_all(B, hs, cfg, fn=decide, workers=None, budget=None):
    """run fn over harnesses in forked workers; returns results (missing ones are reported as undecided)"""
    _G['x'] = (B, hs, cfg, fn)
    workers = workers or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)
    t_end = time.time() + (budget or cfg.get('budget', 600)); t_stop = None     # once enough violations are known the rest is left
    ctx = mp.get_context('fork')
    res = [None]*len(hs)
    order = list(range(len(hs)))
    # simple scheduler: each job in its own process, killed on timeout
    running = {}
    todo = order[::-1]
    chunk = cfg.get('chunk', 1)
    while todo or running:
        while todo and len(running) < workers:
            ks = [todo.pop() for _ in range(min(chunk, len(todo)))]
            rd, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (cfg.get('mem_gb', 8) << 30, cfg.get('mem_gb', 8) << 30))
                    for k in ks:
                        try: r = _work(k)
                        except BaseException as e: r = dict(name=hs[k].name, desc=hs[k].desc, status='error', internal=True, notes=[repr(e)], undecided=[], violations=[])
                        b = json.dumps([k, r], default=str).encode()
                        os.write(wr, struct.pack('<I', len(b)))
                        mv = memoryview(b)
                        while mv: n = os.write(wr, mv); mv = mv[n:]
                finally: os._exit(0)
            os.close(wr); os.set_blocking(rd, False)
            running[pid] = [rd, b'', time.time(), ks]
        import select
        rl, _, _ = select.select([v[0] for v in running.values()], [], [], 0.5)
        for pid in list(running):
            v = running[pid]
            if v[0] in rl:
                try: x = os.read(v[0], 1 << 20)
                except BlockingIOError: continue
                if x:
                    v[1] += x; continue_ = True
                    while len(v[1]) >= 4:
                        n = struct.unpack('<I', v[1][:4])[0]
                        if len(v[1]) < 4+n: break
                        k, r = json.loads(v[1][4:4+n]); v[1] = v[1][4+n:]; res[k] = r
                    continue
                os.close(v[0]); os.waitpid(pid, 0); del running[pid]; continue
            lim = cfg.get('harness_timeout', 120)*len(v[3]) + 30
            if t_stop is None and sum(1 for r in res if r and r.get('violations')) >= cfg.get('stop_after', 5): t_stop = time.time()+15; todo = []
            if time.time()-v[2] > lim or time.time() > t_end or (t_stop and time.time() > t_stop):
                os.kill(pid, signal.SIGKILL); os.close(v[0]); os.waitpid(pid, 0); del running[pid]
        if time.time() > t_end: todo = []
    for k in order:
        if res[k] is None:
            res[k] = dict(name=hs[k].name, desc=hs[k].desc, status='ok', undecided=['time or memory limit' if t_stop is None else 'not run: stopped after other violations'], violations=[], notes=[], known=[], validated=0)
    return res

def known_list():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def finish(pid, res, B, cfg, t0, bounds, assumptions, extra=None, level='model_checking'):
    """print verdict lines, write evidence, return exit code"""
    tier, seed = cfg['tier'], cfg['seed']
    viol = [(r, v) for r in res for v in r.get('violations', [])]
    known = [(r, k) for r in res for k in r.get('known', [])]
    err = [r for r in res if r.get('status') == 'error']
    # code the engine cannot follow leaves its harness undecided; when that is most of them the check itself is at fault
    broken = [r for r in err if r.get('internal')]
    if 2*len(broken) <= len(res):
        for r in broken: r['undecided'] = r.get('undecided', []) + ['internal: ' + (r['notes'] or [''])[-1].strip().split('\n')[-1][:200]]
        err = [r for r in err if not r.get('internal')]
    und = [(r['name'], u) for r in res for u in r.get('undecided', [])]
    listed = {e['key']: e for e in known_list() if e['property'] == pid and e.get('status') == 'known'}
    rep = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + '_'): os.remove(os.path.join(rep, f))
    done = set()
    for r, k in known:
        if k['key'] in listed:
            if k['key'] not in done:
                done.add(k['key']); print(f"KNOWN-FINDING: property={pid} {listed[k['key']]['what']} (e.g. {r['name']} input {k['input']})")
        else: viol.append((r, dict(k, query='known-region:' + k['key'])))
    out = 0; n = 0
    byh = {}
    for r, v in viol: byh.setdefault(r['name'], []).append((r, v))
    for name, l in byh.items():
        n += 1
        if n > 12: break
        path = os.path.join(rep, f'{pid}_{name}.json')
        json.dump(dict(property=pid, harness=name, desc=l[0][0]['desc'], violations=[v for _, v in l], driver=getattr(B, 'name', None), seed=seed), open(path, 'w'), indent=1, default=str)
        v = l[0][1]
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {name}: {l[0][0]['desc']}: input {v.get('input')} got {v.get('outcome')} {v.get('got')} required {v.get('required')}  [{v.get('query')}]")
        out = 1
    fns = sorted({f for r in res for f in r.get('fns', [])}); ufs = sorted({f for r in res for f in r.get('ufs', [])})
    dm = getattr(B, 'dm', {})
    cov = dict(
        states=sum(r.get('blocks', 0) for r in res), transitions=sum(r.get('instrs', 0) for r in res),
        traces_validated_against_impl=sum(r.get('validated', 0) for r in res),
        samples=[dict(harness=r['name'], what=r['desc'], witness=r.get('witness'), queries=r.get('queries'), functions=r.get('fns', [])[:3]) for r in res if r.get('witness')][:8],
        meaning='states = symbolic basic-block instances executed, transitions = LLVM instructions executed symbolically, traces = inputs on which the encoding and the compiled code were compared',
        harnesses=len(res), harnesses_decided=sum(1 for r in res if not r.get('undecided') and r.get('status') != 'error'),
        functions_encoded=len(getattr(B, 'reach', fns)), functions=[f for f in getattr(B, 'reach', []) if 'mixed_num::' in f][:300], entry_points=[r['name'] for r in res][:400], uninterpreted=[dm.get(u, u) for u in ufs][:120],
        queries=dict(total=sum(r.get('queries', 0) for r in res), unsat=sum(r.get('unsat', 0) for r in res), sat=sum(r.get('sat', 0) for r in res), unknown=sum(r.get('unknown', 0) for r in res)),
        solver_s=round(sum(r.get('solver_s', 0) for r in res), 2), solver='z3 ' + solve.z3.get_version_string(),
        bounds=bounds, undecided=und[:200], build_s=round(getattr(B, 't_cargo', 0), 2), panic_sites=sum(r.get('panic_sites', 0) for r in res))
    if extra: cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time()-t0, 2), violations=len(byh))
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1, default=str)
    q = cov['queries']
    print(f"{pid} {tier}: {len(res)} harnesses, {cov['harnesses_decided']} decided, {len(byh)} violated, {len(und)} undecided queries; "
          f"{q['total']} queries ({q['unsat']} unsat), solver {cov['solver_s']}s, {cov['traces_validated_against_impl']} traces validated, wall {ev['wall_s']}s")
    if os.environ.get('VERIF_SLOW'):
        for r in sorted(res, key=lambda r: -r.get('wall', 0))[:12]: print('   slow', r['name'], round(r.get('wall', 0), 1), 'solver', round(r.get('solver_s', 0), 1), r.get('queries'))
    for nme, u in und[:6]: print(f"   undecided: {nme}: {u}")
    if out == 0 and err:
        for r in err[:5]: print(f"ERROR {r['name']}: {r['notes'][:2]}", file=sys.stderr)
        return 2
    return out

def with_types(src, sp=False):
    """aliases (and spec arithmetic) for the fixed types named in src"""
    import re
    ts = sorted(set(re.findall(r'\b[IU](?:8|16|32|64)U\d+\b', src)))
    r = ''.join('type {0} = Fixed{1}<U{2}>;\n'.format(t, *t.rsplit('U', 1)) for t in ts)
    if sp: r += ''.join(f'sp_fix!({t});\n' for t in ts)
    return r + src

def prepare(name, hs, cut=('libm', 'cordic'), extra_src='', stub=None, **kw):
    """build the driver of harnesses hs with the functions under the path prefixes `cut` left uninterpreted"""
    src = PRELUDE + extra_src + with_types(''.join(h.rust() for h in hs), 'macro_rules! sp_fix' in extra_src)
    fns = [f for h in hs for f in h.fns()]
    B = build.build(name, src, fns, cut=cut, **kw)
    dm, cutn = B.dm, B.cut
    def st(nm):
        if nm in cutn: return cutn[nm]
        return stub(nm, dm.get(nm, nm)) if stub else False
    B.stub = st
    return B

def standard(pid, hs, cfg, t0, bounds, assumptions, cut=('libm', 'cordic'), extra_src='', stub=None, more=(), **kw):
    """decide harnesses hs; more: further (harnesses, cut) groups, each with its own driver"""
    res = []; reach = set(); tc = 0; B0 = None
    for k, (g, c) in enumerate([(hs, cut)] + list(more)):
        if not g: continue
        B = prepare('drv_' + pid.lower() + ('' if k == 0 else f'_{k}'), g, c, extra_src, stub)
        cf = dict(cfg); cf.setdefault('chunk', max(1, min(12, len(g)//24)))
        res += run_all(B, g, cf)
        reach |= set(B.reach); tc += B.t_cargo; B0 = B0 or B
        if B is not B0: B0.dm = {**B0.dm, **B.dm}
    B0.reach = sorted(reach); B0.t_cargo = tc
    return finish(pid, res, B0, cfg, t0, bounds, assumptions, **kw)
