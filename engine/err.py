"""Checks that bound the distance of a numerical routine from the true function.

The compiled routine is executed path by path; the outcome of every path is turned into a real polynomial plus a rigorous
bound on the rounding and truncation errors (engine/relax.py), and a solver decides over the reals, for all inputs of the
path at once, that the required bound cannot be exceeded.  Panics and unfinished loops are decided per path as well: by the
relaxation first, by the exact bit-level encoding where that does not settle it.  What the solver cannot refute is looked
for in the compiled code near the solver's model; only a confirmed input is reported as a violation.
"""
import os, time, random, traceback, struct, signal, ctypes, select, z3
from fractions import Fraction as Fr
from math import floor, ceil
from . import terms as T, symex, solve, relax
from .check import Native, layout, sym_inputs, read_outs, fbits_of, show_val, INTS, same
from .relax import Unk, NeedSplit, Contra

def batch(nat, fn, ins, envs, outs, timeout=3):
    """run fn natively on every env; results as Native.run gives them"""
    if nat.lib is None: nat.lib = ctypes.CDLL(nat.so)
    lay, size = layout(ins); olay, osz = layout(outs)
    bufs = []
    for env in envs:
        b = bytearray(max(size, 16))
        for n, t, off, sz in lay: b[off:off+sz] = int(env.get(n, 0) & T.mask(sz*8)).to_bytes(sz, 'little')
        bufs.append(bytes(b))
    res = []
    while len(res) < len(envs):
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(rd); dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                ib = ctypes.create_string_buffer(max(size, 16)+64); ob = ctypes.create_string_buffer(osz+64)
                ia = (ctypes.addressof(ib)+31)//32*32; oa = (ctypes.addressof(ob)+31)//32*32
                f = getattr(nat.lib, fn); f.restype = None
                out = []
                for b in bufs[len(res):]:
                    ctypes.memmove(ia, b, len(b)); signal.alarm(timeout)
                    ctypes.memset(oa, 0, osz)
                    f(ctypes.c_void_p(ia), ctypes.c_void_p(oa))
                    os.write(wr, ctypes.string_at(oa, osz))
                os._exit(0)
            finally: os._exit(77)
        os.close(wr); data = b''
        while True:
            x = os.read(rd, 1 << 20)
            if not x: break
            data += x
        os.close(rd); _, st = os.waitpid(pid, 0)
        for k in range(len(data)//osz):
            d = data[k*osz:(k+1)*osz]
            res.append(('ok', {n: int.from_bytes(d[o:o+sz], 'little') for n, t, o, sz in olay}))
        if len(res) < len(envs):
            if os.WIFSIGNALED(st): res.append(('hang', None) if os.WTERMSIG(st) in (signal.SIGALRM, signal.SIGXCPU) else ('panic', f'signal {os.WTERMSIG(st)}'))
            else: res.append(('panic', f'exit {os.WEXITSTATUS(st)}'))
    return res

def bits_near(t, x):
    """bit pattern of type t nearest to the real x (integers: of the raw value)"""
    if t in ('f32', 'f64'):
        try: return T.f2b(t, float(x))
        except OverflowError: return T.f2b(t, float('inf') if x > 0 else float('-inf'))
    n, s = INTS[t]; v = round(x); lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if s else (0, (1 << n)-1)
    return max(lo, min(hi, v)) & T.mask(n)
def raw_value(t, b):
    if t in ('f32', 'f64'):
        q = T.b2f(t, b)
        q = float(q); return q if q != q or abs(q) == float("inf") else Fr(q)
    n, s = INTS[t]; return Fr(T.sgn(b, n) if s else b)

def pick(rng, t, lo, hi):
    """random value of type t in [lo, hi]: uniform, logarithmic or close to an end"""
    k = rng.random()
    if k < 0.12: x = lo
    elif k < 0.24: x = hi
    elif k < 0.32: x = lo+(hi-lo)*Fr(2)**-rng.randint(1, 40)
    elif k < 0.40: x = hi-(hi-lo)*Fr(2)**-rng.randint(1, 40)
    elif k < 0.7 and lo*hi >= 0 and (lo or hi):
        import math
        a, b = sorted((abs(lo), abs(hi))); sg = 1 if hi > 0 else -1
        lg = lambda v: (v.numerator.bit_length()-v.denominator.bit_length()) if v else (-40 if t not in ('f32', 'f64') else -140)
        e = rng.randint(lg(Fr(a)), lg(Fr(b))); x = sg*Fr(2)**e*Fr(rng.uniform(1, 2)); x = max(lo, min(hi, x))
    else: x = lo+(hi-lo)*Fr(rng.random())
    return bits_near(t, x)

def cases(h, vs):
    """case split on the signs of the inputs (floats: everything but NaN)"""
    import itertools
    per = []
    for n, t in h.ins:
        v = vs[n]; w = fbits_of(t)
        if t in ('f32', 'f64'):
            x = T.bits_to_f(v); z = T.fc(t, 0.0); per.append([T.fcmp('flt', x, z), T.fcmp('feq', x, z), T.fcmp('flt', z, x)])
        elif INTS[t][1]: z = T.bv(w, 0); per.append([T.cmp('slt', v, z), T.eq(v, z), T.cmp('slt', z, v)])
        else: z = T.bv(w, 0); per.append([T.eq(v, z), T.cmp('ult', z, v)])
    return itertools.product(*per)

def bisect(c, h, vs):
    """conditions halving the widest input interval of a case"""
    best = None
    for n, t in h.ins:
        lo, hi = c.b[n]; fl = t in ('f32', 'f64')
        if lo >= hi: continue
        w = (hi-lo)/max(abs(lo), abs(hi))
        if best is None or w > best[0]: best = (w, n, t, lo, hi, fl)
    if best is None: return None
    _, n, t, lo, hi, fl = best
    if fl:
        m = bits_near(t, (lo+hi)/2); v = raw_value(t, m)
        if not isinstance(v, Fr) or not lo < v < hi: return None
        x = T.bits_to_f(vs[n]); k = T.fbits(t, m); return [T.fcmp('flt', x, k), T.fcmp('fle', k, x)]
    m = (lo+hi)//2; k = T.bv(fbits_of(t), int(m) & T.mask(fbits_of(t)))
    x = T.cmp('slt' if INTS[t][1] else 'ult', k, vs[n]); return [x, T.not_(x)]

def real_out(c, sol, env, t, ty, name='out'):
    """z3 real for the value computed for output t: within the error bound of its polynomial and inside its interval"""
    n, u = out_node(c, t, ty); y = z3.Real(name)
    p = relax.pz3(n.p, env)*z3.RealVal(u)
    if n.err: sol.add(y-p <= z3.RealVal(n.err*u), p-y <= z3.RealVal(n.err*u))
    else: sol.add(y == p)
    sol.add(y >= z3.RealVal(n.lo*u), y <= z3.RealVal(n.hi*u))
    return y
def zfrac(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_rational_value(v): return v.as_fraction()
    v = v.approx(40); return v.as_fraction()

class Found(Exception): pass

def decide_err(B, h, cfg):
    """opts: claim(ctx, outs) -> [(label, fn(ctx) -> (answer, {input: value} or None))],  judge(env, outcome, values) -> (bad, required),
    domain {input: (lo, hi)} for random probing, inputs {name: ('f32', None) | (bits, signed)}"""
    t0 = time.time(); o = h.opts
    R = dict(name=h.name, desc=h.desc, status='ok', queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, violations=[], undecided=[], validated=0, known=[], notes=[])
    st0 = (solve.STATS.queries, solve.STATS.unsat, solve.STATS.sat, solve.STATS.unknown, solve.STATS.time)
    nat = Native(B.so); rng = random.Random(f"{cfg['seed']}-{h.name}")
    fn = 'h_'+h.name; tmo = cfg.get('timeout', 10); deadline = t0+cfg.get('harness_timeout', 120)-10
    inputs = o.get('inputs') or {n: ((t, None) if t in ('f32', 'f64') else INTS[t]) for n, t in h.ins}
    def judge(env, r):
        if r[0] == 'ok' and r[1].get('g') == 0: return False, 'outside the domain'
        return o['judge'](env, *r)
    def violation(label, env, r, req):
        if len(R['violations']) >= 4: return
        R['violations'].append(dict(query=label, input={n: show_val(t, env.get(n, 0)) for n, t in h.ins}, input_bits={n: hex(env.get(n, 0)) for n, t in h.ins},
            outcome=r[0], got={n: show_val(t, r[1][n]) for n, t in h.outs if n != 'g'} if r[0] == 'ok' else r[1], required=req))
    def probe(label, boxes, k, near=()):
        """run the compiled code near a model and in a box of inputs; True when a violation is confirmed"""
        es = []
        for pt in near:
            if not pt: continue
            for j in range(40):
                e = {}
                for n, t in h.ins:
                    x = pt.get(n)
                    if x is None: e[n] = pick(rng, t, *boxes[0][n])
                    else:
                        b = bits_near(t, x)
                        if j: b = (b+rng.randint(-3*j, 3*j)) & T.mask(fbits_of(t)) if t not in ('f32', 'f64') else (b+rng.choice([-1, 1])*rng.randint(0, 4 << (j//2))) & T.mask(fbits_of(t))
                        e[n] = b
                es.append(e)
        for bx in boxes:
            for _ in range(k): es.append({n: pick(rng, t, *bx[n]) for n, t in h.ins})
        for e, r in zip(es, batch(nat, fn, h.ins, es, h.outs)):
            bad, req = judge(e, r)
            if bad: violation(label, e, r, req); return True
        return False
    try:
        orc = relax.Oracle(inputs, o.get('base', ()))
        cells, vs, isz = sym_inputs(h)
        ex = symex.Exec(B.mod, 'fork', feasible=orc.feasible, loop_bound=o.get('loop_bound', 300), stub=B.stub, prune=True)
        ex.deadline = deadline
        mem = {('in', 0): dict(cells), ('out', 0): {}}
        ex.objsize[('in', 0)] = isz; ex.objsize[('out', 0)] = layout(h.outs)[1]
        rets = []
        for case in cases(h, vs):
            rets += ex.run('@'+fn, [symex.Ptr(('in', 0)), symex.Ptr(('out', 0))], {k: dict(v) for k, v in mem.items()}, tuple(case))
        R['fns'] = sorted(x[1:] for x in ex.stats['fns']); R['ufs'] = sorted(ex.stats['ufs']); R['blocks'] = ex.stats['blocks']; R['instrs'] = ex.stats['instrs']
        R['panic_sites'] = len(ex.panics); R['paths'] = len(rets)
        if os.environ.get('VERIF_DBG'): print(h.name, 'paths', len(rets), 'panics', len(ex.panics), 'incomplete', len(ex.incomplete), round(time.time()-t0, 1), flush=True)
        paths = []; suspects = []; sat = {}; early = [40]
        full = {n: o.get('domain', {}).get(n) or relax.Ctx(inputs).b[n] for n, _ in h.ins}
        def clip(n, lo, hi):
            lo, hi = max(lo, full[n][0]), min(hi, full[n][1]); return (lo, hi) if lo <= hi else full[n]
        def note(label, c, pt):
            sat[label] = sat.get(label, 0)+1
            suspects.append((label, dict(c.b), pt))
        for pc, _, m in rets:
            outs = read_outs(ex, m, ('out', 0), h.outs); paths.append((pc, outs))
            if 'g' in outs and T.is_c(outs['g']) and outs['g'].p == 0: continue
            if time.time() > deadline: R['undecided'].append('time limit'); break
            lv = []
            def f(c):
                r = []
                if 'g' in outs and c.need(T.eq(outs['g'], T.bv(8, 0))): return r
                for label, q in o['claim'](c, outs): r.append((label, q(c)))
                return r
            work = [(pc, o.get('bisect', 14))]
            while work:
                pc1, d = work.pop()
                for pc2, c, v in orc.leaves(pc1, f, 16):
                    if isinstance(v, Unk): op = [(f'not encodable: {v}', None)]
                    else: op = [(label if a == 'sat' else label+' (solver gave up)', pt) for label, (a, pt) in v if a != 'unsat']
                    if not op: continue
                    if all(c.b[n][0] == c.b[n][1] for n, _ in h.ins):          # one input left: its exact bit-level result decides
                        e = {n: bits_near(t, c.b[n][0]) for n, t in h.ins}; ev = T.Eval(e)
                        if all(raw_value(t, e[n]) == c.b[n][0] for n, t in h.ins):
                            vals = {n: ev(outs[n]) for n, _ in h.outs}; R['points'] = R.get('points', 0)+1
                            if any(ev(x) is T.FALSE for x in pc2): continue
                            if all(T.is_c(x) for x in vals.values()) and not judge(e, ('ok', {n: x.p for n, x in vals.items()}))[0]: continue
                    # a counterexample of the relaxation is tried on the compiled code at once
                    if early[0] and any(pt for _, pt in op):
                        early[0] -= 1; label, pt = next(x for x in op if x[1])
                        if probe(label, [{n: clip(n, *c.b[n]) for n in full}], 20, [pt]): raise Found()
                    sp = bisect(c, h, vs) if d and time.time() < deadline else None
                    if sp and len(work) < 200: work += [(tuple(pc2)+(x,), d-1) for x in sp]; R['bisections'] = R.get('bisections', 0)+1
                    else:
                        for label, pt in op: note(label, c, pt)
        for kind, lst in (('panic', ex.panics), ('bound', ex.incomplete)):
            for pc, why in lst:
                c = orc.ctx(pc)
                if c is None or orc.refuted(pc): continue
                if time.time() > deadline: R['undecided'].append('time limit'); break
                a, env, _ = solve.check(list(pc), timeout=cfg.get('panic_timeout', tmo))
                if a == 'unsat': continue
                if a == 'sat':
                    e = {n: env.get(n, 0) for n, _ in h.ins}; r = batch(nat, fn, h.ins, [e], h.outs)[0]; bad, req = judge(e, r)
                    if bad: violation(f'{kind}: {why}', e, r, req); continue
                    if kind == 'panic' and r[0] == 'panic': continue          # outside the domain
                    if kind == 'bound' and not bad: R['undecided'].append(f'{kind}: {why}'); continue
                note(f'{kind}: {why}', c, env and {n: raw_value(t, env.get(n, 0)) for n, t in h.ins})
        # what was not refuted is looked for in the compiled code
        order = suspects[:]; rng.shuffle(order); seen = {}
        for label, bx, pt in order:
            if seen.get(label, 0) >= cfg.get('suspects', 12) or len(R['violations']) >= 3: continue
            seen[label] = seen.get(label, 0)+1
            bx = {n: (max(bx[n][0], full[n][0]), min(bx[n][1], full[n][1])) for n in full}
            bx = {n: v if v[0] <= v[1] else full[n] for n, v in bx.items()}
            probe(label, [bx], cfg.get('probe', 300), [pt])
        if suspects and not R['violations']: probe('search after an open query', [full], 5000)
        for label, k in sat.items():
            R['undecided'].append(f'{label}: {k} of {len(paths)} paths, no failing input found')
        if R['violations']: R['undecided'] = []
        # the encoding against the compiled code, and the oracle against the compiled code
        es = [{n: pick(rng, t, *full[n]) for n, t in h.ins} for _ in range(cfg.get('validate', 12))]
        for e, r in zip(es, batch(nat, fn, h.ins, es, h.outs)):
            bad, req = judge(e, r)
            if bad:
                if not R['violations']: violation('validation of the verdict', e, r, req)
                continue
            if r[0] != 'ok': continue
            ev = T.Eval(e)
            for pc, outs in paths:
                if any(ev(x) is not T.TRUE for x in pc): continue
                vals = [ev(outs[n]) for n, _ in h.outs]
                if all(T.is_c(v) for v in vals):
                    for (n, t), v in zip(h.outs, vals):
                        if not same(t, v.p, r[1][n]): R['status'] = 'error'; R['notes'].append(f'translator: {n} mismatch at {e}: symbolic {hex(v.p)} native {hex(r[1][n])}')
                    R['validated'] += 1; R['witness'] = {n: show_val(t, e[n]) for n, t in h.ins}
                break
    except Found: R['undecided'] = []
    except (symex.Unsupported, symex.Bound, NotImplementedError) as e:
        R['undecided'].append(f'{type(e).__name__}: {e}')
        full = {n: o.get('domain', {}).get(n) or relax.Ctx(inputs).b[n] for n, _ in h.ins}
        probe('search after an open query', [full], 5000)
    except Exception as e:
        R['status'] = 'error'; R['internal'] = True; R['notes'].append(traceback.format_exc()[-1500:])
    R['queries'], R['unsat'], R['sat'], R['unknown'], R['solver_s'] = [b-a for a, b in zip(st0, (solve.STATS.queries, solve.STATS.unsat, solve.STATS.sat, solve.STATS.unknown, solve.STATS.time))]
    R['wall'] = time.time()-t0
    return R

# ---------------------------------------------------------------- claims
def out_node(c, t, ty):
    """node of an output in units of the value (fixed point: raw/2^frac)"""
    if ty.kind == 'float': return c.get(t, 'F'), Fr(1)
    return c.get(t, 'S' if ty.signed else 'U'), Fr(1, 1 << getattr(ty, 'frac', 0))

def mpq(x):
    """mpmath number -> Fraction"""
    sg, man, ex, _ = x._mpf_
    return Fr(-man if sg else man)*Fr(2)**ex

def standard_err(pid, hs, cfg, t0, bounds, assumptions, cut=(), exact=(), extra_src='', **kw):
    """hs: harnesses decided by error analysis; exact: (harnesses, cut) groups decided exactly"""
    from .check import prepare, run_all, finish, decide
    res = []; reach = set(); tc = 0; B0 = None
    for k, (g, c, fn) in enumerate([(list(hs), cut, decide_err)] + [(list(g), c, decide) for g, c in exact]):
        if not g: continue
        B = prepare('drv_' + pid.lower() + ('' if k == 0 else f'_{k}'), g, c, extra_src if fn is decide else '')
        cf = dict(cfg)
        if fn is decide_err: cf.setdefault('harness_timeout', 500); cf.setdefault('mem_gb', 6); cf['harness_timeout'] = max(cf['harness_timeout'], 400)
        left = max(60, cf.get('budget', 560)-(time.time()-t0)); cf['budget'] = left
        res += run_all(B, g, cf, fn=fn)
        reach |= set(B.reach); tc += B.t_cargo; B0 = B0 or B
        if B is not B0: B0.dm = {**B0.dm, **B.dm}
    B0.reach = sorted(reach); B0.t_cargo = tc
    ex = dict(paths=sum(r.get('paths', 0) for r in res), bisections=sum(r.get('bisections', 0) for r in res), single_inputs_evaluated=sum(r.get('points', 0) for r in res))
    return finish(pid, res, B0, cfg, t0, bounds, assumptions, extra=ex, **kw)

A_REL = ('integer, fixed-point and floating-point operations are relaxed to real polynomials with rigorous truncation and rounding error bounds '
         '(round to nearest, gradual underflow); a claim refuted over the reals is refuted for the compiled code')
