from .common import *
from engine.err import *
from engine import relax, err
import z3

REL = Fr(1, 1000)
def ksq(ty): return Fr(6)
def tol(ty, s):
    return REL*s + (ksq(ty)*Fr(1, 1 << ty.frac)*max(Fr(1), s) if ty.kind == 'fixed' else 0)

def claim(ty):
    def f(c, outs):
        r = outs['r']; res = []
        lo, hi = c.b['a']
        zero = lo == hi == 0
        n, u = out_node(c, r, ty)
        if zero:
            return [('zero', lambda c: ('unsat' if n.lo == n.hi == 0 else 'sat', {'a': Fr(0)}))]
        if lo <= 0 <= hi: raise NeedSplit(T.cmp('slt', T.bv(fbits_of(ty.inner), 0), T.var('a', fbits_of(ty.inner)))) if ty.kind != 'float' else NeedSplit(T.fcmp('flt', T.fc(ty.inner, 0.0), T.bits_to_f(T.var('a', ty.bits))))
        sg = 1 if lo > 0 else -1
        def q(which):
            def g(c):
                s = z3.Real('s'); F = 1 if ty.kind == 'float' else 1 << ty.frac
                amin, amax = min(abs(lo), abs(hi)), max(abs(lo), abs(hi))
                K = z3.RealVal(ksq(ty)*u) if ty.kind == 'fixed' else 0
                cls = [([], z3.RealVal(REL)*s)] if ty.kind == 'float' else [([s <= 1], z3.RealVal(REL)*s+K)]*(amin <= F) + [([s >= 1], z3.RealVal(REL)*s+K*s)]*(amax >= F)
                sol, env = c.solver(['a'], {'a': sg*F*s*s})
                sol.add(s >= 0)
                P = relax.pz3(n.p, env)*z3.RealVal(u); D = P-s if which == 'above' else s-P
                if all(c.ask(sol, ex+[D+z3.RealVal(n.err*u) > t], 10) == 'unsat' for ex, t in cls): return 'unsat', None
                y = real_out(c, sol, env, r, ty); D = y-s if which == 'above' else s-y
                for ex, t in cls:
                    a = c.ask(sol, ex+[D > t], 10)
                    if a == 'sat': return a, {'a': sg*F*zfrac(c.model, s)**2}
                    if a != 'unsat': return a, None
                return 'unsat', None
            return g
        return [('above', q('above')), ('below', q('below')), ('sign', lambda c: ('unsat' if n.lo >= 0 else 'sat', None))]
    return f

def judge(ty):
    import mpmath
    mpmath.mp.prec = 300
    def f(env, outcome, vals):
        x = raw_value(ty.inner, env['a'])
        if not isinstance(x, Fr): return False, ''
        if ty.kind == 'fixed': x = x/(1 << ty.frac)
        s = mpmath.sqrt(mpmath.mpf(abs(x).numerator)/abs(x).denominator)
        req = f'sqrt = {mpmath.nstr(s, 20)}'
        if outcome != 'ok': return True, req
        r = raw_value(ty.inner, vals['r'])
        if not isinstance(r, Fr): return True, req
        if ty.kind == 'fixed': r = r/(1 << ty.frac)
        if r < 0 or (x == 0 and r != 0): return True, req
        return bool(abs(mpmath.mpf(r.numerator)/r.denominator-s) > mpmath.mpf(tol(ty, err.mpq(s)).numerator)/tol(ty, err.mpq(s)).denominator), req
    return f

LIM = ('1.0/1048576.0/1048576.0', '1048576.0*1048576.0', '0x1p40')
LIM3 = ('1.0/256.0', '256.0', '0x1p8')
LIM_T = ('1.0/1152921504606846976.0/1048576.0', '1152921504606846976.0*1048576.0', '0x1p80')
def guard(ty, lim, call, zero=True):
    i = ty.inner
    if ty.kind == 'float':
        z = 'a == 0.0 || ' if zero else ''
        return f'if {z}(({lim[0]}) <= a && a <= ({lim[1]})) || (-({lim[1]}) <= a && a <= -({lim[0]})) {{ o_g = 1; {call} }}', {'a': (-Fr(float.fromhex(lim[2])), Fr(float.fromhex(lim[2])))}
    if ty.signed: return f'if a != {i}::MIN {{ o_g = 1; {call} }}', {}
    return f'o_g = 1; {call}', {}
def harness(ty, lim=LIM, it=2):
    i = ty.inner; x = ty.inp('a')
    body, dom = guard(ty, lim, f'let r = trigonometry::sqrt::niirf({x}, {it}); o_r = {ty.out("r")};')
    return H(f'niirf_{ty.name}' + (f'_i{it}' if it != 2 else ''), [('a', i)], [('r', i), ('g', 'u8')], body, None, desc=f'sqrt::niirf on {ty}, {it} iterations', opts=dict(claim=claim(ty), judge=judge(ty), domain=dom))
FAR = [(-1074, -1070), (-1024, -1021), (-514, -510), (-258, -254), (-130, -126), (-67, -63), (63, 67), (126, 130), (254, 258), (510, 514), (1021, 1024)]
def windows(ty, q):
    """positive floats by exponent: all of f32, all of f64 in the thorough tier"""
    if ty.bits == 64 and q: return FAR
    lo, hi, st = (-149, 128, 16) if ty.bits == 32 else (-1074, 1024, 12)
    return [(e, min(e+st, hi)) for e in range(lo, hi, st)]
def window(ty, lo, hi):
    """the same claim for 2^lo <= a <= 2^hi: far and extreme exponents"""
    i = ty.inner; top = hi == (128 if ty.bits == 32 else 1024)
    h = f'{i}::MAX' if top else f'{i}::from_bits({fb(ty, hi)})'
    dom = {'a': (Fr(2)**lo, relax.FMAX[i] if top else Fr(2)**hi)}
    body = f'if {i}::from_bits({fb(ty, lo)}) <= a && a <= {h} {{ o_g = 1; let r = trigonometry::sqrt::niirf(a, 2); o_r = {ty.out("r")}; }}'
    return H(f'niirf_{ty.name}_e{str(lo).replace("-", "m")}', [('a', i)], [('r', i), ('g', 'u8')], body, None, desc=f'sqrt::niirf on {ty} for 2^{lo} <= x <= 2^{hi}', opts=dict(claim=claim(ty), judge=judge(ty), domain=dom, loop_bound=1200))
def fb(ty, e):
    m, b = (23, 127) if ty.bits == 32 else (52, 1023)
    return hex((e+b) << m if e > -b else 1 << (e+b-1+m))
def even(ty, lim=LIM):
    i = ty.inner; x = ty.inp('a')
    body, dom = guard(ty, lim, f'let r = trigonometry::sqrt::niirf({x}, 2); o_r = {ty.out("r")}; let n = trigonometry::sqrt::niirf(-({x}), 2); o_n = {ty.out("n")};')
    def cl(c, outs):
        def q(c):
            if T.eq(outs['r'], outs['n']) is T.TRUE: solve.STATS.queries += 1; solve.STATS.unsat += 1; return 'unsat', None
            p, n = (c.get(outs[k], 'F' if ty.kind == 'float' else 'S') for k in 'rn')
            if p.err == n.err == 0 and p.p == n.p: return 'unsat', None
            return 'unknown', None
        return [('even', q)]
    def jd(env, outcome, vals):
        x = raw_value(i, env['a'])
        if not isinstance(x, Fr): return False, ''
        return outcome != 'ok' or not same(i, vals['r'], vals['n']), 'niirf(-x) == niirf(x)'
    return H(f'even_{ty.name}', [('a', i)], [('r', i), ('n', i), ('g', 'u8')], body, None, desc=f'niirf(-x) == niirf(x) on {ty}', opts=dict(claim=cl, judge=jd, domain=dom))

def main(cfg, t0):
    q = cfg['quick']; lim = LIM if q else LIM_T
    fx = tys('I64U32 U64U61 I64U61 U32U16 I32U29 I32U16 I8U0 I8U3 I8U5 U8U5 I16U0 I16U8 I16U13 U16U8 I32U0 I64U0 U64U0') if q else fixed_types(False, True, True)
    fl = FLOATS
    hs = [harness(t, lim) for t in fl + fx] + [even(t, lim) for t in fl + [t for t in fx if t.signed and not (q and (t.bits == 64 or t.name == 'I32U29'))]]
    hs += [window(t, *w) for t in FLOATS for w in windows(t, q)]
    if not q: hs += [harness(t, LIM3, 3) for t in fl + tys('I16U8 I32U16')]
    ex = []
    for t in fl + fixed_types(q, True, True):
        # equality of the entry points, for whatever the square root computes
        i = t.inner; x = t.inp('a')
        ex.append(H(f'mixed_niirf_{t}', [('a', i)], [('r', i)], f'let r = ({x}).mixed_niirf(); o_r = {t.out("r")};', f'let r = trigonometry::sqrt::niirf({x}, 2); o_r = {t.out("r")};', desc=f'{t}::mixed_niirf is niirf(x, 2)'))
        if t.kind == 'float': continue
        ex.append(H(f'mixed_sqrt_{t}', [('a', i)], [('r', i)], f'let r = ({x}).mixed_sqrt(); o_r = {t.out("r")};', f'let r = trigonometry::sqrt::niirf({x}, 2); o_r = {t.out("r")};', desc=f'{t}::mixed_sqrt is niirf(x, 2)'))
    return standard_err('C14', hs, cfg, t0, bounds=dict(types=[t.name for t in fl + fx], fixed='every bit pattern except the signed minimum', floats=f'0 and {lim[0]} <= |x| <= {lim[1]} (2^+-{lim[2][4:]}), all positive finite f32' + (f', f64 with binary exponents {FAR}' if q else ', all positive finite f64'), iterations='2' if q else '2 everywhere; 3 on f32 and f64 (2^-8 <= |x| <= 2^8), I16U8 and I32U16',
        loops='unrolled completely: the normalisation loop ends on every path'),
        assumptions=[A_REL, A_DEV, 'mixed_sqrt equality: niirf is an uninterpreted function of its arguments'], exact=[(ex, ('libm', 'cordic', NIIRF))])
