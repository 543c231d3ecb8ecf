from .common import *
from engine.err import *
from engine import relax, err
import z3

K_QUICK, K_THOROUGH = 100, 300
def pi_of(ty):
    """pi as represented in the type, as an exact rational (fixed point: of the raw value)"""
    if ty.kind == 'float':
        import struct, math
        return Fr(struct.unpack('<f', struct.pack('<f', math.pi))[0]) if ty.bits == 32 else Fr(math.pi)
    import mpmath
    mpmath.mp.prec = 300
    return Fr(int(mpmath.floor(mpmath.pi*mpmath.mpf(2)**ty.frac)))
def slop(ty, a, k):
    """allowed deviation from a whole number of turns: the roundings of k turns taken off one by one (exact in fixed point)"""
    if ty.kind == 'fixed': return Fr(0)
    return (abs(a)+4)*(2*abs(k)+4)*relax.U[ty.name]

def claim(ty):
    p = pi_of(ty)
    def f(c, outs):
        n = c.get(outs['r'], 'F' if ty.kind == 'float' else 'S')
        lo, hi = c.b['a']
        def ask(build):
            a = z3.Real('a'); sol, env = c.solver(['a'], {'a': a})
            y = z3.Real('y'); P = relax.pz3(n.p, env); e = z3.RealVal(n.err)
            sol.add(y-P <= e, P-y <= e, y >= z3.RealVal(n.lo), y <= z3.RealVal(n.hi))
            r = c.ask(sol, build(a, y), 20)
            return r, {'a': zfrac(c.model, a)} if r == 'sat' else None
        def inside(c):
            return ask(lambda a, y: [z3.Or(y < z3.RealVal(-p), y >= z3.RealVal(p))])
        def same(c):
            return ask(lambda a, y: [a >= z3.RealVal(-p), a < z3.RealVal(p), y != a])
        def turns(c):
            m = (lo+hi)/2; w = relax.peval(n.p, {v: m if v == 'a' else sum(c.b[v])/2 for v in relax.pvars(n.p)})
            k = round((w-m)/(2*p)); t = slop(ty, max(abs(lo), abs(hi)) if not k else c_mx(c), k)
            return ask(lambda a, y: [z3.Or(y-a-z3.RealVal(2*p*k) > z3.RealVal(t), y-a-z3.RealVal(2*p*k) < z3.RealVal(-t))])
        return [('in the period', inside), ('unchanged', same), ('whole turns', turns)]
    def c_mx(c): return min(abs(c.b['a'][0]), abs(c.b['a'][1]))
    return f

def judge(ty):
    p = pi_of(ty)
    def f(env, outcome, vals):
        a = raw_value(ty.inner, env['a'])
        if not isinstance(a, Fr): return False, ''
        req = f'a value in [-pi, pi) a whole number of turns away, unchanged if already there (pi = {float(p)}{" raw" if ty.kind == "fixed" else ""})'
        if outcome != 'ok': return True, req
        r = raw_value(ty.inner, vals['r'])
        if not isinstance(r, Fr): return True, req
        if not -p <= r < p: return True, req
        if -p <= a < p and r != a: return True, req
        k = round((r-a)/(2*p))
        return abs(r-a-2*p*k) > slop(ty, a, k), req
    return f

def harness(ty, K):
    i = ty.inner; o = ty.out
    if ty.kind == 'float': body = f'let k = core::{i}::consts::PI*{2*K}.0; if -k <= a && a <= k'
    else:
        w = 'i64' if ty.bits <= 32 else 'i128'
        body = f'let k = ({ty.rust}::PI.to_bits() as {w})*{2*K}; if -k <= (a as {w}) && (a as {w}) <= k'
    body += f' {{ o_g = 1; let r = trigonometry::wrap_phase({ty.inp("a")}); o_r = {o("r")}; }}'
    d = pi_of(ty)*2*K
    return H(f'wrap_{ty}', [('a', i)], [('r', i), ('g', 'u8')], body, None, desc=f'trigonometry::wrap_phase on {ty}',
             opts=dict(claim=claim(ty), judge=judge(ty), domain={'a': (-d, d)}, bisect=12, loop_bound=4*K+20))

def far(ty, k, neg):
    """the same claim for one turn's worth of angles k turns away"""
    i = ty.inner; o = ty.out; p = pi_of(ty); lo, hi = (2*k-1)*p, (2*k+1)*p
    if ty.kind == 'float': rng = f'let p = core::{i}::consts::PI; p*{2*k-1}.0 <= x && x <= p*{2*k+1}.0'; x = '-a' if neg else 'a'
    else:
        w = 'i64' if ty.bits <= 32 else 'i128'
        rng = f'let p = {ty.rust}::PI.to_bits() as {w}; p*{2*k-1} <= x && x <= p*{2*k+1}'; x = f'-(a as {w})' if neg else f'(a as {w})'
    body = f'let x = {x}; if {{ {rng} }} {{ o_g = 1; let r = trigonometry::wrap_phase({ty.inp("a")}); o_r = {o("r")}; }}'
    d = (Fr(lo)*Fr(999, 1000), Fr(hi)*Fr(1001, 1000)); top = relax.Ctx({'a': INTS[i] if i in INTS else (i, None)}).b['a']
    d = (-d[1], -d[0]) if neg else d
    return H(f'far_{ty}_{"m" if neg else ""}{k}', [('a', i)], [('r', i), ('g', 'u8')], body, None, desc=f'trigonometry::wrap_phase on {ty}, {"-" if neg else ""}{k} turns away',
             opts=dict(claim=claim(ty), judge=judge(ty), domain={'a': (max(d[0], top[0]), min(d[1], top[1]))}, bisect=12, loop_bound=2*k+40))

def main(cfg, t0):
    q = cfg['quick']; K = K_QUICK if q else K_THOROUGH
    fx = fixed_types(False)
    hs = [harness(t, K) for t in FLOATS + fx]
    KF = (100, 300, 1000, 3000) if q else (300, 1000, 3000, 10000)
    for t in FLOATS + tys('I16U3 I32U0 I32U16 I64U0 I64U32 I64U48'):
        for k in KF:
            if t.kind == 'float' or (2*k-1)*pi_of(t) < 1 << (t.bits-1): hs += [far(t, k, False), far(t, k, True)]
    ex = [H(f'method_{t}', [('a', t.inner)], [('r', t.inner)], f'let r = ({t.inp("a")}).mixed_wrap_phase(); o_r = {t.out("r")};',
            f'let r = trigonometry::wrap_phase({t.inp("a")}); o_r = {t.out("r")};', desc=f'{t}::mixed_wrap_phase is trigonometry::wrap_phase') for t in FLOATS + fx]
    return standard_err('C12', hs, cfg, t0, bounds=dict(types=[t.name for t in FLOATS + fx], inputs=f'every value of at most {K} turns either way (all values where the type ends earlier)',
        windows=f'one turn of angles around +-{KF} turns on f32, f64, I16U3, I32U0, I32U16, I64U0, I64U32, I64U48 (where representable)', unrolling=f'{4*K+20} loop iterations, 2k+40 in the windows', rounding='fixed point: exact; floats: (|x| + 4)(2k + 4) half ulps for k turns'),
        assumptions=[A_REL, A_DEV], exact=[(ex, (WRAP,))])
