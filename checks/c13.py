from .common import *
from fractions import Fraction as Fr
from engine import terms as T
from engine import relax
from engine.relax import U
from engine.err import *
import z3

SPECIAL = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1.0, -1.0, 2.0, -0.5, 4.0]
def normal(t, k):
    """magnitudes of the base for which no power up to |k| leaves the normal numbers"""
    m = max(1, abs(k)); e = 125 if t == 'f32' else 1021
    return Fr(2)**-(e//m), Fr(2)**(e//m)
def tolerance(t, k): return (2*abs(k)+2)*U[t]

def monomial(c_, t):
    """product and quotient trees of the input: (coefficient, degree, bound on the relative error)"""
    if t.op == 'const':
        q = float(T.b2f(t.sort, t.p))
        if q != q or q in (float('inf'), float('-inf')) or not q: raise relax.Unk('constant')
        return Fr(q), 0, Fr(0)
    if t.op == 'bitsf' and t.args[0].op == 'var': return Fr(1), 1, Fr(0)
    if t.op == 'ite': return monomial(c_, t.args[1] if c_.need(t.args[0]) else t.args[2])
    if t.op == 'fneg': c, d, e = monomial(c_, t.args[0]); return -c, d, e
    if t.op in ('fmul', 'fdiv'):
        (c, d, e), (c2, d2, e2) = monomial(c_, t.args[0]), monomial(c_, t.args[1])
        if t.op == 'fdiv': c2, d2, e2 = 1/c2, -d2, e2/(1-e2)
        c, d = c*c2, d+d2; one = (c2, d2) == (1, 0) and not e2
        return c, d, e if one and not e2 else (1+e)*(1+e2)*(1+U[t.sort])-1
    raise relax.Unk(t.op)

def power_claim(t, k):
    def f(c, outs):
        co, d, e = monomial(c, outs['r'])
        lo, hi = normal(t, k)
        def q(c):
            # result = co * a^d * (1 + rho), |rho| <= e: can it be further than the tolerance from a^k ?
            # divided by a^k (a is not zero); z = a^(d-k)
            z, rho = z3.Real('z'), z3.Real('rho'); sol = z3.Solver()
            e_ = z3.RealVal(relax.rup(e)); sol.add(rho <= e_, rho >= -e_)
            if d == k: sol.add(z == 1)
            r = z3.RealVal(co)*z*(1+rho); tl = z3.RealVal(tolerance(t, k))
            a = c.ask(sol, [z3.Or(r-1 > tl, r-1 < -tl)], 20)
            return a, {'a': (c.b['a'][0]+c.b['a'][1])/2} if a == 'sat' else None
        return [('power', q)]
    return f

def power_judge(t, k):
    def f(env, outcome, vals):
        x = raw_value(t, env['a'])
        if not isinstance(x, Fr) or not x: return False, ''
        lo, hi = normal(t, k)
        if not lo <= abs(x) <= hi: return False, ''
        v = x**k; req = f'{float(v)!r} within {2*abs(k)+2} half ulps'
        if outcome != 'ok': return True, req
        r = raw_value(t, vals['r'])
        if not isinstance(r, Fr): return True, req
        return abs(r-v) > abs(v)*tolerance(t, k), req
    return f

def units(t, k):
    """large exponents: the bases whose powers stay small are cases of their own"""
    if abs(k) < 16 or t.kind == 'float': return {}
    one = 1 << (t.frac or 0) if t.kind == 'fixed' else 1; w = t.bits
    def f(vs):
        a = vs['a']; cs = [T.bv(w, x & T.mask(w)) for x in ([0, one, -one] if t.signed else [0, one])]
        return [([(a, c)], []) for c in cs] + [([], [T.not_(T.eq(a, c)) for c in cs])]
    return dict(split=f, split_after=True)

def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = tys('I8U0 I8U3 U8U5 I16U8 U16U0 I16U13 I32U0 I32U16 U32U22 I32U28 I64U32 U64U0 I64U61') if q else fixed_types(False, True, True)
    exps = list(range(-4, 9)) if q else list(range(-8, 17))
    far = [16, 33, 64, 100, 200, 257, -16, -33, -257]; fart = ('i8', 'i32', 'u64', 'f32', 'f64'); farx = [16, 33, -16]; farxt = ('I8U3', 'U16U0', 'U64U0')
    for t in SINTS + UINTS + fx:
        n, i, R = t.name, t.inner, t.rust
        for k in sorted({*exps, *(far if n in fart else farx if n in farxt else [])}):
            if k == 0: pw = f'let r = <{R} as Sp>::one_(f); '
            else:
                pw = 'let g = a_; ' if k > 0 else f'let w = <{R} as Sp>::one_(f); let g = div(w,a_,f); '
                pw += 'let r = g; ' + ''.join('let r = mul(r,g,f); ' for _ in range(abs(k)-1))
            S = cargs(t, 'a') + FL + pw + f'o_r = {sout(t,"r")}; if fl {{ ok = 0; }}'
            kn = f'm{-k}' if k < 0 else str(k)
            hs.append(H(f'powi_{kn}_{n}', [('a', i)], [('r', i)], f'let r = {t.inp("a")}.mixed_powi({k}); o_r = {t.out("r")};', S, desc=f'{t}::mixed_powi({k})', opts=dict(may_be_vacuous=True, **units(t, k))))
            if k >= 0:
                hs.append(H(f'powf_{kn}_{n}', [('a', i)], [('r', i)], f'let r = trigonometry::powi({t.inp("a")}, {k}); o_r = {t.out("r")};', S, desc=f'trigonometry::powi({k}) on {t}', opts=dict(may_be_vacuous=True, **units(t, k))))
    fl = []
    for t in FLOATS:
        n, i = t.name, t.inner
        for k in sorted({*exps, *far}):
            kn = f'm{-k}' if k < 0 else str(k)
            calls = [('powi', f'a.mixed_powi({k})')] + ([('powf', f'trigonometry::powi(a, {k})')] if k >= 0 else [])
            for nm, call in calls:
                lo, hi = normal(n, k)
                fl.append(H(f'{nm}_{kn}_{n}', [('a', i)], [('r', i), ('g', 'u8')], f'let w = a.abs(); if {i}::from_bits({T.f2b(n, float(lo))}) <= w && w <= {i}::from_bits({T.f2b(n, float(hi))}) {{ o_g = 1; let r = {call}; o_r = r; }}', None,
                    desc=f'{"mixed_powi" if nm == "powi" else "trigonometry::powi"}({k}) on {t}', opts=dict(claim=power_claim(n, k), judge=power_judge(n, k), domain={'a': (-hi, hi)}, bisect=0)))
                outs = [(f'r{j}', i) for j in range(len(SPECIAL))]; hb = sb = ''
                for j, c in enumerate(SPECIAL):
                    x = f'{i}::from_bits({T.f2b(n, c)})'
                    hb += f'{{ let a: {i} = {x}; let r = {call}; o_r{j} = r; }} '
                    m = '1.0' if k == 0 else '*'.join(['x']*abs(k))
                    sb += f'{{ let x: {i} = {x}; o_r{j} = {m if k >= 0 else f"1.0/({m})"}; }} '
                hs.append(H(f'{nm}_special_{kn}_{n}', [('a', 'u8')], outs, hb, sb, desc=f'{"mixed_powi" if nm == "powi" else "trigonometry::powi"}({k}) on {t}: zeros, infinities, NaN and powers of two'))
    return standard_err('C13', fl, cfg, t0, exact=[(hs, ())], bounds=dict(inputs=BOUNDS_FULL, exponents=exps, exponents_on_some_types=[far, list(fart), farx, list(farxt)], types=[t.name for t in SINTS + UINTS + FLOATS + fx], floats='every base for which no power up to |n| leaves the normal numbers, and zeros, infinities, NaN, +-1, 2, -0.5, 4; result within (2|n| + 2) half ulps'),
        assumptions=[A_ARITH, 'floats: each product or quotient has a relative error of at most half an ulp (normal range)', A_NAN, A_DEV], extra_src=SPEC)
