from .common import *
from engine.err import *
from engine import relax, err
import z3, mpmath

TOL = Fr(5, 1000)
KU = 4
PIECES = 16
def tol(ty): return TOL + (Fr(KU, 1 << ty.frac) if ty.kind == 'fixed' else Fr(1, 1 << 20 if ty.bits == 32 else 1 << 40))

def iv(x):
    """rational interval around an mpmath value"""
    q = mpq(x); return q-Fr(1, 1 << 150), q+Fr(1, 1 << 150)
_pieces = None
def pieces():
    """[(lo, hi, centre, c0 low, c0 high, c1, c2, remainder)]: atan(t) = c0 + c1 d + c2 d^2 + r on t in [lo, hi], d = t - centre, |r| <= remainder"""
    global _pieces
    if _pieces is None:
        mpmath.mp.prec = 300; _pieces = []
        h = Fr(1, 2*PIECES)
        for k in range(PIECES):
            m = Fr(2*k+1, 2*PIECES); l, u = iv(mpmath.atan(mpmath.mpf(m.numerator)/m.denominator))
            # |atan'''| <= 2 everywhere
            _pieces.append((m-h, m+h, m, l, u, 1/(1+m*m), -m/(1+m*m)**2, 2*h**3/6))
    return _pieces
def pi_iv():
    mpmath.mp.prec = 300; return iv(+mpmath.pi)

def claim(ty):
    w = fbits_of(ty.inner)
    def f(c, outs):
        r = outs['r']
        sg = []
        for k in 'ab':
            l, h = c.b[k]; sg.append(1 if l > 0 else -1 if h < 0 else 0 if l == h == 0 else None)
        assert None not in sg
        sa, sb = sg
        if sa == 0 or sb == 0:
            want = outs['z'] if sa == 0 and sb >= 0 else outs['pi'] if sa == 0 else outs['ph'] if sa > 0 else outs['nh']
            def q(c):
                if T.eq(r, want) is T.TRUE: solve.STATS.queries += 1; solve.STATS.unsat += 1; return 'unsat', None
                a, env, _ = solve.check(list(c.pc)+[T.not_(T.eq(r, want))], timeout=10)
                return a, None
            return [('axis', q)]
        n, u = out_node(c, r, ty)
        na, nb = Nd('a', c), Nd('b', c)
        def region(which):
            def q(c):
                # feasible at all?
                sol, env = c.solver(['a', 'b'])
                A, Bz = sa*env['a'], sb*env['b']
                if c.ask(sol, [A <= Bz if which == 'A' else A >= Bz], 10) == 'unsat': return 'unsat', None
                num, den = (na, nb) if which == 'A' else (nb, na)
                p, lo, hi, e = c.quotient(num, den)
                tv = relax.pvars(p)
                st = 1 if sa*sb > 0 else -1
                pl, ph = pi_iv()
                worst = 'unsat'; pt = None
                def attempt(stop):
                    nonlocal pt
                    s2, env = c.solver(list(relax.pvars(n.p) | tv) + ([] if stop else ['a', 'b']), {}, stop=tv if stop else None)
                    t = relax.pz3(p, env)*st; at = z3.Real('at'); P = z3.Real('pi')
                    s2.add(P >= z3.RealVal(pl), P <= z3.RealVal(ph), t >= 0, t <= 1)
                    if not stop: s2.add(sa*env['a'] <= sb*env['b'] if which == 'A' else sa*env['a'] >= sb*env['b'])
                    y = real_out(c, s2, env, r, ty)
                    th = st*at + (sa*P if sb < 0 else 0) if which == 'A' else sa*P/2-st*at
                    tl = z3.RealVal(tol(ty))
                    for l, h, m, c0l, c0h, c1, c2, rem in pieces():
                        d = t-z3.RealVal(m); b = z3.RealVal(c1)*d+z3.RealVal(c2)*d*d
                        a = c.ask(s2, [t >= z3.RealVal(l), t <= z3.RealVal(h), at >= z3.RealVal(c0l-rem)+b, at <= z3.RealVal(c0h+rem)+b, z3.Or(y-th > tl, th-y > tl)], 10)
                        if a == 'unsat': continue
                        if a == 'sat' and not stop: pt = {k: zfrac(c.model, env[k]) for k in 'ab'}
                        return a
                    return 'unsat'
                a = attempt(True)
                if a != 'unsat': a = attempt(False)
                return a, pt
            return q
        return [('|y|<=|x|', region('A')), ('|y|>=|x|', region('B'))]
    return f
def Nd(v, c): lo, hi = c.b[v]; return relax.Node(relax.pvar(v), lo, hi)

def judge(ty):
    def f(env, outcome, vals):
        mpmath.mp.prec = 300
        a, b = raw_value(ty.inner, env['a']), raw_value(ty.inner, env['b'])
        if not isinstance(a, Fr) or not isinstance(b, Fr): return False, ''
        mx = lambda q: mpmath.mpf(q.numerator)/q.denominator
        th = mpmath.atan2(mx(a), mx(b)); req = f'atan2 = {mpmath.nstr(th, 20)}'
        if outcome != 'ok': return True, req
        if a == 0 or b == 0:
            k = 'z' if a == 0 and b >= 0 else 'pi' if a == 0 else 'ph' if a > 0 else 'nh'
            return raw_value(ty.inner, vals['r']) != raw_value(ty.inner, vals[k]), req
        r = raw_value(ty.inner, vals['r'])
        if not isinstance(r, Fr): return True, req
        if ty.kind == 'fixed': r = r/(1 << ty.frac)
        return bool(abs(mx(r)-th) > mx(tol(ty))), req
    return f

def harness(ty):
    i = ty.inner; y, x = ty.inp('a'), ty.inp('b'); o = ty.out; R = ty.rust
    # the axis values, in the type's own arithmetic
    pi = 'core::f32::consts::PI' if ty.name == 'f32' else 'core::f64::consts::PI' if ty.name == 'f64' else f'{R}::PI'
    two = '2.0' if ty.kind == 'float' else f'{R}::from_num(2)'
    ax = f'let p = {pi}; o_pi = {o("p")}; let h = p/({two}); o_ph = {o("h")}; let m = -h; o_nh = {o("m")}; '
    call = f'o_g = 1; let r = trigonometry::atan::atan2({y}, {x}); o_r = {o("r")};'
    if ty.kind == 'float': body = ax + f'if a.is_finite() && b.is_finite() && !(a == 0.0 && b.to_bits() == (-0.0{i}).to_bits()) {{ {call} }}'
    else: body = ax + f'if a != {i}::MIN && b != {i}::MIN {{ {call} }}'
    return H(f'atan2_{ty.name}', [('a', i), ('b', i)], [('r', i), ('z', i), ('pi', i), ('ph', i), ('nh', i), ('g', 'u8')], body, None, desc=f'atan::atan2 on {ty}', opts=dict(claim=claim(ty), judge=judge(ty), bisect=4))

def main(cfg, t0):
    q = cfg['quick']
    fx = tys('I8U0 I8U1 I8U2 I8U3 I8U4 I8U5 I16U0 I16U5 I16U8 I16U11 I16U13 I32U0 I32U8 I32U16 I32U22 I32U28 I32U29 I64U0 I64U16 I64U32 I64U48 I64U61') if q else fixed_types(False)
    hs = [harness(t) for t in FLOATS + fx]
    ex = []
    for t in FLOATS + fx:
        i = t.inner; x = t.inp('a'); R = t.rust
        one = '1.0' if t.kind == 'float' else f'{R}::from_num(1)'
        ex.append(H(f'atan_{t}', [('a', i)], [('r', i)], f'let r = trigonometry::atan::atan({x}); o_r = {t.out("r")};', f'let r = trigonometry::atan::atan2({x}, {one}); o_r = {t.out("r")};', desc=f'atan::atan on {t} is atan2(x, 1)'))
        y = t.inp('b')
        ex.append(H(f'poly_{t}', [('a', i), ('b', i)], [('r', i)], f'let r = ({x}).mixed_atan2_poly({y}); o_r = {t.out("r")};', f'let r = trigonometry::atan::atan2({x}, {y}); o_r = {t.out("r")};', desc=f'{t}::mixed_atan2_poly is atan::atan2'))
    return standard_err('C15', hs, cfg, t0, bounds=dict(types=[t.name for t in FLOATS + fx], fixed='every pair of bit patterns except signed minima', floats='every pair of finite values except y = 0 with x = -0.0',
        tolerance=f'0.005 rad + {KU} ulp', arctangent=f'{PIECES} quadratic Taylor pieces with rigorous remainder'),
        assumptions=[A_REL, A_DEV, 'one-argument form: atan2 is an uninterpreted function of its arguments', A_NAN], exact=[(ex, ('libm', 'cordic', 'mixed_num::trigonometry::atan::atan2'))])
