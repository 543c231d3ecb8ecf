from .common import *
from engine.err import *
from engine import relax, err
import z3, mpmath
from math import factorial

TOL = Fr(5, 1000000)
KU = 16
def tol(ty, cosine): return TOL + (Fr(KU, 1 << ty.frac) if ty.kind == 'fixed' else Fr(4 if cosine else 1, 1 << (20 if ty.bits == 32 else 44)))
DEG = 13
_pi = []
def PI():
    if not _pi: mpmath.mp.prec = 300; _pi.append(mpq(+mpmath.pi))
    return _pi[0]
PIE = Fr(1, 1 << 150)

def binomial_shift(p, c):
    """coefficients of p(c + t) in t; p: list of rationals"""
    p = list(p); n = len(p)
    for i in range(n):
        for j in range(n-2, i-1, -1): p[j] += c*p[j+1]
    return p
def short(x, bits=64): return relax.rdn(x, bits)

def claim(ty, cosine):
    """|computed - sin(a + phi)| <= tol on the path, piece by piece: on a piece of centre m the difference of the computed polynomial
    and the Taylor polynomial of the sine is expanded about m, its terms of degree > 3 go into the error, and the solver is asked for
    a t that exceeds what is left of the tolerance"""
    def f(c, outs):
        r = outs['r']
        n, u = out_node(c, r, ty)
        F = 1 if ty.kind == 'float' else 1 << ty.frac
        lo, hi = c.b['a']
        if relax.pvars(n.p)-{'a'}: raise relax.Unk('more than one variable')
        P = [Fr(0)]*(max([e for m in n.p for _, e in m] or [0])+1)
        for m, k in n.p.items(): P[m[0][1] if m else 0] += k*u
        P = [k*Fr(F)**i for i, k in enumerate(P)]           # in units of the value of a
        W = PI()*(3 if cosine else 1); xlo, xhi = max(lo/F, -W), min(hi/F, W)
        if xlo > xhi: return []
        phi = PI()/2 if cosine else Fr(0)
        N = max(1, ceil((xhi-xlo)*8))
        def piece(l, h):
            def q(c):
                work = [(l, h, 6)]
                while work:
                    x0, x1, d = work.pop()
                    m = short((x0+x1)/2); w = relax.rup((x1-x0)/2+Fr(1, 1 << 60))
                    k = floor((m+phi)/PI()+Fr(1, 2)); sg = (-1)**(k % 2)
                    o = short(m+phi-k*PI(), 200); H = abs(o)+w    # sine = sg*sin(o + t), |o + t| <= H
                    rem = H**(DEG+2)/factorial(DEG+2)+(abs(k)+2)*PIE
                    S = [Fr(0)]*(DEG+1)
                    for j in range(1, DEG+1, 2): S[j] = Fr(sg*(-1)**(j//2), factorial(j))
                    S = binomial_shift(S, o); D = binomial_shift(P, m)
                    D = [(D[j] if j < len(D) else 0)-(S[j] if j < len(S) else 0) for j in range(max(len(D), len(S)))]
                    e = relax.rup(sum((abs(x)*w**j for j, x in enumerate(D) if j > 3), Fr(0))+rem+n.err*u)
                    lowd = []
                    for j in range(min(4, len(D))):
                        v = short(D[j]); e += abs(v-D[j])*w**j; lowd.append(v)
                    e = relax.rup(e)
                    t = z3.Real('t'); sol = z3.SolverFor('QF_NRA')
                    sol.add(t >= z3.RealVal(-w), t <= z3.RealVal(w))
                    p = z3.RealVal(0)
                    for v in reversed(lowd): p = p*t+z3.RealVal(v)
                    b = z3.RealVal(tol(ty, cosine)-e)
                    a = c.ask(sol, [z3.Or(p > b, p < -b)], 20)
                    if a == 'unsat': continue
                    if d and e*2 > tol(ty, cosine) and sum((abs(x)*w**j for j, x in enumerate(D) if j > 3), Fr(0))*4 > tol(ty, cosine):
                        work += [(x0, (x0+x1)/2, d-1), ((x0+x1)/2, x1, d-1)]; continue
                    return a, {'a': F*(m+zfrac(c.model, t))} if a == 'sat' else None
                return 'unsat', None
            return q
        W = (xhi-xlo)/N
        return [('accuracy', piece(xlo+i*W, xlo+(i+1)*W)) for i in range(N)]
    return f

def judge(ty, cosine):
    def f(env, outcome, vals):
        mpmath.mp.prec = 300
        a = raw_value(ty.inner, env['a'])
        if not isinstance(a, Fr): return False, ''
        if ty.kind == 'fixed': a = a/(1 << ty.frac)
        mx = lambda q: mpmath.mpf(q.numerator)/q.denominator
        t = (mpmath.cos if cosine else mpmath.sin)(mx(a)); req = f'{"cos" if cosine else "sin"} = {mpmath.nstr(t, 20)}'
        if outcome != 'ok': return True, req
        r = raw_value(ty.inner, vals['r'])
        if not isinstance(r, Fr): return True, req
        if ty.kind == 'fixed': r = r/(1 << ty.frac)
        return bool(abs(mx(r)-t) > mx(tol(ty, cosine))), req
    return f

def harness(ty, cosine):
    i = ty.inner; x = ty.inp('a'); o = ty.out; R = ty.rust; nm = 'cos' if cosine else 'sin'
    pi = 'core::f32::consts::PI' if ty.name == 'f32' else 'core::f64::consts::PI' if ty.name == 'f64' else f'{R}::PI'
    body = f'let x = {x}; let p = {pi}; if {"-p-p-p <= x && x <= p+p+p" if cosine else "-p <= x && x <= p"} {{ o_g = 1; let r = trigonometry::{nm}(x); o_r = {o("r")}; }}'
    F = 1 if ty.kind == 'float' else 1 << ty.frac; W = 3 if cosine else 1
    return H(f'{nm}_{ty.name}', [('a', i)], [('r', i), ('g', 'u8')], body, None, desc=f'trigonometry::{nm} on {ty}',
             opts=dict(claim=claim(ty, cosine), judge=judge(ty, cosine), domain={'a': (-PI()*F*W, PI()*F*W)}, bisect=10))

def main(cfg, t0):
    q = cfg['quick']
    fx = [t for t in fixed_types(False) if t.bits-1-t.frac >= 19]
    hs = [harness(t, c) for t in FLOATS + fx for c in (False, True)]
    return standard_err('C16', hs, cfg, t0, bounds=dict(types=[t.name for t in FLOATS + fx], inputs='sine: every value in [-pi, pi] of the type; cosine: in [-3 pi, 3 pi]',
        tolerance=f'5e-6 + {KU} ulp (fixed), + 2^-20 (f32), + 2^-44 (f64), four times that for the cosine', excluded='fixed types whose integer part cannot hold 362880'),
        assumptions=[A_REL, A_DEV])
