from .common import *

def main(cfg, t0):
    q = cfg['quick']; hs = []
    trig = FLOATS + fixed_types(False)
    for t in trig + SINTS:
        n = t.name; i = t.inner
        P = lambda x, y: f'Polar::new({t.inp(x)}, {t.inp(y)})'
        C = lambda x, y: f'Cartesian::new({t.inp(x)}, {t.inp(y)})'
        ins = [('a', i), ('b', i)]; outs = [('p', i), ('q', i), ('xp', i), ('xq', i)]
        wc = f'o_p = {t.out("r.re")}; o_q = {t.out("r.im")}; '; wp = f'o_p = {t.out("r.mag")}; o_q = {t.out("r.ang")}; '
        xc = f'o_xp = {t.out("x.re")}; o_xq = {t.out("x.im")}; '; xp = f'o_xp = {t.out("x.mag")}; o_xq = {t.out("x.ang")}; '
        fin = f'o_p = {sout(t,"r")}; o_q = {sout(t,"s")}; o_xp = a; o_xq = b; if fl {{ ok = 0; }}'
        base = cargs(t, 'a', 'b') + FL
        S = base + 'let r = a_; let s = neg(b_,f); ' + fin
        hs.append(H(f'cc_{n}', ins, outs, f'let x = {C("a","b")}; let r: Cartesian<{t.rust}> = x.conj(); ' + wc + xc, S, desc=f'conjugate of Cartesian<{t}>'))
        S2 = base + 'let s0 = neg(b_,f); let r = a_; let s = b_; ' + fin
        hs.append(H(f'cc2_{n}', ins, outs, f'let x = {C("a","b")}; let y: Cartesian<{t.rust}> = x.conj(); let r: Cartesian<{t.rust}> = y.conj(); ' + wc + xc, S2, desc=f'double conjugate of Cartesian<{t}>'))
        if t.kind == 'int': continue
        hs.append(H(f'pp_{n}', ins, outs, f'let x = {P("a","b")}; let r: Polar<{t.rust}> = x.conj(); ' + wp + xp, S, desc=f'conjugate of Polar<{t}>'))
        hs.append(H(f'pp2_{n}', ins, outs, f'let x = {P("a","b")}; let y: Polar<{t.rust}> = x.conj(); let r: Polar<{t.rust}> = y.conj(); ' + wp + xp, S2, desc=f'double conjugate of Polar<{t}>'))
        S = base + 'let k = neg(b_,f); let r = add(mul(a_,a_,f),mul(k,k,f),f).mixed_sqrt(); let s = k.mixed_atan2(a_); ' + fin
        hs.append(H(f'cp_{n}', ins, outs, f'let x = {C("a","b")}; let r: Polar<{t.rust}> = x.conj(); ' + wp + xc, S, desc=f'polar conjugate of Cartesian<{t}>'))
        S = base + 'let k = neg(b_,f); let (si,co) = k.mixed_wrap_phase().mixed_sincos(); let r = mul(a_,co,f); let s = mul(a_,si,f); ' + fin
        hs.append(H(f'pc_{n}', ins, outs, f'let x = {P("a","b")}; let r: Cartesian<{t.rust}> = x.conj(); ' + wc + xp, S, desc=f'Cartesian conjugate of Polar<{t}>'))
    return standard('C05', hs, cfg, t0, cut=('libm', 'cordic', NIIRF, WRAP), bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in trig + SINTS]),
        assumptions=[A_ARITH, A_NAN, A_DEV, A_CUT('the square root, arctangent, wrap_phase and sine/cosine of the component type')], extra_src=SPEC)
