from .common import *

def main(cfg, t0):
    q = cfg['quick']
    trig = FLOATS + fixed_types(q)
    hs = []
    for t in trig + tys('i8 i16 i32 i64 i128 isize'):
        n = t.name; i = t.inner
        P = lambda x, y: f'Polar::new({t.inp(x)}, {t.inp(y)})'
        C = lambda x, y: f'Cartesian::new({t.inp(x)}, {t.inp(y)})'
        ins = [('a', i), ('b', i), ('c', i), ('d', i)]; outs = [('mag', i), ('ang', i)]
        w = f'o_mag = {t.out("r.mag")}; o_ang = {t.out("r.ang")}; '
        pp = f'let x = {P("a","b")}; let y = {P("c","d")}; '
        fin = f'o_mag = {sout(t,"r")}; o_ang = {sout(t,"s")}; if fl {{ ok = 0; }}'
        Z = f'<{t.rust} as Sp>::zero_()'
        S = cargs(t, 'a', 'b', 'c', 'd') + FL + f'let mut r = {Z}; let mut s = {Z}; if !a_.is0() && !c_.is0() {{ r = mul(a_,c_,f); s = add(b_,d_,f); }} ' + fin
        hs.append(H(f'pp_{n}', ins, outs, pp + 'let r = x * y; ' + w, S, desc=f'Polar<{t}> * Polar'))
        hs.append(H(f'ppf_{n}', ins, outs, pp + 'let r = mixed_num::mul_polar(x, y); ' + w, S, desc=f'mul_polar on {t}'))
        i3 = [('a', i), ('b', i), ('s', i)]
        S = cargs(t, 'a', 'b', 's') + FL + 'let r = mul(a_,s_,f); let s = b_; ' + fin
        hs.append(H(f'ps_{n}', i3, outs, f'let x = {P("a","b")}; let r = x * {t.inp("s")}; ' + w, S, desc=f'Polar<{t}> * scalar'))
        S = cargs(t, 'a', 'b', 's') + FL + f'let r; if s_.is0() {{ r = <{t.rust} as Sp>::max_(); }} else {{ r = div(a_,s_,f); }} let s = b_; ' + fin
        hs.append(H(f'pd_{n}', i3, outs, f'let x = {P("a","b")}; let r = x / {t.inp("s")}; ' + w, S, desc=f'Polar<{t}> / scalar'))
        if t.kind == 'int': continue
        pol = 'let sq = add(mul(c_,c_,f),mul(d_,d_,f),f); let m = sq.mixed_sqrt(); let g = d_.mixed_atan2(c_); '
        S = cargs(t, 'a', 'b', 'c', 'd') + FL + pol + f'let mut r = {Z}; let mut s = {Z}; if !a_.is0() && !m.is0() {{ r = mul(a_,m,f); s = add(b_,g,f); }} ' + fin
        hs.append(H(f'pc_{n}', ins, outs, f'let x = {P("a","b")}; let y = {C("c","d")}; let r = x * y; ' + w, S, desc=f'Polar<{t}> * Cartesian'))
        outc = [('re', i), ('im', i), ('xm', i), ('xa', i)]
        wc = f'o_re = {t.out("r.re")}; o_im = {t.out("r.im")}; o_xm = {t.out("y.mag")}; o_xa = {t.out("y.ang")}; '
        S = cargs(t, 'a', 'b', 'c', 'd') + FL + ('let (si,co) = d_.mixed_wrap_phase().mixed_sincos(); let u = mul(c_,co,f); let v = mul(c_,si,f); '
            'let r = sub(mul(a_,u,f),mul(b_,v,f),f); let s = add(mul(a_,v,f),mul(b_,u,f),f); ') + f'o_re = {sout(t,"r")}; o_im = {sout(t,"s")}; o_xm = c; o_xa = d; if fl {{ ok = 0; }}'
        pc = f'let mut x = {C("a","b")}; let mut y = {P("c","d")}; '
        for nm, e in (('v', 'y'), ('r', '&y'), ('m', '&mut y')):
            hs.append(H(f'cp{nm}_{n}', ins, outc, pc + f'let r = x * {e}; ' + wc, S, desc=f'Cartesian<{t}> * {e.replace("y","Polar")}'))
            hs.append(H(f'cpa{nm}_{n}', ins, outc, pc + f'x *= {e}; let r = x; ' + wc, S, desc=f'Cartesian<{t}> *= {e.replace("y","Polar")}'))
    return standard('C04', hs, cfg, t0, cut=('libm', 'cordic', NIIRF, WRAP), bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in trig]),
        assumptions=[A_ARITH, A_NAN, A_DEV, A_CUT('the square root, arctangent, wrap_phase and sine/cosine of the component type')], extra_src=SPEC)
