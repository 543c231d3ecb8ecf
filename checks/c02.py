from .common import *

def main(cfg, t0):
    T_ = FLOATS + SINTS + fixed_types(cfg['quick'])
    hs = []
    for t in T_:
        n = t.name; i = t.inner
        C = lambda x, y: f'Cartesian::new({t.inp(x)}, {t.inp(y)})'
        Z = lambda x, y: f'Complex::new({t.inp(x)}, {t.inp(y)})'
        ins = [('a', i), ('b', i), ('c', i), ('d', i)]
        outs = [('re', i), ('im', i), ('xre', i), ('xim', i)]
        w = f'o_re = {t.out("r.re")}; o_im = {t.out("r.im")}; o_xre = {t.out("y.re")}; o_xim = {t.out("y.im")}; '
        pre = f'let mut x = {C("a","b")}; let mut y = {C("c","d")}; '
        prez = f'let mut x = {C("a","b")}; let mut y = {Z("c","d")}; '
        S = cargs(t, 'a', 'b', 'c', 'd') + FL + (
            'let den = add(mul(c_,c_,f),mul(d_,d_,f),f); let r = div(add(mul(a_,c_,f),mul(b_,d_,f),f),den,f); let s = div(sub(mul(b_,c_,f),mul(a_,d_,f),f),den,f);'
            f'o_re = {sout(t,"r")}; o_im = {sout(t,"s")}; o_xre = c; o_xim = d; if fl {{ ok = 0; }}')
        for nm, p, e, d in (('vv', pre, 'let r = x / y; ', 'by value'), ('vr', pre, 'let r = x / &y; ', 'by reference'), ('vm', pre, 'let r = x / &mut y; ', 'by mutable reference'),
                            ('ai', pre, 'x /= y; let r = x; ', 'in place'), ('ar', pre, 'x /= &y; let r = x; ', 'in place by reference'), ('am', pre, 'x /= &mut y; let r = x; ', 'in place by mutable reference'),
                            ('zv', prez, 'let r = x / y; ', 'num::Complex'), ('zr', prez, 'let r = x / &y; ', '&num::Complex'), ('zm', prez, 'let r = x / &mut y; ', '&mut num::Complex'),
                            ('za', prez, 'x /= y; let r = x; ', 'in place num::Complex'), ('zar', prez, 'x /= &y; let r = x; ', 'in place &num::Complex'), ('zam', prez, 'x /= &mut y; let r = x; ', 'in place &mut num::Complex'),
                            ('fn', pre, 'let r = mixed_num::div_cartesian(x, y); ', 'free function div_cartesian')):
            hs.append(H(f'div_{nm}_{n}', ins, outs, p + e + w, S, desc=f'complex division {d} on Cartesian<{t.rust}>'))
    return standard('C02', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in T_], forms=13), assumptions=[A_ARITH, A_NAN, A_DEV], extra_src=SPEC)
