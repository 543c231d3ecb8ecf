from .common import *

def main(cfg, t0):
    q = cfg['quick']; hs = []
    trig = FLOATS + fixed_types(q)
    for t in trig:
        n = t.name; i = t.inner; R = t.rust
        P = f'let x = Polar::new({t.inp("a")}, {t.inp("b")}); '
        C = f'let x = Cartesian::new({t.inp("a")}, {t.inp("b")}); '
        ins = [('a', i), ('b', i)]; o2 = [('p', i), ('q', i)]; o1 = [('p', i)]
        wc = f'o_p = {t.out("r.re")}; o_q = {t.out("r.im")}; '; wp = f'o_p = {t.out("r.mag")}; o_q = {t.out("r.ang")}; '; w1 = f'o_p = {t.out("r")}; '
        base = cargs(t, 'a', 'b') + FL
        f1 = f'o_p = {sout(t,"r")}; if fl {{ ok = 0; }}'; f2 = f'o_p = {sout(t,"r")}; o_q = {sout(t,"s")}; if fl {{ ok = 0; }}'
        MAG = 'let r = add(mul(a_,a_,f),mul(b_,b_,f),f).mixed_sqrt(); '; ARG = 'b_.mixed_atan2(a_)'
        Z = f'<{R} as Sp>::zero_()'
        def h(nm, outs, body, spec, d): hs.append(H(f'{nm}_{n}', ins, outs, body, base + spec, desc=f'{d} on {t}'))
        h('mag', o1, C + 'let r = x.mag(); ' + w1, MAG + f1, 'Cartesian::mag')
        h('abs', o1, C + 'let r = Mag::abs(&x); ' + w1, MAG + f1, 'Cartesian::abs')
        h('absf', o1, C + 'let r = mixed_num::abs(x); ' + w1, MAG + f1, 'free function abs')
        h('mabs', o2, C + 'let r = x.mixed_abs(); ' + wc, MAG + f'let s = {Z}; ' + f2, 'Cartesian::mixed_abs')
        h('arg', o1, C + 'let r = x.arg(); ' + w1, f'let r = {ARG}; ' + f1, 'Cartesian::arg')
        h('ang', o1, C + 'let r = x.ang(); ' + w1, f'let r = {ARG}; ' + f1, 'Cartesian::ang')
        TP = MAG + f'let s = {ARG}; ' + f2
        h('topf', o2, C + 'let r = mixed_num::to_polar(x); ' + wp, TP, 'free function to_polar')
        h('top', o2, C + 'let r = x.to_polar(); ' + wp, TP, 'Cartesian::to_polar')
        h('pnfc', o2, f'let r: Polar<{R}> = Polar::new_from_cartesian({t.inp("a")}, {t.inp("b")}); ' + wp, TP, 'Polar::new_from_cartesian')
        TC = 'let (si,co) = b_.mixed_wrap_phase().mixed_sincos(); let r = mul(a_,co,f); let s = mul(a_,si,f); ' + f2
        h('tocf', o2, P + 'let r = mixed_num::to_cartesian(x); ' + wc, TC, 'free function to_cartesian')
        h('toc', o2, P + 'let r = x.to_cartesian(); ' + wc, TC, 'Polar::to_cartesian')
        h('cnfp', o2, f'let r: Cartesian<{R}> = Cartesian::new_from_polar({t.inp("a")}, {t.inp("b")}); ' + wc, TC, 'Cartesian::new_from_polar')
        ID = 'let r = a_; let s = b_; '
        h('cid', o2, C + 'let r = x.to_cartesian(); ' + wc, ID + f2, 'Cartesian::to_cartesian')
        h('pid', o2, P + 'let r = x.to_polar(); ' + wp, ID + f2, 'Polar::to_polar')
        h('cnfc', o2, f'let r: Cartesian<{R}> = Cartesian::new_from_cartesian({t.inp("a")}, {t.inp("b")}); ' + wc, ID + f2, 'Cartesian::new_from_cartesian')
        h('pnfp', o2, f'let r: Polar<{R}> = Polar::new_from_polar({t.inp("a")}, {t.inp("b")}); ' + wp, ID + f2, 'Polar::new_from_polar')
        h('pmag', o2, P + f'o_p = {t.out("x.mag()")}; o_q = {t.out("x.arg()")};', ID + f2, 'Polar::mag, arg')
        h('pabs', o2, P + f'o_p = {t.out("Mag::abs(&x)")}; o_q = {t.out("x.ang()")};', ID + f2, 'Polar::abs, ang')
        h('pmabs', o2, P + 'let r = x.mixed_abs(); ' + wp, f'let r = a_; let s = {Z}; ' + f2, 'Polar::mixed_abs')
    return standard('C06', hs, cfg, t0, cut=('libm', 'cordic', NIIRF, WRAP), bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in trig]),
        assumptions=[A_ARITH, A_NAN, A_DEV, A_CUT('the square root, arctangent, wrap_phase and sine/cosine of the component type')], extra_src=SPEC)
