from .common import *
def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = fixed_types(q); P = range(5) if q else range(9)
    for t in FLOATS + fx:
        n, i, R = t.name, t.inner, t.rust
        ins = [('a', i), ('b', i)]; outs = [('p', i), ('q', i)]
        C = f'let x = Cartesian::new({t.inp("a")}, {t.inp("b")}); '; wc = f'o_p = {t.out("r.re")}; o_q = {t.out("r.im")}; '
        base = cargs(t, 'a', 'b') + FL; fin = f'o_p = {sout(t,"r")}; o_q = {sout(t,"s")}; if fl {{ ok = 0; }}'
        hs.append(H(f'exp_{n}', ins, outs, C + 'let r = x.mixed_exp(); ' + wc, base + 'let (si,co) = b_.mixed_sincos(); let e = a_.mixed_exp(); let r = mul(co,e,f); let s = mul(si,e,f); ' + fin, desc=f'exp of Cartesian<{t}>'))
        if t.kind != 'fixed': continue
        for k in P:
            # r^k: the left-to-right product; the angle is scaled by k converted to the type
            pw = 'let m = one_of; ' if k == 0 else 'let m = g; ' + ''.join('let m = mul(m,g,f); ' for _ in range(k-1))
            pw = pw.replace('one_of', f'<{R} as Sp>::one_(f)')
            kk = f'let (n_, c) = {R}::overflowing_from_num({k}usize); *f |= c; '
            hs.append(H(f'pow{k}_{n}', ins, outs, C + f'let r = mixed_num::powi(x, {k}); ' + wc,
                base + 'let g = add(mul(a_,a_,f),mul(b_,b_,f),f).mixed_sqrt(); ' + pw + kk + 'let phi = mul(b_.mixed_atan2(a_), n_, f); let (si,co) = phi.mixed_sincos(); let r = mul(m,co,f); let s = mul(m,si,f); ' + fin, desc=f'complex powi {k} on {t}', opts=dict(may_be_vacuous=True)))   # k itself may not be representable
    # any power: the real power and the conversion of the power are the component type's own
    sy = []
    for t in fx:
        n, i, R = t.name, t.inner, t.rust
        sy.append(H(f'pown_{n}', [('a', i), ('b', i), ('n', 'usize')], [('p', i), ('q', i)], f'let x = Cartesian::new({t.inp("a")}, {t.inp("b")}); let r = if n <= i32::MAX as usize {{ mixed_num::powi(x, n) }} else {{ x }}; o_p = {t.out("r.re")}; o_q = {t.out("r.im")};',
            cargs(t, 'a', 'b') + FL + f'if n > i32::MAX as usize {{ ok = 2; }} else {{ let g = add(a_.mixed_powi(2), b_.mixed_powi(2), f).mixed_sqrt(); let m = g.mixed_powi(n as i32); let (n_, c) = {R}::overflowing_from_num(n); *f |= c; let phi = mul(b_.mixed_atan2(a_), n_, f); let (si,co) = phi.mixed_sincos(); let r = mul(m,co,f); let s = mul(m,si,f); o_p = {sout(t,"r")}; o_q = {sout(t,"s")}; if fl {{ ok = 0; }} }}',
            desc=f'complex powi with any power up to i32::MAX on {t}', opts=dict(rand=dict(n=(0, 300)))))
    return standard('C20', hs, cfg, t0, cut=('libm', 'cordic', NIIRF, WRAP), bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in FLOATS + fx], powers='0..%d with the real power expanded; every power up to 2^31-1 with the real power uninterpreted' % (len(P)-1)),
        assumptions=[A_ARITH, A_NAN, A_DEV, A_CUT('the square root, arctangent, exponential and sine/cosine of the component type')], extra_src=SPEC, more=[(sy, ('libm', 'cordic', NIIRF, WRAP, 'mixed_num::trigonometry::powi'))])
