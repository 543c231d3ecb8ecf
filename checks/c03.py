from .common import *

def main(cfg, t0):
    q = cfg['quick']
    comps = FLOATS + (tys('i8 i32 i64 u16 u32 isize') if q else SINTS + UINTS) + (tys('I8U3 I16U8 I32U16 I32U28 I64U32 U16U8') if q else fixed_types(True, True, True))
    hs = []
    for t in comps:
        n = t.name; i = t.inner
        if t.kind != 'fixed' and not t.signed and t.kind == 'int': pass
        for sc in PRIMS:
            ssig = sc in ('f32', 'f64') or INTS[sc][1]
            if q and t.kind == 'int' and sc in ('u16', 'i16', 'isize', 'u128'): continue
            ins = [('a', i), ('b', i), ('s', sc)]; outs = [('re', i), ('im', i)]
            pre = f'let mut x = Cartesian::new({t.inp("a")}, {t.inp("b")}); '
            w = f'o_re = {t.out("r.re")}; o_im = {t.out("r.im")}; '
            c0 = cargs(t, 'a', 'b') + FL + convs(sc, t)
            fin = f'o_re = {sout(t,"r")}; o_im = {sout(t,"i2")}; if fl {{ ok = 0; }}'
            for op, sy in (('add', '+'), ('sub', '-')):
                S = c0 + f'let r = {op}(a_,k_,f); let i2 = b_; ' + fin
                hs.append(H(f'{op}_{n}_{sc}', ins, outs, pre + f'let r = x {sy} s; ' + w, S, desc=f'Cartesian<{t}> {sy} {sc}'))
                hs.append(H(f'{op}a_{n}_{sc}', ins, outs, pre + f'x {sy}= s; let r = x; ' + w, S, desc=f'Cartesian<{t}> {sy}= {sc}'))
            S = c0 + 'let r = mul(a_,k_,f); let i2 = mul(b_,k_,f); ' + fin
            hs.append(H(f'mul_{n}_{sc}', ins, outs, pre + 'let r = x * s; ' + w, S, desc=f'Cartesian<{t}> * {sc}'))
            if ssig:
                zero = 's == 0.0' if sc[0] == 'f' else 's == 0'
                # a nonzero scalar whose conversion is zero is left unspecified for types that cannot divide by zero
                S = cargs(t, 'a', 'b') + FL + f'if {zero} {{ let m = <{t.rust} as Sp>::max_(); o_re = {sout(t,"m")}; o_im = {sout(t,"m")}; }} else {{ {convs(sc, t)} let r = div(a_,k_,f); let i2 = div(b_,k_,f); {fin} ' + \
                    ('' if t.kind == 'float' else 'if k_.is0() { ok = 2; } ') + '}'
                hs.append(H(f'div_{n}_{sc}', ins, outs, pre + 'let r = x / s; ' + w, S, desc=f'Cartesian<{t}> / {sc}'))
                hs.append(H(f'diva_{n}_{sc}', ins, outs, pre + 'x /= s; let r = x; ' + w, S, desc=f'Cartesian<{t}> /= {sc}'))
        if t.signed:
            ins = [('a', i), ('b', i), ('s', i)]
            S = cargs(t, 'a', 'b', 's') + FL + f'if s_.is0() {{ let m = <{t.rust} as Sp>::max_(); o_re = {sout(t,"m")}; o_im = {sout(t,"m")}; }} else {{ let r = div(a_,s_,f); let i2 = div(b_,s_,f); {fin} }}'
            hs.append(H(f'dsc_{n}', ins, outs, f'let r = mixed_num::div_scalar_cartesian(Cartesian::new({t.inp("a")}, {t.inp("b")}), {t.inp("s")}); ' + w, S, desc=f'div_scalar_cartesian on Cartesian<{t}>'))
    return standard('C03', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, components=[t.name for t in comps], scalars=PRIMS),
        assumptions=[A_ARITH, A_NAN, A_DEV, 'the conversion of the scalar is Rust\'s `as` for primitives and the fixed crate\'s from_num for fixed point (decided by C07 and C08)',
                     'nonzero scalars whose conversion to an integer or fixed-point component is zero are not specified'], extra_src=SPEC)
