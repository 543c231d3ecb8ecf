from .common import *

def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = fixed_types(False, True, True); all_ = FLOATS + SINTS + UINTS + fx
    for t in all_:
        n, i, R = t.name, t.inner, t.rust
        x = f'let x = {t.inp("a")}; '
        # the spec works on the representation: fixed point is ordered as its bits
        neg = 'a < 0.0' if t.kind == 'float' else ('a < 0' if t.signed else 'false')
        one = f'(1 as {i}) << {t.frac}' if t.kind == 'fixed' else f'1 as {i}'
        mone = f'((-1) as {i}) << {t.frac}' if t.kind == 'fixed' and t.signed else ('-1.0' if t.kind == 'float' else f'(0 as {i}).wrapping_sub(1)')
        if t.kind == 'float': ab = f'o_r = {i}::from_bits(a.to_bits() << 1 >> 1);'
        elif t.signed: ab = f'if a == {i}::MIN {{ ok = 2; }} o_r = a.wrapping_abs();'
        else: ab = 'o_r = a;'
        ins = [('a', i)]
        hs.append(H(f'abs_{n}', ins, [('r', i)], x + f'let r = x.mixed_abs(); o_r = {t.out("r")};', ab, desc=f'{t}::mixed_abs'))
        hs.append(H(f'abst_{n}', ins, [('r', i)], x + f'let r = MixedAbs::mixed_abs(&x); o_r = {t.out("r")};', ab, desc=f'MixedAbs on {t}'))
        sg = f'if {neg} {{ o_r = {mone}; }} else {{ o_r = {one}; }}'
        hs.append(H(f'sign_{n}', ins, [('r', i)], x + f'let r = x.mixed_sign(); o_r = {t.out("r")};', sg, desc=f'{t}::mixed_sign'))
        hs.append(H(f'signf_{n}', ins, [('r', i)], x + f'let r = trigonometry::sign(x); o_r = {t.out("r")};', sg, desc=f'trigonometry::sign on {t}'))
        nz = 'if a == 0.0 || a.is_nan() { ok = 2; }' if t.kind == 'float' else 'if a == 0 { ok = 2; }'
        pos = 'a > 0.0' if t.kind == 'float' else 'a > 0'
        hs.append(H(f'pred_{n}', ins, [('p', 'u8'), ('n', 'u8')], x + 'o_p = x.mixed_is_positive() as u8; o_n = x.mixed_is_negative() as u8;', f'{nz} o_p = ({pos}) as u8; o_n = ({neg}) as u8;', desc=f'sign predicates on {t}'))
        # consistency: x = sign(x)*|x|
        if t.kind == 'float': sp = 'o_r = 1; if a.is_nan() { ok = 2; }'
        elif t.signed: sp = f'o_r = 1; if a == {i}::MIN {{ ok = 2; }}'
        else: sp = 'o_r = 1;'
        if not (t.kind == 'fixed' and t.bits == 64 and t.frac): hs.append(H(f'cons_{n}', ins, [('r', 'u8')], x + 'o_r = (x.mixed_sign()*x.mixed_abs() == x) as u8;', sp, desc=f'x = sign(x)*|x| on {t}'))
    return standard('C11', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in all_], excluded='absolute value of a signed minimum; predicates on zero and NaN'),
        assumptions=[A_NAN, A_DEV], extra_src=SPEC)
