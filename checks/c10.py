from .common import *
from fractions import Fraction

def pi_frac(digits=60):
    """pi as a rational, Machin's formula in integers"""
    u = 10**(digits+10)
    def arctan(k):
        s = t = u//k; n = 1; sg = -1
        while t:
            t //= k*k; n += 2; s += sg*(t//n); sg = -sg
        return s
    return Fraction(4*(4*arctan(5)-arctan(239)), u)
PI = pi_frac()

def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = fixed_types(False, True, True)
    all_ = FLOATS + SINTS + UINTS + fx
    def h(nm, ins, outs, body, spec, d): hs.append(H(nm, ins, outs, body, spec, desc=d))
    def le(t, a, b): return f'({a} <= {b})'
    for t in all_:
        n, i, R = t.name, t.inner, t.rust
        x = f'let x = {t.inp("a")}; '
        nan = 'if a.is_nan() { ok = 2; } ' if t.kind == 'float' else ''
        fin = 'if !a.is_finite() { ok = 2; } ' if t.kind == 'float' else ''
        z, o = f'<{R} as MixedZero>::mixed_zero()', f'<{R} as MixedOne>::mixed_one()'
        h(f'zadd_{n}', [('a', i)], [('l', 'u8'), ('r', 'u8'), ('s', 'u8'), ('m', 'u8')], x + f'let z = {z}; o_l = (z+x == x) as u8; o_r = (x+z == x) as u8; o_s = (x-z == x) as u8; o_m = (x*z == z) as u8;',
          f'o_l = 1; o_r = 1; o_s = 1; o_m = 1; {fin}', f'0 + x = x + 0 = x - 0 = x and x*0 = 0 on {t}')
        h(f'zval_{n}', [('a', 'u8')], [('z', i), ('e', 'u8'), ('f', 'u8')], f'let z = {z}; o_z = {t.out("z")}; o_e = (z == <{R} as MixedNumConversion<i32>>::mixed_from_num(0)) as u8; let k: f64 = z.mixed_to_num(); o_f = (k == 0.0) as u8;',
          f'let z = <{R} as Sp>::zero_(); o_z = {sout(t,"z")}; o_e = 1; o_f = 1;', f'zero of {t} is the value 0')
        h(f'omul_{n}', [('a', i)], [('l', 'u8'), ('r', 'u8'), ('d', 'u8')], x + f'let z = {o}; o_l = (z*x == x) as u8; o_r = (x*z == x) as u8; o_d = (x/z == x) as u8;',
          f'o_l = 1; o_r = 1; o_d = 1; {nan}', f'1*x = x*1 = x/1 = x on {t}')
        h(f'oval_{n}', [('a', 'u8')], [('z', i), ('e', 'u8'), ('f', 'u8')], f'let z = {o}; o_z = {t.out("z")}; o_e = (z == <{R} as MixedNumConversion<i32>>::mixed_from_num(1)) as u8; let k: f64 = z.mixed_to_num(); o_f = (k == 1.0) as u8;',
          (f'o_z = (1 as {i}) << {t.frac};' if t.kind == 'fixed' else f'o_z = 1 as {i};') + ' o_e = 1; o_f = 1;', f'one of {t} is the value 1')
        mn, mx = f'<{R} as MixedReal>::mixed_min_value()', f'<{R} as MixedReal>::mixed_max_value()'
        h(f'lim_{n}', [('a', i)], [('l', 'u8'), ('h', 'u8')], x + f'o_l = ({mn} <= x) as u8; o_h = (x <= {mx}) as u8;', f'o_l = 1; o_h = 1; {fin}', f'min <= x <= max on {t}')
        h(f'limv_{n}', [('a', 'u8')], [('l', i), ('h', i)], f'let l = {mn}; let h = {mx}; o_l = {t.out("l")}; o_h = {t.out("h")};', f'o_l = <{i}>::MIN; o_h = <{i}>::MAX;', f'min and max of {t} are its extreme values')
        if t.kind == 'int': continue
        for nm, v in (('pi', PI), ('tau', 2*PI)):
            if t.kind == 'float':
                b = T.frac_to_bits(t.name, v); out = f'x.to_bits()'; ty = 'u32' if t.bits == 32 else 'u64'; rep = True
            else:
                b = int(v*(1 << t.frac)); out = 'x.to_bits()'; ty = i; rep = b+1 < (1 << (t.bits-t.signed))
            if not rep: continue
            h(f'{nm}_{n}', [('a', 'u8')], [('l', 'u8')], f'let x = <{R} as MixedPi>::mixed_{nm}(); let b: i128 = {out} as i128; o_l = (b >= {b-1}i128 && b <= {b+1}i128) as u8;', f'o_l = 1;', f'{nm} of {t} within one ulp of the true constant')
    for t in FLOATS + SINTS + fixed_types(False):
        n, i, R = t.name, t.inner, t.rust
        C = f'Cartesian::new({t.inp("a")}, {t.inp("b")})'
        nan = 'if !a.is_finite() || !b.is_finite() { ok = 2; } ' if t.kind == 'float' else ''
        h(f'cz_{n}', [('a', i), ('b', i)], [('l', 'u8'), ('r', 'u8'), ('s', 'u8')], f'let x = {C}; let z = <Cartesian<{R}> as MixedZero>::mixed_zero(); o_l = (z+x == x) as u8; o_r = (x+z == x) as u8; o_s = (x-z == x) as u8;', f'o_l = 1; o_r = 1; o_s = 1; {nan}', f'Cartesian<{t}> zero is the additive identity')
        # b = a component minimum times zero does not overflow; a*1 - b*0 and a*0 + b*1
        h(f'co_{n}', [('a', i), ('b', i)], [('l', 'u8'), ('r', 'u8')], f'let x = {C}; let z = <Cartesian<{R}> as MixedOne>::mixed_one(); o_l = (z*x == x) as u8; o_r = (x*z == x) as u8;', f'o_l = 1; o_r = 1; {nan}', f'Cartesian<{t}> one is the multiplicative identity')
        one = f'(1 as {i}) << {t.frac}' if t.kind == 'fixed' else f'1 as {i}'
        zz = f'<{R} as Sp>::zero_()'
        h(f'cv_{n}', [('a', 'u8')], [('p', i), ('q', i), ('r', i), ('s', i)], f'let z = <Cartesian<{R}> as MixedZero>::mixed_zero(); let w = <Cartesian<{R}> as MixedOne>::mixed_one(); o_p = {t.out("z.re")}; o_q = {t.out("z.im")}; o_r = {t.out("w.re")}; o_s = {t.out("w.im")};',
          f'let z = {zz}; o_p = {sout(t,"z")}; o_q = o_p; o_r = {one}; o_s = o_p;', f'Cartesian<{t}> zero and one')
        h(f'pv_{n}', [('a', 'u8')], [('p', i), ('q', i), ('r', i), ('s', i)], f'let z = <Polar<{R}> as MixedZero>::mixed_zero(); let w = <Polar<{R}> as MixedOne>::mixed_one(); o_p = {t.out("z.mag")}; o_q = {t.out("z.ang")}; o_r = {t.out("w.mag")}; o_s = {t.out("w.ang")};',
          f'let z = {zz}; o_p = {sout(t,"z")}; o_q = o_p; o_r = {one}; o_s = o_p;', f'Polar<{t}> zero and one')
        h(f'po_{n}', [('a', i), ('b', i)], [('l', 'u8'), ('r', 'u8')], f'let x = Polar::new({t.inp("a")}, {t.inp("b")}); let w = <Polar<{R}> as MixedOne>::mixed_one(); let e = if x.mag == <{R} as MixedZero>::mixed_zero() {{ <Polar<{R}> as MixedZero>::mixed_zero() }} else {{ x }}; o_l = (w*x == e) as u8; o_r = (x*w == e) as u8;', f'o_l = 1; o_r = 1; {nan}', f'Polar<{t}> one is the multiplicative identity') if t.kind != 'int' else None
    return standard('C10', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in all_]),
        assumptions=[A_ARITH, A_NAN, A_DEV, 'tau is required only of types that can represent it'], extra_src=SPEC)
