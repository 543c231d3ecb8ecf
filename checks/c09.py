from .common import *

def main(cfg, t0):
    q = cfg['quick']; hs = []
    ints = SINTS
    fx = tys('I8U0 I8U3 I16U8 I16U13 I32U16 I32U28 I64U0 I64U32 I64U61') if q else fixed_types(False)
    ufx = tys('U8U3 U16U13 U32U16 U64U32') if q else fixed_types(False, False, True)
    def toprim(src, dst, e):
        """source component -> primitive, spec value k_ with flag"""
        if src.kind == 'fixed': 
            if dst in ('f32', 'f64'): return f'let k_ = {e}.to_num::<{dst}>();'
            return f'let (k_, c) = {e}.overflowing_to_num::<{dst}>(); *f |= c;'
        return f'let k_ = {e} as {dst};'
    # component-wise conversion between Cartesian types (target component converts from a primitive source component)
    for t in FLOATS + ints + fx + ufx:
        for sc in PRIMS:
            i = t.inner; n = f'{t.name}_{sc}'
            if t.signed:
                S = FL + f'{{ let s = x; {convs(sc, t)} o_p = {sout(t,"k_")}; }} {{ let s = y; {convs(sc, t)} o_q = {sout(t,"k_")}; }} if fl {{ ok = 0; }}'
                hs.append(H(f'cfrom_{n}', [('x', sc), ('y', sc)], [('p', i), ('q', i)],
                    f'let r: Cartesian<{t.rust}> = MixedNumConversion::<Cartesian<{sc}>>::mixed_from_num(Cartesian::new(x, y)); o_p = {t.out("r.re")}; o_q = {t.out("r.im")};', S, desc=f'Cartesian<{t}>::mixed_from_num(Cartesian<{sc}>)'))
                S = FL + cargs(t, 'x', 'y') + f'{{ {toprim(t, sc, "x_")} o_p = k_; }} {{ {toprim(t, sc, "y_")} o_q = k_; }} if fl {{ ok = 0; }}'
                hs.append(H(f'cto_{n}', [('x', i), ('y', i)], [('p', sc), ('q', sc)],
                    f'let r: Cartesian<{sc}> = Cartesian::new({t.inp("x")}, {t.inp("y")}).mixed_to_num(); o_p = r.re; o_q = r.im;', S, desc=f'Cartesian<{t}>::mixed_to_num() -> Cartesian<{sc}>'))
                # Polar from/to a real number
                S = FL + f'{{ let s = x; {convs(sc, t)} o_p = {sout(t,"k_")}; }} let z = <{t.rust} as Sp>::zero_(); o_q = {sout(t,"z")}; if fl {{ ok = 0; }}'
                hs.append(H(f'pfrom_{n}', [('x', sc)], [('p', i), ('q', i)],
                    f'let r: Polar<{t.rust}> = MixedNumConversion::<{sc}>::mixed_from_num(x); o_p = {t.out("r.mag")}; o_q = {t.out("r.ang")};', S, desc=f'Polar<{t}>::mixed_from_num({sc})'))
                S = FL + cargs(t, 'x') + f'{{ {toprim(t, sc, "x_")} o_p = k_; }} if fl {{ ok = 0; }}'
                hs.append(H(f'pto_{n}', [('x', i), ('y', i)], [('p', sc)],
                    f'let r: {sc} = Polar::new({t.inp("x")}, {t.inp("y")}).mixed_to_num(); o_p = r;', S, desc=f'Polar<{t}>::mixed_to_num() -> {sc}'))
            # real number <-> Cartesian of a primitive
            if t.kind != 'int':
                S = FL + f'{{ let s = x; {convs(sc, t)} o_p = {sout(t,"k_")}; }} if fl {{ ok = 0; }}'
                hs.append(H(f'rfrom_{n}', [('x', sc), ('y', sc)], [('p', i)],
                    f'let r = <{t.rust} as MixedNumConversion<Cartesian<{sc}>>>::mixed_from_num(Cartesian::new(x, y)); o_p = {t.out("r")};', S, desc=f'{t}::mixed_from_num(Cartesian<{sc}>)'))
                S = FL + cargs(t, 'x') + f'{{ {toprim(t, sc, "x_")} o_p = k_; }} o_q = 0 as {sc}; if fl {{ ok = 0; }}'
                hs.append(H(f'rto_{n}', [('x', i)], [('p', sc), ('q', sc)],
                    f'let r: Cartesian<{sc}> = ({t.inp("x")}).mixed_to_num(); o_p = r.re; o_q = r.im;', S, desc=f'{t}::mixed_to_num() -> Cartesian<{sc}>'))
    for t in FLOATS + SINTS + fx:
        i = t.inner
        S = f'o_p = x; let z = <{t.rust} as Sp>::zero_(); o_q = {sout(t,"z")};'
        hs.append(H(f'toc_{t}', [('x', i)], [('p', i), ('q', i)], f'let r: Cartesian<{t.rust}> = MixedComplexConversion::mixed_to_complex({t.inp("x")}); o_p = {t.out("r.re")}; o_q = {t.out("r.im")};', S, desc=f'Cartesian<{t}>::mixed_to_complex'))
        hs.append(H(f'top_{t}', [('x', i)], [('p', i), ('q', i)], f'let r: Polar<{t.rust}> = MixedComplexConversion::mixed_to_complex({t.inp("x")}); o_p = {t.out("r.mag")}; o_q = {t.out("r.ang")};', S, desc=f'Polar<{t}>::mixed_to_complex'))
    return standard('C09', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, components=[t.name for t in FLOATS + ints + fx], real_types=[t.name for t in FLOATS + fx + ufx]),
        assumptions=['component conversions are Rust\'s `as` (primitives) and the fixed crate\'s conversions (decided by C07, C08)', A_NAN, A_DEV], extra_src=SPEC)
