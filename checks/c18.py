from .common import *
def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = fixed_types(False)
    for t in fx:
        i = t.inner; n = t.name
        for m in ('sin', 'cos', 'asin', 'acos', 'atan', 'exp'):
            hs.append(H(f'{m}_{n}', [('a', i)], [('r', i)], f'let r = {t.inp("a")}.mixed_{m}(); o_r = {t.out("r")};', f'let r = cordic::{m}({t.inp("a")}); o_r = {t.out("r")};', desc=f'{n}::mixed_{m}'))
        hs.append(H(f'sincos_{n}', [('a', i)], [('p', i), ('q', i)], f'let (s,c) = {t.inp("a")}.mixed_sincos(); o_p = {t.out("s")}; o_q = {t.out("c")};', f'let (s,c) = cordic::sin_cos({t.inp("a")}); o_p = {t.out("s")}; o_q = {t.out("c")};', desc=f'{n}::mixed_sincos'))
        hs.append(H(f'atan2_{n}', [('a', i), ('b', i)], [('r', i)], f'let r = {t.inp("a")}.mixed_atan2({t.inp("b")}); o_r = {t.out("r")};', f'let r = cordic::atan2({t.inp("a")}, {t.inp("b")}); o_r = {t.out("r")};', desc=f'{n}::mixed_atan2'))
    return standard('C18', hs, cfg, t0, cut=('cordic',), bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in fx]),
        assumptions=[A_CUT('the functions of the cordic crate'), A_DEV])
