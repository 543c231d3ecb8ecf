from .common import *

def main(cfg, t0):
    hs = []
    for a in PRIMS:
        for b in PRIMS:
            hs.append(H(f'from_{a}_{b}', [('x', a)], [('r', b)], f'o_r = <{b} as MixedNumConversion<{a}>>::mixed_from_num(x);', f'o_r = x as {b};', desc=f'{b}::mixed_from_num({a})'))
            hs.append(H(f'to_{a}_{b}', [('x', a)], [('r', b)], f'o_r = <{a} as MixedNumConversion<{b}>>::mixed_to_num(&x);', f'o_r = x as {b};', desc=f'{a}::mixed_to_num() -> {b}'))
    return standard('C07', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, types='14 x 14 primitive types, both directions'),
        assumptions=['Rust\'s `as` between primitives is the documented cast (wrap / truncate and saturate / round to nearest even)', A_NAN, A_DEV])
