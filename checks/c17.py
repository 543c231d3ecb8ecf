from .common import *

ONE = dict(mixed_sin='sin', mixed_cos='cos', mixed_tan='tan', mixed_asin='asin', mixed_acos='acos', mixed_atan='atan', mixed_sinh='sinh', mixed_cosh='cosh', mixed_tanh='tanh',
           mixed_asinh='asinh', mixed_acosh='acosh', mixed_atanh='atanh', mixed_exp='exp', mixed_exp2='exp2', mixed_exp10='exp10', mixed_log='log', mixed_log2='log2', mixed_log10='log10',
           mixed_sqrt='sqrt', mixed_cbrt='cbrt', mixed_floor='floor', mixed_ceil='ceil')
TWO = dict(mixed_atan2='atan2', mixed_pow='pow')

def main(cfg, t0):
    hs = []
    for t in FLOATS:
        f = 'f' if t.bits == 32 else ''; i = t.inner; n = t.name
        for m, l in ONE.items():
            hs.append(H(f'{m}_{n}', [('a', i)], [('r', i)], f'o_r = a.{m}();', f'o_r = libm::{l}{f}(a);', desc=f'{n}::{m}'))
        for m, l in TWO.items():
            hs.append(H(f'{m}_{n}', [('a', i), ('b', i)], [('r', i)], f'o_r = a.{m}(b);', f'o_r = libm::{l}{f}(a, b);', desc=f'{n}::{m}'))
        hs.append(H(f'sincos_{n}', [('a', i)], [('p', i), ('q', i)], 'let (s,c) = a.mixed_sincos(); o_p = s; o_q = c;', f'let (s,c) = libm::sincos{f}(a); o_p = s; o_q = c;', desc=f'{n}::mixed_sincos'))
        for m, e in (('mixed_mag2db', f'20.0*libm::log10{f}(a)'), ('mixed_db2mag', f'libm::exp10{f}(a/20.0)'), ('mixed_pow2db', f'10.0*libm::log10{f}(a)'), ('mixed_db2pow', f'libm::exp10{f}(a/10.0)')):
            hs.append(H(f'{m}_{n}', [('a', i)], [('r', i)], f'o_r = a.{m}();', f'o_r = {e};', desc=f'{n}::{m}'))
    return standard('C17', hs, cfg, t0, cut=('libm',), bounds=dict(inputs=BOUNDS_FULL, types=['f32', 'f64']),
        assumptions=[A_CUT('the functions of the libm crate'), A_NAN, A_DEV])
