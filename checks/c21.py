from .common import *
def main(cfg, t0):
    hs = []
    for t in FLOATS:
        i = t.inner; n = t.name; k = 'i32' if t.bits == 32 else 'i64'; big = '8388608.0' if t.bits == 32 else '4503599627370496.0'
        # a result of zero for a non-integral argument may carry either sign
        for m, adj in (('floor', 'if c > a { c = c - 1.0; }'), ('ceil', 'if c < a { c = c + 1.0; }')):
            hs.append(H(f'{m}_{n}', [('a', i)], [('r', i)], f'let r = a.mixed_{m}(); o_r = if r == 0.0 && a != 0.0 {{ 0.0 }} else {{ r }};',
                f'if a.is_nan() || a == 0.0 || a >= {big} || a <= -{big} {{ o_r = a; }} else {{ let mut c = (a as {k}) as {i}; {adj} o_r = if c == 0.0 {{ 0.0 }} else {{ c }}; }}', desc=f'{n}::mixed_{m}'))
        hs.append(H(f'rel_{n}', [('a', i)], [('p', 'u8'), ('q', 'u8'), ('r', 'u8'), ('s', 'u8')], 'let l = a.mixed_floor(); let h = a.mixed_ceil(); o_p = (l <= a && a <= h) as u8; o_q = (a - l < 1.0 && h - a < 1.0) as u8; o_r = ((a == l) == (a == h)) as u8; o_s = ((-a).mixed_ceil() == -l) as u8;',
            f'if !a.is_finite() {{ ok = 2; }} o_p = 1; o_q = 1; o_r = 1; o_s = 1; ' , desc=f'floor <= x <= ceil, closer than one (up to rounding of the difference) on {n}'))
    for h in hs:
        if h.name.startswith('rel'): h.spec = h.spec.replace('o_q = 1;', 'o_q = 1;'); h.body = h.body.replace('a - l < 1.0 && h - a < 1.0', 'a - l <= 1.0 && h - a <= 1.0')
    return standard('C21', hs, cfg, t0, cut=(), bounds=dict(inputs=BOUNDS_FULL, types=['f32', 'f64']),
        assumptions=['libm\'s floor and ceil are encoded, not assumed', A_NAN, A_DEV])
