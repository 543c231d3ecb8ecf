from .common import *

# independent statement of the conversions: arithmetic on the represented integers (bits = value * 2^F)
CONV = r'''
#[inline(always)] pub fn i2x(v:i128, big:bool, F:u32, lo:i128, hi:i128, f:&mut bool)->i128 { if big || v < (lo>>F) || v > (hi>>F) { *f=true; } v.wrapping_shl(F) }
#[inline(always)] pub fn x2i(b:i128, F:u32, lo:i128, hi:i128, f:&mut bool)->i128 { let v = b>>F; if v<lo || v>hi { *f=true; } v }
#[inline(always)] pub fn m2x(neg:bool, m:u64, e:i32, lo:i128, hi:i128, f:&mut bool)->i128 { // +-m*2^e to the nearest integer, ties to even
  let mag:i128;
  if m==0 { mag=0; } else if e>=0 { if e>70 { *f=true; return 0; } mag=(m as i128)<<(e as u32); }
  else if e < -60 { mag=0; } else { let k=(-e) as u32; let q=m>>k; let rem=m&((1u64<<k)-1); let half=1u64<<(k-1); mag=(q + ((rem>half || (rem==half && q&1==1)) as u64)) as i128; }
  let v = if neg {-mag} else {mag}; if v<lo || v>hi { *f=true; } v }
#[inline(always)] pub fn f64x(s:f64, F:u32, lo:i128, hi:i128, f:&mut bool)->i128 { let b=s.to_bits(); let ex=((b>>52)&0x7ff) as i32; let fr=b&((1u64<<52)-1);
  if ex==0x7ff { *f=true; return 0; } let (m,e) = if ex==0 {(fr,-1074)} else {(fr|(1u64<<52), ex-1075)}; m2x((b>>63)==1, m, e+F as i32, lo, hi, f) }
#[inline(always)] pub fn f32x(s:f32, F:u32, lo:i128, hi:i128, f:&mut bool)->i128 { let b=s.to_bits(); let ex=((b>>23)&0xff) as i32; let fr=(b&((1u32<<23)-1)) as u64;
  if ex==0xff { *f=true; return 0; } let (m,e) = if ex==0 {(fr,-149)} else {(fr|(1u64<<23), ex-150)}; m2x((b>>31)==1, m, e+F as i32, lo, hi, f) }
'''

def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = tys('I8U0 I8U3 U8U5 I16U8 U16U13 I32U0 I32U16 I32U28 U32U22 I64U32 I64U61 U64U0') if q else fixed_types(False, True, True)
    def one(tag, t, ins, outs, body, spec, d, **o): hs.append(H(f'{tag}_{t.name}', ins, outs, body, FL + spec, opts=o, desc=d))
    for t in fx:
        i, R, F = t.inner, t.rust, t.frac
        lim = f'{i}::MIN as i128, {i}::MAX as i128'
        for p in PRIMS:
            # same result and same panics as the fixed-point library's conversion that reports overflow
            one(f'from_{p}', t, [('x', p)], [('r', i)], f'o_r = <{R} as MixedNumConversion<{p}>>::mixed_from_num(x).to_bits();',
                f'let s = x; {convs(p, t)} o_r = k_.to_bits(); if fl {{ ok = 0; }}', f'{t}::mixed_from_num({p})')
            to = f'let k_ = {t.inp("x")}.to_num::<{p}>();' if p in ('f32', 'f64') else f'let (k_, c) = {t.inp("x")}.overflowing_to_num::<{p}>(); *f |= c;'
            one(f'to_{p}', t, [('x', i)], [('r', p)], f'o_r = <{R} as MixedNumConversion<{p}>>::mixed_to_num(&{t.inp("x")});', f'{to} o_r = k_; if fl {{ ok = 0; }}', f'{t}::mixed_to_num() -> {p}')
            # and the arithmetic meaning, stated independently
            if p in INTS:
                big = f'(x > i128::MAX as u128)' if p == 'u128' else 'false'
                one(f'efrom_{p}', t, [('x', p)], [('r', i)], f'o_r = <{R} as MixedNumConversion<{p}>>::mixed_from_num(x).to_bits();',
                    f'o_r = i2x(x as i128, {big}, {F}, {lim}, f) as {i}; if fl {{ ok = 0; }}', f'{t}::mixed_from_num({p}) is x*2^{F} exactly')
                one(f'eto_{p}', t, [('x', i)], [('r', p)], f'o_r = <{R} as MixedNumConversion<{p}>>::mixed_to_num(&{t.inp("x")});',
                    f'o_r = x2i(x as i128, {F}, {f"{p}::MIN as i128" if p!="u128" else "0"}, {f"{p}::MAX as i128" if p!="u128" else "i128::MAX"}, f) as {p}; if fl {{ ok = 0; }}', f'{t}::mixed_to_num() -> {p} is floor(bits/2^{F})')
            else:
                if not q or t.name in ('I8U3', 'U8U5', 'I16U8', 'U16U13', 'I32U28', 'U32U22', 'I64U32'): one(f'efrom_{p}', t, [('x', p)], [('r', i)], f'o_r = <{R} as MixedNumConversion<{p}>>::mixed_from_num(x).to_bits();',
                    f'o_r = {p if p=="f32" else "f64"}x(x, {F}, {lim}, f) as {i}; if fl {{ ok = 0; }}', f'{t}::mixed_from_num({p}) is the nearest value, ties to even',
                    split=float_exp_split('x', 32 if p == 'f32' else 64, max(0, (127 if p == 'f32' else 1023)-F-3), min(254, 127+t.bits-F+66) if p == 'f32' else 1023+t.bits-F+66))
                sc = f'{float(2.0**-F)!r}_{p}' if F else f'1.0_{p}'
                one(f'eto_{p}', t, [('x', i)], [('r', p)], f'o_r = <{R} as MixedNumConversion<{p}>>::mixed_to_num(&{t.inp("x")});',
                    f'o_r = (x as {p})*{sc};', f'{t}::mixed_to_num() -> {p} is the correctly rounded bits/2^{F}')
        for p, m in (('f32', 24), ('f64', 53)):
            if t.bits <= m:
                one(f'trip_{p}', t, [('x', i)], [('r', i)], f'let k: {p} = {t.inp("x")}.mixed_to_num(); o_r = <{R} as MixedNumConversion<{p}>>::mixed_from_num(k).to_bits();',
                    'o_r = x;', f'{t} -> {p} -> {t} is the identity')
    return standard('C08', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in fx]),
        assumptions=['the fixed crate is compiled and encoded like the library itself; nothing about its conversions is assumed in the harnesses marked with an arithmetic meaning', A_NAN, A_DEV], extra_src=SPEC + CONV)
