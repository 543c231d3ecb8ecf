from .common import *
def main(cfg, t0):
    q = cfg['quick']; hs = []
    fx = fixed_types(False, True, True)
    for t in FLOATS + SINTS + UINTS + fx:
        n, i, R = t.name, t.inner, t.rust
        ins4 = [(c, i) for c in 'abcd']
        for S, f1, f2 in (('Cartesian', 're', 'im'), ('Polar', 'mag', 'ang')):
            p = S[0].lower()
            x = f'let x = {S} {{ {f1}: {t.inp("a")}, {f2}: {t.inp("b")} }}; let y = {S} {{ {f1}: {t.inp("c")}, {f2}: {t.inp("d")} }}; '
            eq = lambda u, v: f'({u} == {v})'; lt = lambda u, v: f'({u} < {v})'
            E = '(a == c) & (b == d)'
            L = '(a < c) | ((a == c) & (b < d))'; G = '(a > c) | ((a == c) & (b > d))'
            hs.append(H(f'{p}eq_{n}', ins4, [('e', 'u8'), ('n', 'u8')], x + 'o_e = (x == y) as u8; o_n = (x != y) as u8;', f'o_e = ({E}) as u8; o_n = 1 - o_e;', desc=f'{S}<{t}> == and !='))
            hs.append(H(f'{p}cmp_{n}', ins4, [('l', 'u8'), ('le', 'u8'), ('g', 'u8'), ('ge', 'u8'), ('c', 'u8')], x + 'o_l = (x < y) as u8; o_le = (x <= y) as u8; o_g = (x > y) as u8; o_ge = (x >= y) as u8; o_c = match x.partial_cmp(&y) { None => 9, Some(core::cmp::Ordering::Less) => 0, Some(core::cmp::Ordering::Equal) => 1, Some(core::cmp::Ordering::Greater) => 2 };',
                f'let l = {L}; let g = {G}; let e = {E}; o_l = l as u8; o_g = g as u8; o_le = (l | e) as u8; o_ge = (g | e) as u8; o_c = if l {{0}} else if g {{2}} else if e {{1}} else {{9}};', desc=f'{S}<{t}> ordering'))
            signed = t.signed
            new = f'{S}::new({t.inp("a")}, {t.inp("b")})'
            hs.append(H(f'{p}new_{n}', [('a', i), ('b', i)], [('p', i), ('q', i), ('r', i), ('s', i), ('sz', 'u8')],
                f'let x = {new}; let y = x; let z = x.clone(); o_p = {t.out("y."+f1)}; o_q = {t.out("z."+f2)}; let m = &y as *const {S}<{R}> as *const {R}; let u = unsafe {{ *m }}; let v = unsafe {{ *m.add(1) }}; o_r = {t.out("u")}; o_s = {t.out("v")}; o_sz = core::mem::size_of::<{S}<{R}>>() as u8;',
                f'o_p = a; o_q = b; o_r = a; o_s = b; o_sz = {2*t.bits//8};', desc=f'{S}<{t}> construction, copy and layout')) if signed else None
            z = '0.0' if t.kind == 'float' else '0'
            hs.append(H(f'{p}def_{n}', [('a', 'u8')], [('p', i), ('q', i)], f'let x = <{S}<{R}> as Default>::default(); o_p = {t.out("x."+f1)}; o_q = {t.out("x."+f2)};', f'o_p = {z}; o_q = {z};', desc=f'{S}<{t}> default'))
    return standard('C22', hs, cfg, t0, bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in FLOATS + SINTS + UINTS + fx]), assumptions=[A_NAN, A_DEV])
