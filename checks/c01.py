from .common import *

def main(cfg, t0):
    q = cfg['quick']
    T_ = FLOATS + SINTS + fixed_types(False)
    hs = []
    for t in T_:
        n = t.name; i = t.inner
        C = lambda x, y: f'Cartesian::new({t.inp(x)}, {t.inp(y)})'
        Z = lambda x, y: f'Complex::new({t.inp(x)}, {t.inp(y)})'
        ins = [('a', i), ('b', i), ('c', i), ('d', i)]
        outs = [('re', i), ('im', i), ('xre', i), ('xim', i)]
        w = f'o_re = {t.out("r.re")}; o_im = {t.out("r.im")}; '
        wx = f'o_xre = {t.out("y.re")}; o_xim = {t.out("y.im")}; '
        pre = f'let mut x = {C("a","b")}; let mut y = {C("c","d")}; '
        prez = f'let mut x = {C("a","b")}; let mut y = {Z("c","d")}; '
        same = 'o_xre = c; o_xim = d;'
        S = {}
        for nm, re, im in (('add', 'add(a_,c_,f)', 'add(b_,d_,f)'), ('sub', 'sub(a_,c_,f)', 'sub(b_,d_,f)'),
                           ('mul', 'sub(mul(a_,c_,f),mul(b_,d_,f),f)', 'add(mul(a_,d_,f),mul(b_,c_,f),f)')):
            S[nm] = cargs(t, 'a', 'b', 'c', 'd') + FL + f'let r = {re}; let s = {im}; o_re = {sout(t,"r")}; o_im = {sout(t,"s")}; {same} if fl {{ ok = 0; }}'
        def h(name, op, body, desc):
            hs.append(H(f'{name}_{n}', ins, outs, body, S[op], desc=f'{desc} on Cartesian<{t.rust}>'))
        for op, sy in (('add', '+'), ('sub', '-'), ('mul', '*')):
            h(op+'_vv', op, pre + f'let r = x {sy} y; ' + w + wx, f'{op} by value')
            h(op+'_vr', op, pre + f'let r = x {sy} &y; ' + w + wx, f'{op} by reference')
            h(op+'_vm', op, pre + f'let r = x {sy} &mut y; ' + w + wx, f'{op} by mutable reference')
            fn = 'mul_cartesian' if op == 'mul' else op
            h(op+'_fn', op, pre + f'let r = mixed_num::{fn}(x, y); ' + w + wx, f'free function {fn}')
            if op != 'mul':
                h(op+'_ai', op, pre + f'x {sy}= y; let r = x; ' + w + wx, f'{op} in place')
                h(op+'_ar', op, pre + f'x {sy}= &y; let r = x; ' + w + wx, f'{op} in place by reference')
                h(op+'_am', op, pre + f'x {sy}= &mut y; let r = x; ' + w + wx, f'{op} in place by mutable reference')
                h(op+'_zv', op, prez + f'let r = x {sy} y; ' + w + wx, f'{op} with num::Complex')
                h(op+'_zr', op, prez + f'let r = x {sy} &y; ' + w + wx, f'{op} with &num::Complex')
                h(op+'_zm', op, prez + f'let r = x {sy} &mut y; ' + w + wx, f'{op} with &mut num::Complex')
                h(op+'_za', op, prez + f'x {sy}= y; let r = x; ' + w + wx, f'{op} in place with num::Complex')
                h(op+'_zar', op, prez + f'x {sy}= &y; let r = x; ' + w + wx, f'{op} in place with &num::Complex')
                h(op+'_zam', op, prez + f'x {sy}= &mut y; let r = x; ' + w + wx, f'{op} in place with &mut num::Complex')
    return standard('C01', hs, cfg, t0,
        bounds=dict(inputs=BOUNDS_FULL, types=[t.name for t in T_], forms='by value, &, &mut, in place, free function, num::Complex (13 for + and -, 4 for *)'),
        assumptions=['the spec arithmetic of checks/common.py (overflowing integer operations; fixed point: floor of the wide product) is the component type\'s own arithmetic',
                     'NaN payloads and signs are not distinguished', 'build profile with overflow checks (dev)'], extra_src=SPEC)
