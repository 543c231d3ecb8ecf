"""Hash-consed term DAG: booleans (sort 0), bit-vectors (sort n>0), IEEE floats ('f32','f64').

Constructors fold constants and apply a few exact rewrites.  A concrete evaluator gives the
semantics used to validate models; solve.py translates terms to z3.
"""
import struct, math
import numpy as np

_tab = {}
_cnt = [0]

class Term:
    __slots__ = ('op', 'args', 'sort', 'p', 'id', '_iv')
    def __repr__(self):
        return show(self, 4)

def show(t, d=99):
    if t.op == 'const':
        if t.sort == 0: return str(bool(t.p))
        if isinstance(t.sort, str): return repr(fval(t))
        return f"{t.p}:{t.sort}"
    if t.op == 'var': return t.p
    if d == 0: return f"#{t.id}"
    pp = '' if t.p is None else f"<{t.p}>"
    return f"({t.op}{pp} {' '.join(show(a, d-1) for a in t.args)})"

def raw(op, sort, args=(), p=None):
    k = (op, sort, p, tuple(a.id for a in args))
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = tuple(args); t.sort = sort; t.p = p; t._iv = None
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[k] = t
    return t

# ---------------------------------------------------------------- constants
def mask(n): return (1 << n) - 1
def bv(n, v): return raw('const', n, (), v & mask(n))
TRUE = raw('const', 0, (), 1)
FALSE = raw('const', 0, (), 0)
def boolc(b): return TRUE if b else FALSE
def fbits(sort, bits): return raw('const', sort, (), bits)
def f2b(sort, x):
    if sort == 'f32':
        return int(np.float32(x).view(np.uint32))
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]
def b2f(sort, b):
    if sort == 'f32': return np.uint32(b).view(np.float32)
    return np.float64(struct.unpack('<d', struct.pack('<Q', b))[0])
def fc(sort, x): return fbits(sort, f2b(sort, x))
def fval(t): return float(b2f(t.sort, t.p))
def var(name, sort): return raw('var', sort, (), name)
def is_c(t): return t.op == 'const'
def width(s): return 1 if s == 0 else 32 if s == 'f32' else 64 if s == 'f64' else s
def sval(t):
    v, n = t.p, t.sort
    return v - (1 << n) if v >> (n-1) else v
def sgn(v, n): return v - (1 << n) if v >> (n-1) & 1 else v

# ---------------------------------------------------------------- booleans
def not_(a):
    if is_c(a): return boolc(not a.p)
    if a.op == 'not': return a.args[0]
    return raw('not', 0, (a,))

def and_(*xs):
    out = []; seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE or x.id in seen: continue
        if x is FALSE: return FALSE
        if x.op == 'and': st.extend(x.args[::-1]); continue
        seen.add(x.id); out.append(x)
    for x in out:
        if not_(x).id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return raw('and', 0, out)

def or_(*xs):
    out = []; seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is FALSE or x.id in seen: continue
        if x is TRUE: return TRUE
        if x.op == 'or': st.extend(x.args[::-1]); continue
        seen.add(x.id); out.append(x)
    for x in out:
        if not_(x).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return raw('or', 0, out)

def xor_(a, b):
    if is_c(a): return not_(b) if a.p else b
    if is_c(b): return not_(a) if b.p else a
    if a is b: return FALSE
    if a.id > b.id: a, b = b, a
    return raw('xorb', 0, (a, b))
def iff(a, b): return not_(xor_(a, b))
def implies(a, b): return or_(not_(a), b)

def ite(c, a, b):
    if is_c(c): return a if c.p else b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 0:
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return raw('ite', a.sort, (c, a, b))

# ---------------------------------------------------------------- equality
def eq(a, b):
    """Structural equality: for floats 'same bits, or both NaN'."""
    if a is b: return TRUE
    if a.sort == 0: return iff(a, b)
    if is_c(a) and is_c(b):
        if isinstance(a.sort, str):
            x, y = b2f(a.sort, a.p), b2f(b.sort, b.p)
            return boolc(a.p == b.p or (math.isnan(x) and math.isnan(y)))
        return boolc(a.p == b.p)
    if is_c(a): a, b = b, a
    if is_c(b) and not isinstance(a.sort, str):
        if a.op == 'zext':
            w = a.args[0].sort
            if w == 0:
                return a.args[0] if b.p == 1 else not_(a.args[0]) if b.p == 0 else FALSE
            return eq(a.args[0], bv(w, b.p)) if b.p >> w == 0 else FALSE
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == 'add' and is_c(a.args[1]): return eq(a.args[0], bv(a.sort, b.p - a.args[1].p))
    if a.id > b.id: a, b = b, a
    return raw('eq', 0, (a, b))

# ---------------------------------------------------------------- bit-vectors
def _bin_fold(op, n, x, y):
    m = mask(n)
    if op == 'add': return (x+y) & m
    if op == 'sub': return (x-y) & m
    if op == 'mul': return (x*y) & m
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    if op == 'shl': return (x << y) & m if y < n else 0
    if op == 'lshr': return x >> y if y < n else 0
    if op == 'ashr': return (sgn(x, n) >> min(y, n-1)) & m
    if op == 'udiv': return m if y == 0 else x//y
    if op == 'urem': return x if y == 0 else x % y
    if op in ('sdiv', 'srem'):
        a, b = sgn(x, n), sgn(y, n)
        if b == 0: return (x if op == 'srem' else (1 if a < 0 else m))
        q = abs(a)//abs(b); q = -q if (a < 0) != (b < 0) else q
        return (q if op == 'sdiv' else a-b*q) & m
    raise KeyError(op)

COMM = {'add', 'mul', 'and', 'or', 'xor'}
def binop(op, a, b):
    n = a.sort
    assert n == b.sort and isinstance(n, int), (op, a, b)
    if n == 0:
        if op == 'and': return and_(a, b)
        if op == 'or': return or_(a, b)
        if op in ('xor', 'add', 'sub'): return xor_(a, b)
        if op == 'mul': return and_(a, b)
        raise NotImplementedError(op)
    if is_c(a) and is_c(b): return bv(n, _bin_fold(op, n, a.p, b.p))
    if op in COMM:
        if is_c(a) or (not is_c(b) and a.id > b.id): a, b = b, a
    m = mask(n)
    if is_c(b):
        c = b.p
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and c == 0: return a
        if op == 'sub': return binop('add', a, bv(n, -c))
        if op == 'mul':
            if c == 0: return b
            if c == 1: return a
        if op == 'and':
            if c == 0: return b
            if c == m: return a
            if c & (c+1) == 0:
                k = c.bit_length()
                return zext(extract(k-1, 0, a), n)
        if op == 'or' and c == m: return b
        if op in ('udiv', 'sdiv') and c == 1: return a
        if op == 'udiv' and c and c & (c-1) == 0: return binop('lshr', a, bv(n, c.bit_length()-1))
        if op == 'urem' and c and c & (c-1) == 0: return binop('and', a, bv(n, c-1))
        if op == 'add' and a.op == 'add' and is_c(a.args[1]):
            return binop('add', a.args[0], bv(n, a.args[1].p + c))
        if op == 'lshr' and c >= n: return bv(n, 0)
        if op == 'shl' and c >= n: return bv(n, 0)
        if op == 'lshr': return zext(extract(n-1, c, a), n)
        if op == 'shl':
            if a.op == 'shl' and is_c(a.args[1]):
                return binop('shl', a.args[0], bv(n, a.args[1].p + c)) if a.args[1].p + c < n else bv(n, 0)
    if is_c(a):
        if op in ('shl', 'lshr', 'udiv', 'urem') and a.p == 0 and op in ('shl', 'lshr'): return a
    if a is b:
        if op in ('sub', 'xor'): return bv(n, 0)
        if op in ('and', 'or'): return a
    return raw(op, n, (a, b))

def add(a, b): return binop('add', a, b)
def sub(a, b): return binop('sub', a, b)
def mul(a, b): return binop('mul', a, b)
def neg(a): return binop('sub', bv(a.sort, 0), a)
def bnot(a):
    if a.sort == 0: return not_(a)
    return binop('xor', a, bv(a.sort, -1))

def extract(hi, lo, a):
    n = a.sort; w = hi-lo+1
    if w == n: return a
    if is_c(a): return bv(w, a.p >> lo)
    if a.op == 'extract':
        l0 = a.p[1]; return extract(hi+l0, lo+l0, a.args[0])
    if a.op == 'zext':
        k = width(a.args[0].sort)
        if a.args[0].sort != 0:
            if hi < k: return extract(hi, lo, a.args[0])
            if lo >= k: return bv(w, 0)
            return zext(extract(k-1, lo, a.args[0]), w)
        if lo > 0: return bv(w, 0)
        return zext(a.args[0], w) if w > 1 else raw('extract', w, (a,), (hi, lo))
    if a.op == 'sext' and a.args[0].sort != 0:
        k = a.args[0].sort
        if hi < k: return extract(hi, lo, a.args[0])
        if lo < k: return sext(extract(k-1, lo, a.args[0]), w)
    if a.op == 'concat':
        lo_n = a.args[1].sort
        if hi < lo_n: return extract(hi, lo, a.args[1])
        if lo >= lo_n: return extract(hi-lo_n, lo-lo_n, a.args[0])
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], extract(hi, lo, a.args[1]), extract(hi, lo, a.args[2]))
    if lo == 0 and a.op in ('add', 'sub', 'and', 'or', 'xor', 'mul'):
        # low bits of ring operations depend on low bits only
        return binop(a.op, extract(hi, 0, a.args[0]), extract(hi, 0, a.args[1]))
    if lo == 0 and a.op == 'shl' and is_c(a.args[1]):
        c = a.args[1].p
        return binop('shl', extract(hi, 0, a.args[0]), bv(w, c)) if c < w else bv(w, 0)
    return raw('extract', w, (a,), (hi, lo))
def trunc(a, w):
    if w == 0:
        # i1 as Bool: low bit
        if is_c(a): return boolc(a.p & 1)
        if a.op == 'zext' and a.args[0].sort == 0: return a.args[0]
        return eq(extract(0, 0, a), bv(1, 1))
    return extract(w-1, 0, a)
def zext(a, n):
    if a.sort == 0:
        if is_c(a): return bv(n, a.p)
        return raw('zext', n, (a,))
    if a.sort == n: return a
    if is_c(a): return bv(n, a.p)
    if a.op == 'zext': return zext(a.args[0], n)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    return raw('zext', n, (a,))
def sext(a, n):
    if a.sort == 0:
        if is_c(a): return bv(n, -a.p)
        return ite(a, bv(n, -1), bv(n, 0))
    if a.sort == n: return a
    if is_c(a): return bv(n, sval(a))
    if a.op == 'sext': return sext(a.args[0], n)
    if a.op == 'zext' and a.args[0].sort < a.sort: return zext(a.args[0], n)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return raw('sext', n, (a,))
def concat(hi, lo):
    if is_c(hi) and is_c(lo): return bv(hi.sort+lo.sort, hi.p << lo.sort | lo.p)
    if is_c(hi) and hi.p == 0: return zext(lo, hi.sort+lo.sort)
    if hi.op == 'extract' and lo.op == 'extract' and hi.args[0] is lo.args[0] and hi.p[1] == lo.p[0]+1:
        return extract(hi.p[0], lo.p[1], hi.args[0])
    return raw('concat', hi.sort+lo.sort, (hi, lo))

def _cmpf(op, n, x, y):
    if op[0] == 's': x, y = sgn(x, n), sgn(y, n)
    return x < y if op[1:] == 'lt' else x <= y
def cmp(op, a, b):
    """op in ult ule slt sle."""
    n = a.sort
    if n == 0:
        if op == 'ult': return and_(not_(a), b)
        if op == 'ule': return or_(not_(a), b)
        if op == 'slt': return and_(a, not_(b))
        return or_(a, not_(b))
    if is_c(a) and is_c(b): return boolc(_cmpf(op, n, a.p, b.p))
    if a is b: return boolc(op[1:] == 'le')
    if op == 'ule': return not_(cmp('ult', b, a))
    if op == 'sle': return not_(cmp('slt', b, a))
    if op == 'ult':
        if is_c(b):
            if b.p == 0: return FALSE
            if b.p == 1: return eq(a, bv(n, 0))
            if a.op == 'zext' and a.args[0].sort != 0:
                w = a.args[0].sort
                return TRUE if b.p > mask(w) else cmp('ult', a.args[0], bv(w, b.p))
        if is_c(a):
            if a.p == mask(n): return FALSE
            if a.p == 0: return not_(eq(b, bv(n, 0)))
            if b.op == 'zext' and b.args[0].sort != 0:
                w = b.args[0].sort
                return FALSE if a.p >= mask(w) else cmp('ult', bv(w, a.p), b.args[0])
        if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort != 0:
            return cmp('ult', a.args[0], b.args[0])
    else:
        if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort != 0:
            return cmp('ult', a.args[0], b.args[0])
        if a.op == 'sext' and b.op == 'sext' and a.args[0].sort == b.args[0].sort:
            return cmp('slt', a.args[0], b.args[0])
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'sext' and is_c(y):
                w = x.args[0].sort; v = sval(y)
                lo, hi = -(1 << (w-1)), (1 << (w-1))-1
                if sw == 0:    # x < v
                    if v > hi: return TRUE
                    if v <= lo: return FALSE
                    return cmp('slt', x.args[0], bv(w, v))
                else:          # v < x
                    if v >= hi: return FALSE
                    if v < lo: return TRUE
                    return cmp('slt', bv(w, v), x.args[0])
    return raw(op, 0, (a, b))

def ovf(op, a, b):
    """op in saddo uaddo ssubo usubo smulo umulo."""
    n = a.sort
    if is_c(a) and is_c(b):
        f = {'add': lambda x, y: x+y, 'sub': lambda x, y: x-y, 'mul': lambda x, y: x*y}[op[1:4]]
        if op[0] == 's':
            r = f(sval(a), sval(b)); return boolc(not -(1 << (n-1)) <= r < 1 << (n-1))
        r = f(a.p, b.p); return boolc(not 0 <= r <= mask(n))
    if op[1:4] in ('add', 'mul') and (is_c(a) or (not is_c(b) and a.id > b.id)): a, b = b, a
    if is_c(b) and b.p == 0: return FALSE
    if is_c(b) and b.p == 1 and op[1:4] == 'mul': return FALSE
    if op == 'usubo': return cmp('ult', a, b)
    return raw(op, 0, (a, b))

# ---------------------------------------------------------------- floats
def _ff(sort):
    return np.float32 if sort == 'f32' else np.float64
def _fold_f(op, sort, xs):
    ft = _ff(sort)
    vs = [ft(b2f(sort, x)) for x in xs]
    with np.errstate(all='ignore'):
        if op == 'fadd': r = vs[0]+vs[1]
        elif op == 'fsub': r = vs[0]-vs[1]
        elif op == 'fmul': r = vs[0]*vs[1]
        elif op == 'fdiv': r = vs[0]/vs[1]
        elif op == 'frem':
            r = ft(math.fmod(vs[0], vs[1])) if math.isfinite(vs[0]) and vs[1] != 0 and not math.isnan(vs[1]) else ft('nan')
        elif op == 'fsqrt': r = np.sqrt(vs[0])
        elif op in ('ffloor', 'fceil', 'ftrunc', 'frint'):
            r = {'ffloor': np.floor, 'fceil': np.ceil, 'ftrunc': np.trunc, 'frint': np.rint}[op](vs[0])
        else: raise KeyError(op)
    return f2b(sort, r)
def _pow2(t):
    """exact power of two whose reciprocal is normal"""
    e, f = (8, 23) if t.sort == 'f32' else (11, 52)
    m = t.p & mask(f); ex = t.p >> f & mask(e); bias = mask(e-1)
    return m == 0 and 1 <= ex <= 2*bias-1 and ex != 0
def fop(op, *a):
    sort = a[0].sort
    assert isinstance(sort, str), (op, a)
    if all(is_c(x) for x in a): return fbits(sort, _fold_f(op, sort, [x.p for x in a]))
    if op in ('fadd', 'fmul'):
        x, y = a
        if is_c(x) or (not is_c(y) and x.id > y.id): x, y = y, x
        if op == 'fmul':
            # signs out of products
            if x.op == 'fneg' and y.op == 'fneg': return fop('fmul', x.args[0], y.args[0])
            if is_c(y) and y.p == f2b(sort, 1.0): return x
            if is_c(y) and y.p == f2b(sort, -1.0): return fneg(x)
            if x.op == 'fneg': return fneg(fop('fmul', x.args[0], y))
            if y.op == 'fneg': return fneg(fop('fmul', x, y.args[0]))
        else:
            # x + (-y) = x - y ; keep subtraction as the normal form
            if y.op == 'fneg' and x.op != 'fneg': return fop('fsub', x, y.args[0])
            if x.op == 'fneg' and y.op != 'fneg': return fop('fsub', y, x.args[0])
            if is_c(y) and y.p == f2b(sort, -0.0): return x
        a = (x, y)
    elif op == 'fsub':
        x, y = a
        if y.op == 'fneg': return fop('fadd', x, y.args[0])
        if is_c(y) and not is_c(x): return fop('fadd', x, fneg(y))
        if is_c(x) and x.p == f2b(sort, -0.0): return fneg(y)
    elif op == 'fdiv':
        x, y = a
        if is_c(y) and _pow2(y):
            return fop('fmul', x, fbits(sort, _fold_f('fdiv', sort, [f2b(sort, 1.0), y.p])))
        if x.op == 'fneg' and y.op == 'fneg': return fop('fdiv', x.args[0], y.args[0])
        if x.op == 'fneg': return fneg(fop('fdiv', x.args[0], y))
        if y.op == 'fneg': return fneg(fop('fdiv', x, y.args[0]))
    return raw(op, sort, a)
def fneg(a):
    if is_c(a): return fbits(a.sort, a.p ^ (1 << (width(a.sort)-1)))
    if a.op == 'fneg': return a.args[0]
    return raw('fneg', a.sort, (a,))
def fabs_(a):
    if is_c(a): return fbits(a.sort, a.p & mask(width(a.sort)-1))
    if a.op in ('fabs', ): return a
    if a.op == 'fneg': return fabs_(a.args[0])
    return raw('fabs', a.sort, (a,))
def fcmp(op, a, b):
    """op in feq flt fle (ordered)"""
    if is_c(a) and is_c(b):
        x, y = fval(a), fval(b)
        return boolc({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op])
    if op == 'feq' and a.id > b.id: a, b = b, a
    if a is b:
        return FALSE if op == 'flt' else not_(isnan(a))
    # x < c on floats that are integer conversions etc. left to the solver
    return raw(op, 0, (a, b))
def isnan(a):
    if is_c(a): return boolc(math.isnan(fval(a)))
    if a.op in ('fneg', 'fabs'): return isnan(a.args[0])
    return raw('isnan', 0, (a,))
def isneg(a):
    """sign bit"""
    if is_c(a): return boolc(a.p >> (width(a.sort)-1))
    b = f_to_bits(a)
    return eq(extract(b.sort-1, b.sort-1, b), bv(1, 1))
def f_to_bits(a):
    if is_c(a): return bv(width(a.sort), a.p)
    if a.op == 'bitsf': return a.args[0]
    if a.op == 'ite': return ite(a.args[0], f_to_bits(a.args[1]), f_to_bits(a.args[2]))
    n = width(a.sort)
    if a.op == 'fneg': return binop('xor', f_to_bits(a.args[0]), bv(n, 1 << (n-1)))
    if a.op == 'fabs': return binop('and', f_to_bits(a.args[0]), bv(n, mask(n-1)))
    return raw('fbits', n, (a,))
def bits_to_f(a):
    sort = 'f32' if a.sort == 32 else 'f64'
    if is_c(a): return fbits(sort, a.p)
    if a.op == 'fbits': return a.args[0]
    n = a.sort
    if a.op == 'xor' and is_c(a.args[1]) and a.args[1].p == 1 << (n-1): return fneg(bits_to_f(a.args[0]))
    if a.op == 'zext' and a.args[0].sort == n-1 and a.args[0].op == 'extract' and a.args[0].p == (n-2, 0):
        return fabs_(bits_to_f(a.args[0].args[0]))
    return raw('bitsf', sort, (a,))

def _round_to(sort, num, den_pow):
    """RNE of integer num * 2^-den_pow to float bits (exact rational)."""
    from fractions import Fraction
    return frac_to_bits(sort, Fraction(num, 1 << den_pow))
def frac_to_bits(sort, q, neg_zero=False):
    p, emin, emax, bits = (24, -126, 127, 32) if sort == 'f32' else (53, -1022, 1023, 64)
    if q == 0: return (1 << (bits-1)) if neg_zero else 0
    s = 1 if q < 0 else 0
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if q < (2**e if e >= 0 else __import__('fractions').Fraction(1, 2**-e)): e -= 1
    e = max(e, emin)
    sc = q / (2**(e-p+1)) if e-p+1 >= 0 else q * 2**(-(e-p+1))
    n = sc.numerator // sc.denominator; r = sc - n
    from fractions import Fraction as F
    if r > F(1, 2) or (r == F(1, 2) and n & 1): n += 1
    if n == 1 << p: n >>= 1; e += 1
    if e > emax: v = ((2*emax+1) if sort == 'f32' else 2047) << (p-1); v = (255 << 23) if sort == 'f32' else (2047 << 52)
    elif n < 1 << (p-1): v = n
    else: v = (e-emin+1) << (p-1) | (n - (1 << (p-1)))
    return v | s << (bits-1)
def tofp(signed, a, sort):
    """integer to float, RNE"""
    if a.sort == 0: a = zext(a, 8)
    if is_c(a): return fbits(sort, _round_to(sort, sval(a) if signed else a.p, 0))
    if signed and a.op == 'zext' and (a.args[0].sort == 0 or a.args[0].sort < a.sort): signed = False
    if signed and a.op == 'sext': a = a.args[0]
    if not signed and a.op == 'zext' and a.args[0].sort != 0: a = a.args[0]
    return raw('sitofp' if signed else 'uitofp', sort, (a,))
def toint_sat(signed, a, n):
    """float to integer: truncate toward zero, saturate, NaN -> 0"""
    if is_c(a):
        x = fval(a)
        lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if signed else (0, mask(n))
        if math.isnan(x): v = 0
        elif math.isinf(x): v = hi if x > 0 else lo
        else: v = max(lo, min(hi, int(x)))
        return bv(n, v)
    return raw('ftosi_sat' if signed else 'ftoui_sat', n, (a,))
def fpconv(a, sort):
    if a.sort == sort: return a
    if is_c(a):
        with np.errstate(all='ignore'):
            return fbits(sort, f2b(sort, _ff(sort)(b2f(a.sort, a.p))))
    if a.op == 'fneg': return fneg(fpconv(a.args[0], sort))
    if a.op == 'fabs': return fabs_(fpconv(a.args[0], sort))
    if sort == 'f32' and a.op == 'fpext': return a.args[0]
    return raw('fpext' if sort == 'f64' else 'fptrunc', sort, (a,))
def uf(name, sort, *args):
    return raw('uf', sort, args, name)

# ---------------------------------------------------------------- traversal
def topo(roots):
    out = []; seen = set(); st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id); st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out
def free_vars(roots): return [t for t in topo(roots) if t.op == 'var']

def rebuild(t, args):
    o, s, p = t.op, t.sort, t.p
    if o in ('const', 'var'): return t
    if o == 'not': return not_(*args)
    if o == 'and' and s == 0: return and_(*args)
    if o == 'or' and s == 0: return or_(*args)
    if o == 'xorb': return xor_(*args)
    if o == 'ite': return ite(*args)
    if o == 'eq': return eq(*args)
    if o in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        return binop(o, *args)
    if o == 'extract': return extract(p[0], p[1], args[0])
    if o == 'zext': return zext(args[0], s)
    if o == 'sext': return sext(args[0], s)
    if o == 'concat': return concat(*args)
    if o in ('ult', 'slt', 'ule', 'sle'): return cmp(o, *args)
    if o in ('saddo', 'uaddo', 'ssubo', 'usubo', 'smulo', 'umulo'): return ovf(o, *args)
    if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fsqrt', 'ffloor', 'fceil', 'ftrunc', 'frint'): return fop(o, *args)
    if o == 'fneg': return fneg(*args)
    if o == 'fabs': return fabs_(*args)
    if o in ('feq', 'flt', 'fle'): return fcmp(o, *args)
    if o == 'isnan': return isnan(*args)
    if o == 'fbits': return f_to_bits(*args)
    if o == 'bitsf': return bits_to_f(*args)
    if o in ('sitofp', 'uitofp'): return tofp(o == 'sitofp', args[0], s)
    if o in ('ftosi_sat', 'ftoui_sat'): return toint_sat(o == 'ftosi_sat', args[0], s)
    if o in ('fpext', 'fptrunc'): return fpconv(args[0], s)
    return raw(o, s, args, p)

def substitute(roots, m):
    """m: dict id -> Term; returns list"""
    memo = dict(m)
    for t in topo(roots):
        if t.id in memo: continue
        args = tuple(memo[a.id] for a in t.args)
        memo[t.id] = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    return [memo[r.id] for r in roots]

def evaluate(roots, env):
    """env: var name -> int bits; returns list of Terms (constants when everything is defined)."""
    m = {}
    for t in topo(roots):
        if t.op == 'var' and t.p in env:
            v = env[t.p]
            m[t.id] = boolc(v) if t.sort == 0 else fbits(t.sort, v & mask(width(t.sort))) if isinstance(t.sort, str) else bv(t.sort, v)
    return substitute(roots, m)

class Eval:
    """evaluation at one environment, keeping the values of shared subterms"""
    def __init__(s, env): s.env = env; s.memo = {}
    def __call__(s, t):
        memo = s.memo; st = [t]
        while st:
            u = st[-1]
            if u.id in memo: st.pop(); continue
            todo = [a for a in u.args if a.id not in memo]
            if todo: st += todo; continue
            st.pop()
            if u.op == 'var' and u.p in s.env:
                v = s.env[u.p]
                memo[u.id] = boolc(v) if u.sort == 0 else fbits(u.sort, v & mask(width(u.sort))) if isinstance(u.sort, str) else bv(u.sort, v)
            else:
                args = tuple(memo[a.id] for a in u.args)
                memo[u.id] = u if all(x is y for x, y in zip(args, u.args)) else rebuild(u, args)
        return memo[t.id]
