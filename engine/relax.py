"""Sound real-number relaxation of bit-vector and floating-point terms along one path.

Every term gets a Node: a polynomial over real variables (the inputs, and quotients defined by q*b = a), an interval that
contains the computed value, and a bound err >= |computed value - polynomial|.  Truncations, divisions and floating-point
roundings add to err; wrap-around is excluded (or undone) by the intervals.  Path conditions refine the intervals and are
kept as polynomial constraints, weakened by the error bounds.  So "constraints and negated claim (claim tightened by err)"
being unsatisfiable over the reals implies the claim for every input that takes the path.
"""
import time, z3
from fractions import Fraction as Fr
from math import floor, ceil
from . import terms as T, solve

class Unk(Exception): pass
class NeedSplit(Exception):
    def __init__(s, c): s.c = c
class Contra(Exception): pass

# ---------------------------------------------------------------- polynomials: {((var, exp), ...): Fraction}
def pconst(c): return {(): Fr(c)} if c else {}
def pvar(v): return {((v, 1),): Fr(1)}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s*c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pscale(a, k): return {m: c*k for m, c in a.items()} if k else {}
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            if not m: k = n
            elif not n: k = m
            else:
                e = dict(m)
                for v, x in n: e[v] = e.get(v, 0)+x
                k = tuple(sorted(e.items()))
            x = r.get(k, 0)+c*d
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def paffine(p):
    """(var or None, slope, offset) for affine univariate polynomials, else None"""
    v = None; k = Fr(0); o = Fr(0)
    for m, c in p.items():
        if not m: o = c
        elif len(m) == 1 and m[0][1] == 1 and v is None: v = m[0][0]; k = c
        else: return None
    return v, k, o
def pvars(p): return {v for m in p for v, _ in m}
def pkey(p): return tuple(sorted(p.items()))
def pz3(p, env):
    r = []
    for m, c in p.items():
        t = z3.RealVal(c)
        for v, e in m:
            for _ in range(e): t = t*env[v] if t is not None else env[v]
        r.append(t)
    return z3.Sum(r) if r else z3.RealVal(0)
def peval(p, env):
    r = Fr(0)
    for m, c in p.items():
        for v, e in m: c = c*env[v]**e
        r += c
    return r

def rup(x, bits=48):
    """a short rational >= x"""
    if not x: return x
    n, d = x.numerator, x.denominator
    if n.bit_length() <= bits and d.bit_length() <= 4*bits and d & (d-1) == 0: return x
    e = abs(n).bit_length()-d.bit_length()-bits      # keep `bits` significant bits
    q = x/(Fr(2)**e)
    return Fr(-((-q.numerator)//q.denominator))*Fr(2)**e
def rdn(x, bits=80): return -rup(-x, bits)
class Node:
    __slots__ = ('p', 'lo', 'hi', 'err')
    def __init__(s, p, lo, hi, err=Fr(0)): s.p, s.lo, s.hi, s.err = p, lo, hi, err
    def __repr__(s): return f'Node({[(m, float(c)) for m, c in s.p.items()]} in [{float(s.lo)},{float(s.hi)}] err {float(s.err)})'
    def mx(s): return max(abs(s.lo), abs(s.hi))
    def mn(s): return Fr(0) if s.lo <= 0 <= s.hi else min(abs(s.lo), abs(s.hi))
def nconst(c): c = Fr(c); return Node(pconst(c), c, c)

U = {'f32': Fr(1, 1 << 24), 'f64': Fr(1, 1 << 53)}
TINY = {'f32': Fr(1, 1 << 150), 'f64': Fr(1, 1 << 1075)}
MINN = {'f32': Fr(1, 1 << 126), 'f64': Fr(1, 1 << 1022)}
FMAX = {'f32': Fr((1 << 24)-1)*(1 << 104), 'f64': Fr((1 << 53)-1)*(1 << 971)}
def fexactly(q, st):
    """q is a normal float of sort st"""
    if not q: return True
    n, d = abs(q.numerator), q.denominator
    if d & (d-1): return False
    k = n.bit_length()-d.bit_length()
    return (n >> ((n & -n).bit_length()-1)).bit_length() <= (24 if st == 'f32' else 53) and MINN[st] <= abs(q) <= FMAX[st]
def fgap(n, st):
    """least distance from the constant n to another float"""
    q = abs(n.lo)
    if n.lo != n.hi or n.err: return Fr(0)
    if not q: return 2*TINY[st]          # floats are multiples of the least subnormal
    e = q.numerator.bit_length()-q.denominator.bit_length()-1          # 2^e <= q
    return max(Fr(2)**e*U[st], 2*TINY[st])
def ispow2(c):
    c = abs(c); return c.numerator & (c.numerator-1) == 0 and c.denominator & (c.denominator-1) == 0

class Ctx:
    """facts implied by a path condition"""
    def __init__(s, inputs):
        """inputs: {name: ('f32'|'f64', None) or (bits, signed)}"""
        s.inputs = inputs; s.b = {}; s.forced = {}; s.cons = []; s.quo = {}; s.qdef = {}; s.cache = {}; s.nq = [0]; s.ord = {}; s.mv = {}; s.nov = set(); s.truth = {}; s.ckeys = set()
        for n, (k, sg) in inputs.items():
            if isinstance(k, str): s.b[n] = (-FMAX[k], FMAX[k])
            else: s.b[n] = (Fr(-(1 << (k-1))), Fr((1 << (k-1))-1)) if sg else (Fr(0), Fr((1 << k)-1))
    def child(s):
        c = Ctx.__new__(Ctx); c.inputs = s.inputs; c.b = dict(s.b); c.forced = dict(s.forced); c.cons = list(s.cons)
        c.quo = dict(s.quo); c.qdef = dict(s.qdef); c.cache = dict(s.cache); c.nq = s.nq; c.ord = dict(s.ord); c.mv = {}; c.nov = set(s.nov); c.truth = dict(s.truth); c.ckeys = set(s.ckeys)
        return c
    def isint(s, v): return v in s.inputs and not isinstance(s.inputs[v][0], str)

    # ------------------------------------------------------------ nodes
    def tight(s, n, integer):
        """intersect with the image of the polynomial where that is an affine function of one variable"""
        a = paffine(n.p)
        lo, hi = n.lo, n.hi
        if a is not None:
            v, k, o = a
            if v is None: l = h = o
            else:
                bl, bh = s.b[v]; l, h = (k*bl+o, k*bh+o) if k > 0 else (k*bh+o, k*bl+o)
            lo = max(lo, l-n.err); hi = min(hi, h+n.err)
        if integer: lo = Fr(ceil(lo)); hi = Fr(floor(hi))
        if lo > hi: raise Contra()
        n.lo, n.hi = lo, hi
        return n
    def fin(s, key, n, integer):
        f = s.forced.get(key)
        if f: n = Node(n.p, max(n.lo, f[0]), min(n.hi, f[1]), n.err)
        return s.tight(n, integer)
    def get(s, t, view):
        key = (t.id, view); r = s.cache.get(key)
        if r is not None:
            if isinstance(r, Unk): raise Unk(*r.args)
            return r
        try:
            r = s.node_f(t) if view == 'F' else s.node_bv(t, view)
            r = s.fin(key, r, view != 'F')
        except Unk as e:
            s.cache[key] = Unk(*e.args); raise
        s.cache[key] = r
        return r
    def S(s, t): return s.get(t, 'S')
    def U(s, t): return s.get(t, 'U')
    def rep(s, t):
        try: x = s.get(t, 'S')
        except Unk: return s.get(t, 'U')
        try: y = s.get(t, 'U')
        except Unk: return x
        return y if y.hi-y.lo < x.hi-x.lo else x
    def modv(s, t, m):
        """some integer congruent to t modulo 2^m"""
        try: return s.rep(t)
        except Unk as e: why = e
        k = (t.id, m); r = s.mv.get(k)
        if r is None:
            try: r = s.modv1(t, m)
            except Unk as e: r = Unk(*(why if e.args == (t.op,) else e).args)
            s.mv[k] = r
        if isinstance(r, Unk): raise Unk(*r.args)
        return r
    def modv1(s, t, m):
        if t.op in ('add', 'sub', 'mul'):
            a, b = s.modv(t.args[0], m), s.modv(t.args[1], m)
            return s.arith(t.op, a, b)
        if t.op in ('zext', 'sext') and m <= t.args[0].sort: return s.modv(t.args[0], m)
        if t.op == 'extract' and t.p[1] == 0: return s.modv(t.args[0], m)
        if t.op == 'shl' and T.is_c(t.args[1]): return s.scale(s.modv(t.args[0], max(m-t.args[1].p, 1)), Fr(1 << t.args[1].p))
        raise Unk(t.op)
    def arith(s, op, a, b):
        if op == 'mul':
            c = [a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi]
            lo, hi = min(c), max(c)
            if a is b or (a.p == b.p and a.err == 0 and b.err == 0): lo = a.mn()**2
            return Node(pmul(a.p, b.p), lo, hi, rup(a.err*b.mx()+b.err*a.mx()+a.err*b.err))
        if op == 'add': r = Node(padd(a.p, b.p), a.lo+b.lo, a.hi+b.hi, a.err+b.err)
        else:
            r = Node(padd(a.p, b.p, -1), a.lo-b.hi, a.hi-b.lo, a.err+b.err)
        q = paffine(r.p)
        if q is not None:
            x = Node(r.p, r.lo, r.hi, r.err)
            try: r = s.tight(x, False)
            except Contra: raise
        return r
    def ordered(s, o, r, a, view):
        """use a recorded comparison of the operands of a difference"""
        if o in ('sub', 'fsub') and view:
            k = s.ord.get((a[1].id, a[0].id, view))
            if k is not None and r.lo < k: r = Node(r.p, min(Fr(k), r.hi), r.hi, r.err)
            k = s.ord.get((a[0].id, a[1].id, view))
            if k is not None and r.hi > -k: r = Node(r.p, r.lo, max(Fr(-k), r.lo), r.err)
        return r
    def scale(s, a, k): return Node(pscale(a.p, k), min(a.lo*k, a.hi*k), max(a.lo*k, a.hi*k), a.err*abs(k))
    def wrap(s, m, n, view):
        base = -(1 << (n-1)) if view == 'S' else 0
        m = s.tight(Node(m.p, m.lo, m.hi, m.err), True)
        k = (m.lo-base)//(1 << n); k2 = (m.hi-base)//(1 << n)
        if k != k2: raise Unk('wrap')
        if k: m = Node(padd(m.p, pconst(-k*(1 << n))), m.lo-k*(1 << n), m.hi-k*(1 << n), m.err)
        return m
    def floordiv(s, m, d):
        if d == 1: return m
        if m.err == 0 and all((c/d).denominator == 1 for c in m.p.values()) and all(s.isint(v) for v in pvars(m.p)):
            return Node(pscale(m.p, Fr(1, d)), m.lo/d, m.hi/d)
        c = (1-Fr(1, d))/2
        return Node(padd(pscale(m.p, Fr(1, d)), pconst(-c)), Fr(floor(m.lo/d)), Fr(floor(m.hi/d)), m.err/d+c)
    def truncdiv(s, m, d):
        if d < 0: m = s.scale(m, -1); d = -d
        if m.lo >= 0: return s.floordiv(m, d)
        if m.hi <= 0: return s.scale(s.floordiv(s.scale(m, -1), d), -1)
        if m.err == 0 and all((c/d).denominator == 1 for c in m.p.values()) and all(s.isint(v) for v in pvars(m.p)):
            return Node(pscale(m.p, Fr(1, d)), m.lo/d, m.hi/d)
        tr = lambda x: Fr(floor(x)) if x >= 0 else Fr(ceil(x))
        return Node(pscale(m.p, Fr(1, d)), tr(m.lo/d), tr(m.hi/d), m.err/d+1-Fr(1, d))
    def quotient(s, a, b):
        """real quotient of the exact polynomials: (poly, lo, hi, err) with err bounding |a/b computed operands - poly|"""
        if b.lo <= 0 <= b.hi: raise NeedSplitZero()
        bmin = b.mn()-b.err
        # corner bound on the quotient of the computed values
        c = [a.lo/b.lo, a.lo/b.hi, a.hi/b.lo, a.hi/b.hi]; lo, hi = min(c), max(c)
        if not a.p or not any(m for m in b.p):
            if bmin <= 0: raise Unk('division')
            k = b.p.get((), Fr(0))
            if not k: raise Unk('division')
            p = pscale(a.p, 1/k)
            return p, lo, hi, (a.err+max(abs(lo), abs(hi))*b.err)/abs(k)
        if bmin <= 0: raise Unk('division')
        def norm(p):
            m = max(p); return p[m], pscale(p, 1/p[m])
        ka, pa = norm(a.p); kb, pb = norm(b.p)
        key = (pkey(pa), pkey(pb))
        if key not in s.quo:
            v = f'q{s.nq[0]}'; s.nq[0] += 1
            s.quo[key] = v; s.qdef[v] = (pa, pb)
            e = (a.err+max(abs(lo), abs(hi))*b.err)/bmin
            l, h = (lo-e)*kb/ka, (hi+e)*kb/ka
            s.b[v] = (min(l, h), max(l, h))
            s.bound1(v)
        v = s.quo[key]
        bl, bh = s.b[v]; k = ka/kb
        ql, qh = (bl*k, bh*k) if k > 0 else (bh*k, bl*k)
        err = Fr(0)
        if a.err or b.err:
            err = (a.err+max(abs(ql), abs(qh))*b.err)/bmin
        return pscale(pvar(v), k), max(lo, ql-err), min(hi, qh+err), err
    def bound1(s, v):
        """try |v| <= 1"""
        l, h = s.b[v]
        if l < -1 or h > 1:
            sol, env = s.solver([v]); sol.set('timeout', 3000)
            x = env[v]
            if s.ask(sol, [z3.Or(x > 1, x < -1)]) == 'unsat': s.b[v] = (max(l, Fr(-1)), min(h, Fr(1)))
    def node_bv(s, t, view):
        o = t.op; n = t.sort
        if n == 0: raise Unk('bool')
        if o == 'const': return nconst(T.sgn(t.p, n) if view == 'S' else t.p)
        if o == 'var':
            if t.p not in s.inputs or isinstance(s.inputs[t.p][0], str): raise Unk('var')
            lo, hi = s.b[t.p]; return s.wrap(Node(pvar(t.p), lo, hi), n, view)
        a = t.args
        if o == 'sext': return s.wrap(s.S(a[0]), n, view)
        if o == 'zext':
            if a[0].sort == 0: return nconst(1 if s.need(a[0]) else 0)
            return s.wrap(s.U(a[0]), n, view)
        if o in ('add', 'sub', 'mul'):
            last = None
            for v in ('SU' if view == 'S' else 'US'):      # an operation known not to overflow
                if (v.lower()+o+'o', a[0].id, a[1].id) in s.nov or (o != 'sub' and (v.lower()+o+'o', a[1].id, a[0].id) in s.nov):
                    try: r = s.ordered(o, s.arith(o, s.get(a[0], v), s.get(a[1], v)), a, v)
                    except Unk: continue
                    lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if v == 'S' else (0, (1 << n)-1)
                    r = Node(r.p, max(r.lo, Fr(lo)), min(r.hi, Fr(hi)), r.err)
                    if r.lo > r.hi: raise Contra()
                    try: return s.wrap(r, n, view)
                    except Unk: pass
            for f in (((s.S, s.S), (s.U, s.U)) if view == 'S' else ((s.U, s.U), (s.S, s.S)))+((s.S, s.U), (s.U, s.S)):
                try: return s.wrap(s.ordered(o, s.arith(o, f[0](a[0]), f[1](a[1])), a, '' if f[0] != f[1] else 'S' if f[0] == s.S else 'U'), n, view)
                except Unk as e: last = e
            return s.wrap(s.arith(o, s.modv(a[0], n), s.modv(a[1], n)), n, view)
        if o == 'shl' and T.is_c(a[1]):
            k = a[1].p
            return s.wrap(s.scale(s.modv(a[0], n-k), Fr(1 << k)), n, view)
        if o == 'lshr' and T.is_c(a[1]): return s.wrap(s.floordiv(s.U(a[0]), 1 << a[1].p), n, view)
        if o == 'ashr' and T.is_c(a[1]): return s.wrap(s.floordiv(s.S(a[0]), 1 << a[1].p), n, view)
        if o == 'extract':
            hi, lo = t.p
            return s.wrap(s.floordiv(s.modv(a[0], hi+1), 1 << lo), n, view)
        if o == 'concat': return s.wrap(s.arith('add', s.scale(s.rep(a[0]), Fr(1 << a[1].sort)), s.U(a[1])), n, view)
        if o in ('sdiv', 'udiv'):
            f = s.S if o == 'sdiv' else s.U
            x, y = f(a[0]), f(a[1])
            if y.lo == y.hi and y.lo: return s.wrap(s.truncdiv(x, int(y.lo)), n, view)
            try: p, lo, hi, err = s.quotient(x, y)
            except NeedSplitZero: raise Unk('divisor may be zero')
            tr = lambda x: Fr(floor(x)) if x >= 0 else Fr(ceil(x))
            if lo >= 0: p = padd(p, pconst(Fr(-1, 2))); e = Fr(1, 2)
            elif hi <= 0: p = padd(p, pconst(Fr(1, 2))); e = Fr(1, 2)
            else: e = Fr(1)
            return s.wrap(Node(p, tr(lo), tr(hi), err+e), n, view)
        if o == 'and' and T.is_c(a[1]):
            c = a[1].p
            if c & (c+1) == 0: return s.wrap(s.wrap(s.modv(a[0], c.bit_length()), c.bit_length(), 'U'), n, view)
            inv = T.mask(n) & ~c
            if inv & (inv+1) == 0:
                k = inv.bit_length(); return s.wrap(s.scale(s.floordiv(s.rep(a[0]), 1 << k), Fr(1 << k)), n, view)
        if o == 'xor' and T.is_c(a[1]) and a[1].p == T.mask(n):
            return s.wrap(s.arith('sub', nconst(-1), s.rep(a[0])), n, view)
        if o == 'or' and T.is_c(a[1]):
            c = a[1].p; tz = (c & -c).bit_length()-1
            x = s.U(a[0])
            if x.hi < (1 << tz): return s.wrap(s.arith('add', x, nconst(c)), n, view)
        if o == 'ite': return s.get(a[1] if s.need(a[0]) else a[2], view)
        raise Unk(o)
    def node_f(s, t):
        o = t.op; a = t.args; st = t.sort
        if o == 'const':
            q = float(T.b2f(st, t.p))
            if q != q or q in (float('inf'), float('-inf')): raise Unk('non-finite constant')
            return nconst(Fr(q))
        if o == 'bitsf' and a[0].op == 'var':
            v = a[0].p; lo, hi = s.b[v]; return Node(pvar(v), lo, hi)
        if o == 'fneg': return s.scale(s.get(a[0], 'F'), Fr(-1))
        if o == 'fabs':
            x = s.get(a[0], 'F')
            if x.lo >= 0: return x
            if x.hi <= 0: return s.scale(x, Fr(-1))
            raise NeedSplit(T.fcmp('flt', a[0], T.fc(st, 0.0)))
        if o == 'ite': return s.get(a[1] if s.need(a[0]) else a[2], 'F')
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = s.get(a[0], 'F'), s.get(a[1], 'F')
            if o == 'fadd' and a[0] is a[1]: return s.fexact(s.scale(x, Fr(2)), st, True)
            if o == 'fdiv':
                if y.lo == y.hi and y.lo:
                    r = s.scale(x, 1/y.lo)
                    if ispow2(y.lo): return s.fexact(r, st, abs(y.lo) <= 1)
                else:
                    try: p, lo, hi, err = s.quotient(x, y)
                    except NeedSplitZero: raise Unk('divisor may be zero')
                    r = Node(p, lo, hi, err)
            elif o == 'fmul':
                for u, w in ((x, y), (y, x)):
                    if u.lo == u.hi and u.err == 0 and u.lo and ispow2(u.lo): return s.fexact(s.scale(w, u.lo), st, abs(u.lo) >= 1)
                r = s.arith('mul', x, y)
            else:
                r = s.ordered(o, s.arith('add' if o == 'fadd' else 'sub', x, y), a, 'F')
                if (x.lo == x.hi == 0) or (y.lo == y.hi == 0): return r
            return s.fround(r, st, TINY[st] if o in ('fmul', 'fdiv') else 0)
        if o == 'fpext': return s.get(a[0], 'F')
        if o == 'fptrunc': return s.fround(s.get(a[0], 'F'), st, TINY[st])
        raise Unk(o)
    def fround(s, r, st, tiny):
        m = r.mx()
        if m > FMAX[st]: raise Unk('overflow')
        u = U[st]
        # an exactly representable bound stays: rounding is monotone
        lo = r.lo if fexactly(r.lo, st) else rdn(r.lo - (abs(r.lo)*u+tiny)); hi = r.hi if fexactly(r.hi, st) else rup(r.hi + (abs(r.hi)*u+tiny), 80)
        return Node(r.p, lo, hi, rup(r.err+m*u+tiny))
    def fexact(s, r, st, up=False):
        """scaled by a power of two; up: not towards zero, which is exact for subnormal numbers too"""
        if r.mx() > FMAX[st]: raise Unk('overflow')
        if up or r.mn() >= MINN[st]: return r
        return Node(r.p, r.lo-TINY[st] if r.lo else r.lo, r.hi+TINY[st] if r.hi else r.hi, r.err+TINY[st])

    # ------------------------------------------------------------ conditions
    def need(s, c):
        d = s.decide(c)
        if d is None: raise NeedSplit(s.open_atom(c))
        return d
    def open_atom(s, c):
        if c.op == 'not': return s.open_atom(c.args[0])
        if c.op in ('and', 'or', 'xorb') and c.sort == 0:
            for x in c.args:
                if s.decide(x) is None: return s.open_atom(x)
        return c
    def cmpnodes(s, t):
        """(a, b, integer, term ids) for comparison atoms"""
        o = t.op; a = t.args
        if o in ('flt', 'fle', 'feq'):
            x, y = a
            for u, w, fl in ((x, y, 0), (y, x, 1)):
                if T.is_c(w) and T.fval(w) == 0.0 and u.op == 'fsub':   # gradual underflow: the sign of a-b is that of the comparison
                    x, y = u.args if not fl else u.args[::-1]; break
            return s.get(x, 'F'), s.get(y, 'F'), False, ((x.id, 'F'), (y.id, 'F'))
        if o == 'slt': return s.S(a[0]), s.S(a[1]), True, ((a[0].id, 'S'), (a[1].id, 'S'))
        if o == 'ult': return s.U(a[0]), s.U(a[1]), True, ((a[0].id, 'U'), (a[1].id, 'U'))
        if o == 'eq':
            if isinstance(a[0].sort, str): raise Unk('float identity')
            if a[0].sort == 0: raise Unk('bool')
            try: return s.S(a[0]), s.S(a[1]), True, ((a[0].id, 'S'), (a[1].id, 'S'))
            except Unk: return s.U(a[0]), s.U(a[1]), True, ((a[0].id, 'U'), (a[1].id, 'U'))
        raise Unk(o)
    def diff(s, a, b):
        lo, hi = a.lo-b.hi, a.hi-b.lo
        p = padd(a.p, b.p, -1); f = paffine(p)
        if f is not None:
            v, k, o = f; e = a.err+b.err
            if v is None: l = h = o
            else:
                bl, bh = s.b[v]; l, h = (k*bl+o, k*bh+o) if k > 0 else (k*bh+o, k*bl+o)
            lo = max(lo, l-e); hi = min(hi, h+e)
        return lo, hi, p
    def fits(s, t):
        """eq atoms stating that z fits in m signed bits -> (z, m)"""
        if t.op != 'eq': return None
        for L, R in (t.args, t.args[::-1]):
            if isinstance(R.sort, str) or R.sort == 0: return None
            if R.op == 'ashr' and T.is_c(R.args[1]) and R.args[1].p == R.sort-1 and R.args[0].op == 'shl' and T.is_c(R.args[0].args[1]):
                z = R.args[0].args[0]; m = R.sort-R.args[0].args[1].p
            elif R.op in ('ashr', 'sext') and False: continue
            else: continue
            if L.op == 'ashr' and L.args[0] is z and T.is_c(L.args[1]) and L.args[1].p in (m, m-1): return z, m
            if L.op in ('zext', 'sext') and L.args[0].op == 'extract' and L.args[0].args[0] is z and L.args[0].p == (z.sort-1, m): return z, m
            if L.op == 'lshr' and L.args[0] is z and T.is_c(L.args[1]) and L.args[1].p == m: return z, m
        # extract form: hi part == replicated sign of the low part
        for L, R in (t.args, t.args[::-1]):
            if L.op == 'extract' and R.op == 'ashr' and T.is_c(R.args[1]) and R.args[1].p == R.sort-1 and R.args[0].op == 'extract' and R.args[0].args[0] is L.args[0]:
                z = L.args[0]
                if L.p == (z.sort-1, L.p[1]) and R.args[0].p == (L.p[1]-1, 0): return z, L.p[1]
        return None
    def rng(s, t):
        """range test ult(x + c, k) -> (x, lowest, highest) where x in [lowest, highest] as a signed number"""
        if t.op == 'ult' and T.is_c(t.args[1]) and t.args[0].op == 'add' and T.is_c(t.args[0].args[1]) and t.args[1].p:
            n = t.args[0].sort; x = t.args[0].args[0]; lo = T.sgn(-t.args[0].args[1].p & T.mask(n), n); hi = lo+t.args[1].p-1
            if hi < 1 << (n-1): return x, lo, hi
        return None
    def ovf(s, t):
        o = t.op; f = s.S if o[0] == 's' else s.U; n = t.args[0].sort
        r = s.arith({'add': 'add', 'sub': 'sub', 'mul': 'mul'}[o[1:4]], f(t.args[0]), f(t.args[1]))
        lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if o[0] == 's' else (0, (1 << n)-1)
        return r, lo, hi
    def decide(s, c, split=None):
        """True, False or None; conditions on which a split would help are appended to `split`"""
        o = c.op
        if o == 'const': return bool(c.p)
        if c.id in s.truth: return s.truth[c.id]
        if o == 'not': d = s.decide(c.args[0], split); return None if d is None else not d
        if o == 'and':
            r = True
            for x in c.args:
                d = s.decide(x, split)
                if d is False: return False
                if d is None: r = None
            return r
        if o == 'or':
            r = False
            for x in c.args:
                d = s.decide(x, split)
                if d: return True
                if d is None: r = None
            return r
        if o == 'xorb':
            x, y = s.decide(c.args[0], split), s.decide(c.args[1], split); return None if x is None or y is None else x != y
        try:
            if o == 'isnan':
                s.get(c.args[0], 'F'); return False
            sg = s.signtest(c)
            if sg is not None:
                x, neg = sg; n = s.get(x, 'F')     # neg: atom says "sign bit set"
                if n.hi < 0: return neg
                if n.lo > 0: return not neg
                return None
            if len(o) > 4 and o[0] in 'su' and o[1:] in ('addo', 'subo', 'mulo'):
                r, lo, hi = s.ovf(c)
                if lo <= r.lo and r.hi <= hi: return False
                if r.hi < lo or r.lo > hi: return True
                return None
            ft = s.fits(c)
            if ft:
                z, m = ft; n = s.S(z)
                if n.lo >= -(1 << (m-1)) and n.hi < (1 << (m-1)): return True
                if n.lo >= (1 << (m-1)) or n.hi < -(1 << (m-1)): return False
                return None
            if s.rng(c):
                x, l, h = s.rng(c); n = s.S(x)
                if l <= n.lo and n.hi <= h: return True
                if n.hi < l or n.lo > h: return False
                return None
            if o in ('slt', 'ult', 'eq', 'flt', 'fle', 'feq'):
                a, b, integer, _ = s.cmpnodes(c)
                lo, hi, _p = s.diff(a, b)
                if o in ('slt', 'ult', 'flt'):
                    if hi < 0: return True
                    if lo >= 0: return False
                elif o == 'fle':
                    if hi <= 0: return True
                    if lo > 0: return False
                else:
                    if lo == hi == 0: return True
                    if lo > 0 or hi < 0: return False
                    if integer and lo > -1 and hi < 1: return True
                return None
        except Unk: return None
        except NeedSplit as e:
            if split is not None: split.append(e.c)
            return None
        return None
    def signtest(s, c):
        """sign-bit test on a float's bits -> (float term, True if the atom means negative)"""
        if c.op != 'slt': return None
        a, b = c.args
        def fl(t):
            if t.op == 'fbits': return t.args[0]
            if t.op == 'var' and t.p in s.inputs and isinstance(s.inputs[t.p][0], str): return T.bits_to_f(t)
            return None
        if T.is_c(b) and b.p == 0 and fl(a) is not None: return fl(a), True
        if T.is_c(a) and a.p == T.mask(a.sort) and fl(b) is not None: return fl(b), False
        return None
    def setb(s, v, lo, hi):
        l, h = s.b[v]
        if s.isint(v): lo = Fr(ceil(lo)) if lo is not None else None; hi = Fr(floor(hi)) if hi is not None else None
        nl = l if lo is None else max(l, lo); nh = h if hi is None else min(h, hi)
        if nl > nh: raise Contra()
        if (nl, nh) != (l, h): s.b[v] = (nl, nh); return True
        return False
    def force(s, key, lo, hi):
        l, h = s.forced.get(key, (None, None))
        nl = lo if l is None else l if lo is None else max(l, lo); nh = hi if h is None else h if hi is None else min(h, hi)
        n = s.cache.get(key)
        if isinstance(n, Node):
            nl = n.lo if nl is None else max(nl, n.lo); nh = n.hi if nh is None else min(nh, n.hi)
            if nl > nh: raise Contra()
            s.forced[key] = (nl, nh)
    def addc(s, q):
        k = pkey(q)
        if k not in s.ckeys: s.ckeys.add(k); s.cons.append(q)
    def le(s, a, b, ka, kb, slack):
        """record computed a <= computed b - slack"""
        if ka[1] == kb[1]: s.ord[(ka[0], kb[0], ka[1])] = max(slack, s.ord.get((ka[0], kb[0], ka[1]), 0))
        p = padd(a.p, b.p, -1); e = a.err+b.err
        q = padd(p, pconst((slack if slack >= 1 else 0)-e))           # q <= 0
        f = paffine(p)
        if f is not None and f[0] is not None:
            v, k, o = f; x = (e-slack-o)/k
            s.setb(v, None, x) if k > 0 else s.setb(v, x, None)
        if f is None: s.addc(q)
        s.force(ka, None, b.hi-slack); s.force(kb, a.lo+slack, None)
    def assume(s, c):
        """add atom c (raises Contra when it cannot hold); returns self"""
        d = s.decide(c)
        if d is False: raise Contra()
        o = c.op
        if o == 'not': s.truth[c.args[0].id] = False
        else: s.truth[c.id] = True
        if o == 'and':
            for x in c.args: s.assume(x)
            return s
        if o == 'not' and c.args[0].op == 'or':
            for x in c.args[0].args: s.assume(T.not_(x))
            return s
        if o == 'or' or (o == 'not' and c.args[0].op == 'and'):
            xs = c.args if o == 'or' else [T.not_(x) for x in c.args[0].args]
            rest = [x for x in xs if s.decide(x) is not False]
            if not rest: raise Contra()
            if len(rest) == 1: s.assume(rest[0])
            return s
        if d is True: return s
        pol = True
        if o == 'not': pol = False; c = c.args[0]; o = c.op
        before = (len(s.cons), dict(s.b), dict(s.forced), len(s.ord)+len(s.nov))
        try:
            sg = s.signtest(c)
            if sg is not None:
                x, neg = sg; neg = neg == pol; n = s.get(x, 'F'); f = paffine(n.p)
                if f and f[0] is not None and n.err == 0:
                    v, k, off = f; x0 = -off/k; s.setb(v, *((None, x0) if (k > 0) == neg else (x0, None)))
                s.force((x.id, 'F'), *((None, Fr(0)) if neg else (Fr(0), None)))
            elif s.fits(c):
                z, m = s.fits(c)
                if pol:
                    n = s.S(z); s.force((z.id, 'S'), Fr(-(1 << (m-1))), Fr((1 << (m-1))-1))
                    f = paffine(n.p)
                    if f and f[0] is not None:
                        v, k, off = f
                        l, h = (Fr(-(1 << (m-1)))-off-n.err)/k, (Fr((1 << (m-1))-1)-off+n.err)/k
                        s.setb(v, min(l, h), max(l, h))
                    if f is None: s.addc(padd(n.p, pconst(-n.err-(1 << (m-1))))); s.addc(padd(pscale(n.p, -1), pconst(-n.err-(1 << (m-1)))))
            elif s.rng(c):
                x, l, h = s.rng(c); n = s.S(x); f = paffine(n.p)
                lh = (Fr(l), Fr(h)) if pol else (None, Fr(l-1)) if n.hi <= h else (Fr(h+1), None) if n.lo >= l else None
                if lh:
                    s.force((x.id, 'S'), *lh)
                    if f and f[0] is not None:
                        v, k, off = f; e = [None if y is None else (y-off+g*n.err)/k for y, g in zip(lh, (-1, 1))]
                        s.setb(v, *(e if k > 0 else e[::-1]))
            elif o in ('saddo', 'ssubo', 'smulo', 'uaddo', 'usubo', 'umulo') and not pol:
                r, lo, hi = s.ovf(c); s.nov.add((o, c.args[0].id, c.args[1].id))
                f = paffine(r.p)
                if f and f[0] is not None:
                    v, k, off = f; l, h = (lo-off-r.err)/k, (hi-off+r.err)/k; s.setb(v, min(l, h), max(l, h))
                if f is None: s.addc(padd(r.p, pconst(-r.err-hi))); s.addc(padd(pscale(r.p, -1), pconst(lo-r.err)))
            elif o in ('slt', 'ult', 'flt', 'fle', 'eq', 'feq'):
                a, b, integer, (ka, kb) = s.cmpnodes(c)
                one = Fr(1) if integer else Fr(0) if pvars(a.p) and pvars(b.p) else fgap(a if not pvars(a.p) else b, c.args[0].sort)
                if o in ('slt', 'ult', 'flt', 'fle'):
                    if pol: s.le(a, b, ka, kb, one if o != 'fle' else Fr(0))
                    else: s.le(b, a, kb, ka, Fr(0) if o != 'fle' else one)
                elif pol: s.le(a, b, ka, kb, Fr(0)); s.le(b, a, kb, ka, Fr(0))
                elif integer:
                    for x, y, kx in ((a, b, ka), (b, a, kb)):
                        if y.lo == y.hi:
                            f = paffine(x.p)
                            if x.err == 0 and f and f[0] is not None and abs(f[1]) == 1 and s.isint(f[0]):
                                v, k, off = f; val = (y.lo-off)/k
                                if val == s.b[v][0]: s.setb(v, val+1, None)
                                elif val == s.b[v][1]: s.setb(v, None, val-1)
                            if x.lo == y.lo: s.force(kx, x.lo+1, None)
                            elif x.hi == y.lo: s.force(kx, None, x.hi-1)
        except (Unk, NeedSplit): pass
        if before[1] != s.b or before[2] != s.forced or before[3] != len(s.ord)+len(s.nov): s.cache = {}; s.mv = {}
        return s

    # ------------------------------------------------------------ final queries
    def solver(s, extra=(), env=None, tactic=True, stop=None):
        """z3 solver with everything known about the variables reachable from `extra` and the path constraints;
        stop: variables whose definition is left out (only constraints on the variables reached are then used)"""
        env = dict(env or {})
        vs = set(extra) | ({v for p in s.cons for v in pvars(p)} if stop is None else set())
        while True:
            new = set(vs)
            for v in vs:
                if v in s.qdef and not (stop and v in stop): new |= pvars(s.qdef[v][0]) | pvars(s.qdef[v][1])
            if new == vs: break
            vs = new
        sol = z3.SolverFor('QF_NRA') if tactic else z3.Solver()
        for v in vs:
            if v not in env: env[v] = z3.Real(v)
        for v in vs:
            lo, hi = s.b[v]; sol.add(env[v] >= z3.RealVal(lo), env[v] <= z3.RealVal(hi))
            if v in s.qdef and not (stop and v in stop):
                a, b = s.qdef[v]; sol.add(env[v]*pz3(b, env) == pz3(a, env))
        for p in s.cons:
            if stop is None or pvars(p) <= vs: sol.add(pz3(p, env) <= 0)
        return sol, env
    def ask(s, sol, claims, timeout=None):
        if timeout: sol.set('timeout', int(timeout*1000))
        t0 = time.time(); sol.push()
        for c in claims: sol.add(c)
        r = str(sol.check()); solve.STATS.queries += 1; solve.STATS.time += time.time()-t0
        setattr(solve.STATS, r, getattr(solve.STATS, r)+1)
        s.model = sol.model() if r == 'sat' else None
        sol.pop()
        return r

class NeedSplitZero(Exception): pass

class Oracle:
    """facts per path condition, built incrementally; usable as the executor's feasibility test"""
    def __init__(s, inputs, base=()):
        s.root = Ctx(inputs); s.memo = {}
        s.base = tuple(base)
    def ctx(s, pc):
        """Ctx or None when the path condition is contradictory"""
        pc = s.base + tuple(pc)
        k = len(pc)
        ids = tuple(t.id for t in pc)
        while k and ids[:k] not in s.memo: k -= 1
        c = s.memo[ids[:k]] if k else s.root
        while k < len(pc) and c is not None:
            try:
                ch = c.child(); ch.assume(pc[k]); c = ch
            except Contra: c = None
            k += 1; s.memo[ids[:k]] = c
        if len(s.memo) > 4000: s.memo = {}
        return c
    def feasible(s, pc): return False if s.ctx(pc) is None else None
    def refuted(s, pc, depth=6):
        """True when the path condition is contradictory, splitting on selections inside its terms"""
        def go(c, k, d):
            while k < len(pc):
                sp = []
                try: r = c.decide(pc[k], sp)
                except Contra: return True
                if r is False: return True
                if r is None and sp and d:
                    for x in (sp[0], T.not_(sp[0])):
                        try: ch = c.child(); ch.assume(x)
                        except Contra: continue
                        if not go(ch, k, d-1): return False
                    return True
                try: c.assume(pc[k])
                except Contra: return True
                k += 1
            return False
        c = s.ctx(pc[:-1])
        pc = s.base + tuple(pc)
        if c is None or go(c.child(), len(pc)-1, depth): return True          # the last condition alone
        return go(s.root.child(), 0, depth)
    def leaves(s, pc, f, depth=6):
        """evaluate f(ctx) on pc, splitting on undecided conditions; yields (pc, ctx, value or Unk)"""
        c = s.ctx(pc)
        if c is None: return
        try: c.pc = pc; v = f(c)
        except Contra: return
        except Unk as e: v = e
        except NeedSplit as e:
            if depth == 0: yield pc, c, Unk('split'); return
            for x in (e.c, T.not_(e.c)): yield from s.leaves(tuple(pc)+(x,), f, depth-1)
            return
        yield pc, c, v
