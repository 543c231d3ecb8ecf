"""Terms -> z3 and the solving strategy (abstract nonlinear / float operations first, then exact)."""
import time, z3
from . import terms as T

RNE = z3.RNE(); RTZ = z3.RTZ()
F32 = z3.Float32(); F64 = z3.Float64()
def zsort(s):
    return z3.BoolSort() if s == 0 else F32 if s == 'f32' else F64 if s == 'f64' else z3.BitVecSort(s)

NONLIN = {'mul', 'udiv', 'urem', 'sdiv', 'srem', 'smulo', 'umulo', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fsqrt',
          'ffloor', 'fceil', 'ftrunc', 'frint', 'sitofp', 'uitofp', 'ftosi_sat', 'ftoui_sat', 'fpext', 'fptrunc'}

DIVS = {'udiv', 'urem', 'sdiv', 'srem'}

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.exact = 0
STATS = Stats()

class Tr:
    """translator with its own memo; abstract=True leaves NONLIN operations uninterpreted"""
    def __init__(self, abstract=False):
        self.abstract = abstract; self.memo = {}; self.vars = {}; self.used_abs = False; self.ax = {}
    def __call__(self, root):
        m = self.memo
        for t in T.topo([root]):
            if t.id not in m: m[t.id] = self.tr(t, [m[a.id] for a in t.args])
        return m[root.id]
    def ufn(self, name, t):
        f = z3.Function(name, *[zsort(a.sort) for a in t.args], zsort(t.sort))
        return f
    def tr(self, t, a):
        o, s = t.op, t.sort
        if o == 'const':
            if s == 0: return z3.BoolVal(bool(t.p))
            if isinstance(s, str): return z3.fpBVToFP(z3.BitVecVal(t.p, T.width(s)), zsort(s))
            return z3.BitVecVal(t.p, s)
        if o == 'var':
            v = z3.Const(t.p, zsort(s)); self.vars[t.p] = (v, t); return v
        if self.abstract and o in NONLIN and not (self.abstract == 'half' and o in DIVS) and not (o == 'mul' and T.is_c(t.args[1])) :
            self.used_abs = True
            f = self.ufn(f"abs_{o}_{'_'.join(str(x.sort) for x in t.args)}_{s}", t)
            if o in ('mul', 'smulo', 'umulo', 'fadd', 'fmul') and t.args[0] is not t.args[1]: self.ax[t.id] = f(a[0], a[1]) == f(a[1], a[0])
            return f(*a)
        if o == 'uf': return self.ufn('uf_' + t.p, t)(*a) if a else z3.Const('uf_'+t.p, zsort(s))
        if o == 'not': return z3.Not(a[0])
        if o == 'and' and s == 0: return z3.And(*a)
        if o == 'or' and s == 0: return z3.Or(*a)
        if o == 'xorb': return z3.Xor(a[0], a[1])
        if o == 'ite': return z3.If(a[0], a[1], a[2])
        if o == 'eq': return a[0] == a[1]
        if o == 'add': return a[0] + a[1]
        if o == 'sub': return a[0] - a[1]
        if o == 'mul': return a[0] * a[1]
        if o == 'udiv': return z3.UDiv(a[0], a[1])
        if o == 'urem': return z3.URem(a[0], a[1])
        if o == 'sdiv': return a[0] / a[1]
        if o == 'srem': return z3.SRem(a[0], a[1])
        if o == 'and': return a[0] & a[1]
        if o == 'or': return a[0] | a[1]
        if o == 'xor': return a[0] ^ a[1]
        if o == 'shl': return a[0] << a[1]
        if o == 'lshr': return z3.LShR(a[0], a[1])
        if o == 'ashr': return a[0] >> a[1]
        if o == 'extract': return z3.Extract(t.p[0], t.p[1], a[0])
        if o == 'zext':
            if t.args[0].sort == 0: return z3.If(a[0], z3.BitVecVal(1, s), z3.BitVecVal(0, s))
            return z3.ZeroExt(s - t.args[0].sort, a[0])
        if o == 'sext': return z3.SignExt(s - t.args[0].sort, a[0])
        if o == 'concat': return z3.Concat(a[0], a[1])
        if o == 'ult': return z3.ULT(a[0], a[1])
        if o == 'slt': return a[0] < a[1]
        if o == 'uaddo': return z3.Not(z3.BVAddNoOverflow(a[0], a[1], False))
        if o == 'saddo': return z3.Not(z3.And(z3.BVAddNoOverflow(a[0], a[1], True), z3.BVAddNoUnderflow(a[0], a[1])))
        if o == 'ssubo': return z3.Not(z3.And(z3.BVSubNoOverflow(a[0], a[1]), z3.BVSubNoUnderflow(a[0], a[1], True)))
        if o == 'umulo': return z3.Not(z3.BVMulNoOverflow(a[0], a[1], False))
        if o == 'smulo': return z3.Not(z3.And(z3.BVMulNoOverflow(a[0], a[1], True), z3.BVMulNoUnderflow(a[0], a[1])))
        if o == 'fadd': return z3.fpAdd(RNE, a[0], a[1])
        if o == 'fsub': return z3.fpSub(RNE, a[0], a[1])
        if o == 'fmul': return z3.fpMul(RNE, a[0], a[1])
        if o == 'fdiv': return z3.fpDiv(RNE, a[0], a[1])
        if o == 'frem': raise NotImplementedError('frem')
        if o == 'fsqrt': return z3.fpSqrt(RNE, a[0])
        if o in ('ffloor', 'fceil', 'ftrunc', 'frint'):
            return z3.fpRoundToIntegral({'ffloor': z3.RTN(), 'fceil': z3.RTP(), 'ftrunc': RTZ, 'frint': RNE}[o], a[0])
        if o == 'fneg': return z3.fpNeg(a[0])
        if o == 'fabs': return z3.fpAbs(a[0])
        if o == 'feq': return z3.fpEQ(a[0], a[1])
        if o == 'flt': return z3.fpLT(a[0], a[1])
        if o == 'fle': return z3.fpLEQ(a[0], a[1])
        if o == 'isnan': return z3.fpIsNaN(a[0])
        if o == 'fbits': return z3.fpToIEEEBV(a[0])
        if o == 'bitsf': return z3.fpBVToFP(a[0], zsort(s))
        if o == 'sitofp': return z3.fpSignedToFP(RNE, a[0], zsort(s))
        if o == 'uitofp': return z3.fpUnsignedToFP(RNE, a[0], zsort(s))
        if o in ('fpext', 'fptrunc'): return z3.fpFPToFP(RNE, a[0], zsort(s))
        if o in ('ftosi_sat', 'ftoui_sat'):
            fs = zsort(t.args[0].sort); x = a[0]; n = s; sg = o == 'ftosi_sat'
            lo, hi = (-(1 << (n-1)), (1 << (n-1))) if sg else (0, 1 << n)
            fl = T.frac_to_bits(t.args[0].sort, __import__('fractions').Fraction(lo))
            fh = T.frac_to_bits(t.args[0].sort, __import__('fractions').Fraction(hi))
            flo = z3.fpBVToFP(z3.BitVecVal(fl, T.width(t.args[0].sort)), fs); fhi = z3.fpBVToFP(z3.BitVecVal(fh, T.width(t.args[0].sort)), fs)
            # +-2^k are exact floats (or +inf when out of range, which compares correctly)
            conv = z3.fpToSBV(RTZ, x, z3.BitVecSort(n)) if sg else z3.fpToUBV(RTZ, x, z3.BitVecSort(n))
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, n), z3.If(z3.fpLEQ(x, flo), z3.BitVecVal(lo, n),
                    z3.If(z3.fpGEQ(x, fhi), z3.BitVecVal(hi-1, n), conv)))
        raise NotImplementedError(o)

_tr = {}
def tr(abstract):
    if abstract not in _tr: _tr[abstract] = Tr(abstract)
    return _tr[abstract]

def val_bits(m, v, t):
    x = m.eval(v, model_completion=True)
    if t.sort == 0: return 1 if z3.is_true(x) else 0
    if isinstance(t.sort, str):
        b = z3.simplify(z3.fpToIEEEBV(x)); return b.as_long()
    return x.as_long()

def solve1(goals, timeout, abstract, seed=0):
    """goals: list of Terms (conjunction). -> (res, env or None, z3 model)"""
    t = tr(abstract)
    s = z3.Solver() if not abstract else z3.SolverFor('QF_AUFBV') if False else z3.Solver()
    s.set('timeout', int(timeout*1000))
    if seed: s.set('random_seed', seed)
    for g in goals: s.add(t(g))
    if t.ax:
        for x in T.topo(goals):
            if x.id in t.ax: s.add(t.ax[x.id])
    t0 = time.time()
    r = s.check()
    STATS.queries += 1; STATS.time += time.time()-t0
    k = str(r); setattr(STATS, k, getattr(STATS, k)+1)
    if not abstract: STATS.exact += 1
    env = None; m = None
    if r == z3.sat:
        m = s.model(); env = {}
        for v in T.free_vars(goals): env[v.p] = val_bits(m, t(v), v)
    return k, env, m

def has_nonlin(goals):
    return any(t.op in NONLIN and not (t.op == 'mul' and T.is_c(t.args[1])) for t in T.topo(goals))
def has_uf(goals): return any(t.op == 'uf' for t in T.topo(goals))

def check(goals, timeout=20, exact_timeout=None):
    """-> ('unsat',None,'abs'|'exact'|'trivial') / ('sat',env,level) / ('unknown',None,..)"""
    goals = [g for g in goals if g is not T.TRUE]
    if any(g is T.FALSE for g in goals):
        STATS.queries += 1; STATS.unsat += 1
        return 'unsat', None, 'trivial'
    nl = has_nonlin(goals)
    if nl:
        r, env, _ = solve1(goals, timeout, True)
        if r == 'unsat': return r, None, 'abs'
        # a spurious abstract model may still be a real one
        if env is not None and not has_uf(goals):
            v = T.evaluate(goals, env)
            if all(x is T.TRUE for x in v): return 'sat', env, 'abs-real'
        ops = {t.op for t in T.topo(goals)}
        if ops & DIVS and ops & (NONLIN - DIVS):      # divisions exact, products uninterpreted
            r, env, _ = solve1(goals, timeout, 'half')
            if r == 'unsat': return r, None, 'half'
    r, env, _ = solve1(goals, exact_timeout or timeout, False)
    return r, env, 'exact'
