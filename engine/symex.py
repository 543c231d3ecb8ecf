"""Symbolic executor for LLVM IR functions (see llparse.py) over terms.py.

Two exploration modes:
  merge : states are merged at control-flow joins (loops are unrolled with feasibility checks)
  fork  : one outcome per path
Panics (calls to noreturn functions / unreachable) become panic conditions.
"""
import heapq
from . import terms as T
from .llparse import size_align, offset_of

class Unsupported(Exception): pass
class Bound(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off
    def __hash__(s): return hash((s.obj, s.off if isinstance(s.off, int) else s.off.id))
    def __repr__(s): return f"Ptr({s.obj},{s.off})"
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
NULL = Ptr(None, 0)

class State:
    __slots__ = ('env', 'mem', 'pc', 'prev')
    def __init__(s, env, mem, pc, prev=None): s.env, s.mem, s.pc, s.prev = env, mem, pc, prev

def vite(c, a, b):
    if a is b: return a
    if isinstance(a, T.Term) and isinstance(b, T.Term): return T.ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple): return tuple(vite(c, x, y) for x, y in zip(a, b))
    if a is None: return b
    if b is None: return a
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if a == b: return a
        if T.is_c(c): return a if c.p else b
        return PIte(c, a, b)
    if isinstance(a, Ptr) and a.obj is None and isinstance(b, T.Term): return T.ite(c, T.bv(64, a.off), b)
    if isinstance(b, Ptr) and b.obj is None and isinstance(a, T.Term): return T.ite(c, a, T.bv(64, b.off))
    raise Unsupported(f"ite of {a!r} {b!r}")

class FnInfo: pass

class Exec:
    def __init__(self, mod, mode='merge', feasible=None, loop_bound=4096, stub=None, on_uf=None, prune=False):
        self.m = mod; self.mode = mode
        self.feasible = feasible or (lambda pc: None)
        self.loop_bound = loop_bound
        self.prune = prune
        self.stub = stub or (lambda name: False)
        self.panics = []          # (pc tuple, reason)
        self.incomplete = []      # (pc tuple, where)
        self.nobj = 0; self.nundef = 0
        self.stats = dict(instrs=0, blocks=0, paths=0, merges=0, feas=0, fns=set(), ufs=set())
        self.info = {}; self.globs = {}
        self.objsize = {}
        self.deadline = None

    # ------------------------------------------------------------ CFG info
    def finfo(self, f):
        if f.name in self.info: return self.info[f.name]
        I = FnInfo()
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t[0] == 'br': s = [t[2]]
            elif t[0] == 'cbr': s = [t[3], t[4]]
            elif t[0] == 'switch': s = [t[4]] + [x[1] for x in t[5]]
            else: s = []
            succ[b] = s
        post = []; seen = set(); st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(succ[x]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: pred[s].append(b)
        # doomed: every path ends in unreachable
        doomed = set(); ch = True
        for b in rpo:
            if f.blocks[b][-1][0] == 'unreachable': doomed.add(b)
        while ch:
            ch = False
            for b in reversed(rpo):
                if b not in doomed and succ[b] and all(s in doomed for s in succ[b]):
                    doomed.add(b); ch = True
        # loops
        heads = {}
        for b in rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]: heads.setdefault(s, set()).add(b)
        body = {}
        for h, tails in heads.items():
            bd = {h}; st = list(tails)
            while st:
                x = st.pop()
                if x in bd: continue
                bd.add(x); st.extend(pred[x])
            body[h] = bd
        chain = {}
        for b in rpo:
            hs = [h for h in body if b in body[h]]
            hs.sort(key=lambda h: -len(body[h])); chain[b] = tuple(hs)
        # liveness
        use = {}; dfn = {}; phiuse = {}
        for b in rpo:
            u = set(); d = set()
            for ins in f.blocks[b]:
                if ins[0] == 'phi':
                    for v, p in ins[3]:
                        if v[0] == 'l': phiuse.setdefault(p, set()).add(v[1])
                else:
                    for v in locals_in(ins):
                        if v not in d: u.add(v)
                if ins[1]: d.add(ins[1])
            use[b] = u; dfn[b] = d
        livein = {b: set() for b in rpo}; ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set(phiuse.get(b, ()))
                for s in succ[b]:
                    out |= livein[s] - {i[1] for i in f.blocks[s] if i[0] == 'phi'}
                n = use[b] | (out - dfn[b])
                if n != livein[b]: livein[b] = n; ch = True
        # phi operands are needed on the edge: keep them while travelling
        I.edge = {}
        for b in rpo:
            for s in succ[b]:
                I.edge[b, s] = (livein[s] - {i[1] for i in f.blocks[s] if i[0] == 'phi'})
        I.idx, I.doomed, I.chain, I.body, I.succ = idx, doomed, chain, body, succ
        self.info[f.name] = I
        return I

    # ------------------------------------------------------------ memory
    def new_obj(self, mem, size, name='a'):
        self.nobj += 1; o = (name, self.nobj); mem[o] = {}; self.objsize[o] = size
        return Ptr(o, 0)
    def glob(self, nm):
        if nm in self.m.fns or nm in self.m.decls: return Ptr(('fn', nm), 0)
        if nm not in self.globs:
            g = self.m.glob(nm)
            if g[0] == 'alias':
                self.globs[nm] = self.const('ptr', g[1]); return self.globs[nm]
            o = ('glob', nm); self.globs[nm] = Ptr(o, 0)
            cells = {}; self.gcells = getattr(self, 'gcells', {}); self.gcells[o] = cells
            self.objsize[o] = size_align(g[1])[0]
            if g[2] is not None: self._init(cells, 0, g[1], g[2])
        return self.globs[nm]
    def _init(self, cells, off, ty, v):
        k = v[0]
        if k == 'zero':
            n = size_align(ty)[0]
            if isinstance(ty, tuple) and ty[0] in ('arr', 'st', 'vec'):
                if ty[0] == 'st':
                    for i, e in enumerate(ty[1]): self._init(cells, off+offset_of(ty, i)[0], e, v)
                else:
                    for i in range(ty[1]): self._init(cells, off+offset_of(ty, i)[0], ty[2], v)
            elif n: cells[off] = (n, self.const(ty, v))
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[1]): self._init(cells, off+offset_of(ty, i)[0], et, ev)
        elif k == 'str':
            for i, b in enumerate(v[1]): cells[off+i] = (1, T.bv(8, b))
        elif k == 'undef': pass
        else:
            cells[off] = (size_align(ty)[0], self.const(ty, v))
    def const(self, ty, v, env=None):
        k = v[0]
        if k == 'l': return env[v[1]]
        if k == 'c':
            if ty == 'ptr': return Ptr(None, v[1])
            if isinstance(ty, str): raise Unsupported(f'int const for {ty}')
            return T.boolc(v[1] & 1) if ty[1] == 1 else T.bv(ty[1], v[1])
        if k == 'f': return T.fbits(ty, v[1])
        if k in ('zero', 'undef'):
            if ty == 'ptr': return NULL
            if ty in ('f32', 'f64'): return T.fbits(ty, 0)
            if ty == 'half': return T.bv(16, 0)
            if ty[0] == 'i': return T.FALSE if ty[1] == 1 else T.bv(ty[1], 0)
            if ty[0] == 'st': return tuple(self.const(e, v) for e in ty[1])
            if ty[0] in ('arr', 'vec'): return tuple(self.const(ty[2], v) for _ in range(ty[1]))
        if k == 'g': return self.glob(v[1])
        if k == 'gep':
            b = self.const('ptr', v[2], env)
            return self.gep(v[1], b, [(t, self.const(t, x, env)) for t, x in v[3]])
        if k == 'agg': return tuple(self.const(t, x, env) for t, x in v[1])
        if k == 'str': return tuple(T.bv(8, b) for b in v[1])
        if k == 'cast':
            x = self.const(v[2], v[3], env)
            if v[1] == 'inttoptr' and isinstance(x, T.Term) and T.is_c(x): return Ptr(None, x.p)
            if v[1] == 'ptrtoint': return x
        raise Unsupported(f"const {v} {ty}")
    def gep(self, bt, base, ix):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(bt, base.a, ix), self.gep(bt, base.b, ix))
        off = base.off; ty = bt
        def addo(off, x, scale):
            if isinstance(x, T.Term):
                if T.is_c(x): x = T.sval(x)
                else:
                    x = T.sext(x, 64) if x.sort != 64 else x
                    x = T.mul(x, T.bv(64, scale))
                    o = off if isinstance(off, T.Term) else T.bv(64, off)
                    r = T.add(o, x)
                    return T.sval(r) if T.is_c(r) else r
            if isinstance(off, int): return off + x*scale
            r = T.add(off, T.bv(64, x*scale)); return T.sval(r) if T.is_c(r) else r
        for k, (it, x) in enumerate(ix):
            if k == 0: off = addo(off, x, size_align(ty)[0]); continue
            if ty[0] == 'st':
                o, ty = offset_of(ty, x.p); off = addo(off, T.bv(64, o), 1)
            else:
                ty = ty[2]; off = addo(off, x, size_align(ty)[0])
        return Ptr(base.obj, off)
    def cells(self, mem, obj):
        if obj in mem: return mem[obj]
        if obj is not None and obj[0] == 'glob': return self.gcells[obj]
        raise Unsupported(f"deref {obj}")
    def load(self, mem, ty, p):
        if isinstance(p, PIte): return vite(p.c, self.load(mem, ty, p.a), self.load(mem, ty, p.b))
        if not isinstance(p, Ptr): raise Unsupported('load from int pointer')
        if isinstance(ty, tuple) and ty[0] in ('st', 'arr', 'vec'):
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            r = []
            for i in range(n):
                o, e = offset_of(ty, i)
                r.append(self.load(mem, e, self.gep(('i', 8), p, [(('i', 64), T.bv(64, o))])))
            return tuple(r)
        cells = self.cells(mem, p.obj)
        n = size_align(ty)[0]
        if isinstance(p.off, T.Term):
            r = None
            step = n
            for o in range(0, self.objsize[p.obj]-n+1, step):
                v = self.load1(cells, ty, n, o)
                r = v if r is None else vite(T.eq(p.off, T.bv(64, o)), v, r)
            return r
        return self.load1(cells, ty, n, p.off)
    def load1(self, cells, ty, n, off):
        c = cells.get(off)
        if c and c[0] == n: return self.conv(c[1], ty)
        if ty == 'ptr': raise Unsupported('pointer load from pieces')
        # assemble bytes
        parts = []; o = off
        while o < off+n:
            c = cells.get(o)
            if c and o + c[0] <= off+n:
                parts.append(self.tobv(c[1], c[0])); o += c[0]; continue
            # inside a larger cell?
            for q in range(o, o-17, -1):
                c = cells.get(q)
                if c and q + c[0] > o:
                    k = min(q+c[0], off+n) - o
                    b = self.tobv(c[1], c[0])
                    parts.append(T.extract((o-q+k)*8-1, (o-q)*8, b)); o += k; break
            else:
                self.nundef += 1
                parts.append(T.bv(8, 0)); o += 1     # uninitialised byte
        r = parts[0]
        for x in parts[1:]: r = T.concat(x, r)
        return self.conv(r, ty)
    def tobv(self, v, n):
        if isinstance(v, (Ptr, PIte)):
            if isinstance(v, Ptr) and v.obj is None: return T.bv(64, v.off)
            raise Unsupported('pointer bytes')
        if isinstance(v.sort, str): return T.f_to_bits(v)
        if v.sort == 0: return T.zext(v, 8)
        return T.zext(v, n*8) if v.sort < n*8 else v
    def conv(self, v, ty):
        if ty == 'ptr':
            if isinstance(v, (Ptr, PIte)): return v
            if T.is_c(v): return Ptr(None, v.p)
            raise Unsupported('int as pointer')
        if isinstance(v, (Ptr, PIte)):
            if isinstance(v, Ptr) and v.obj is None and ty[0] == 'i': return T.bv(ty[1], v.off)
            raise Unsupported('pointer as int')
        if ty in ('f32', 'f64'): return v if v.sort == ty else T.bits_to_f(v)
        if ty == 'half': return v
        w = ty[1]
        if isinstance(v.sort, str): v = T.f_to_bits(v)
        if w == 1: return v if v.sort == 0 else T.trunc(v, 0)
        if v.sort == 0: v = T.zext(v, 8)
        return v if v.sort == w else T.extract(w-1, 0, v) if v.sort > w else T.zext(v, w)
    def store(self, mem, ty, v, p, cond=None):
        if isinstance(p, PIte):
            c = p.c if cond is None else T.and_(cond, p.c)
            d = T.not_(p.c) if cond is None else T.and_(cond, T.not_(p.c))
            self.store(mem, ty, v, p.a, c); self.store(mem, ty, v, p.b, d); return
        if isinstance(v, tuple):
            for i, x in enumerate(v):
                o, e = offset_of(ty, i)
                self.store(mem, e, x, self.gep(('i', 8), p, [(('i', 64), T.bv(64, o))]), cond)
            return
        n = size_align(ty)[0]
        if p.obj not in mem: raise Unsupported(f'store to {p.obj}')
        if isinstance(p.off, T.Term):
            for o in range(0, self.objsize[p.obj]-n+1, n):
                c = T.eq(p.off, T.bv(64, o)); c = c if cond is None else T.and_(c, cond)
                self.store(mem, ty, v, Ptr(p.obj, o), c)
            return
        cells = dict(mem[p.obj]); off = p.off
        if cond is not None: v = vite(cond, v, self.load1(cells, ty, n, off))
        self.clear(cells, off, n)
        if isinstance(v, T.Term) and v.sort == 0: v = T.zext(v, 8)
        cells[off] = (n, v); mem[p.obj] = cells
    def clear(self, cells, off, n):
        """remove cells overlapping [off,off+n), keeping the outside bytes"""
        for q in range(off-16, off+n):
            c = cells.get(q)
            if not c or q + c[0] <= off: continue
            del cells[q]
            if q < off:
                b = self.tobv(c[1], c[0]); cells[q] = (off-q, T.extract((off-q)*8-1, 0, b))
            if q + c[0] > off+n:
                b = self.tobv(c[1], c[0]); k = off+n-q
                cells[off+n] = (c[0]-k, T.extract(c[0]*8-1, k*8, b))
    def memcpy(self, mem, d, s, n):
        if n == 0: return
        if isinstance(s, PIte) or isinstance(d, PIte) or isinstance(d.off, T.Term) or isinstance(s.off, T.Term):
            if n in (1, 2, 4, 8, 16):
                ty = ('i', 8*n); self.store(mem, ty, self.load(mem, ty, s), d); return
            raise Unsupported('memcpy symbolic')
        sc = dict(self.cells(mem, s.obj)); dc = dict(mem[d.obj])
        self.clear(dc, d.off, n)
        o = s.off
        cut = {}
        for q in range(s.off-16, s.off+n):
            c = sc.get(q)
            if not c or q + c[0] <= s.off: continue
            lo = max(q, s.off); hi = min(q+c[0], s.off+n)
            v = c[1]
            if lo != q or hi != q+c[0]:
                v = T.extract((hi-q)*8-1, (lo-q)*8, self.tobv(v, c[0]))
            dc[d.off+lo-s.off] = (hi-lo, v)
        mem[d.obj] = dc

    # ------------------------------------------------------------ run
    def run(self, name, args, mem, pc=()):
        """returns list of (pc, ret, mem)"""
        f = self.m.fn(name); I = self.finfo(f)
        self.stats['fns'].add(name)
        env = {}
        for (ty, nm), a in zip(f.params, args): env[nm] = a
        if self.mode == 'merge': return self.run_merge(f, I, env, dict(mem), pc)
        return self.run_fork(f, I, env, dict(mem), pc)

    def run_fork(self, f, I, env, mem, pc):
        rets = []
        st = [(f.entry, 0, State(env, mem, pc), {})]
        while st:
            b, k, s, cnt = st.pop()
            self.tick()
            nxt = self.block(f, I, b, k, s, lambda bb, kk, ss: st.append((bb, kk, ss, cnt)))
            if nxt is None: continue
            if nxt[0] == 'ret': rets.append((s.pc, nxt[1], s.mem)); self.stats['paths'] += 1; continue
            outs = nxt[1]
            for i, (tgt, c) in enumerate(outs):
                if c is not T.TRUE and self.prune:
                    if any(x is c for x in s.pc): c = T.TRUE          # already known on this path
                    else:
                        nc = T.not_(c)
                        if any(x is nc for x in s.pc): continue
                npc = s.pc if c is T.TRUE else s.pc + (c,)
                if tgt in I.doomed:
                    self.panics.append((npc, self.reason(f, tgt))); continue
                cn = cnt
                sym = c is not T.TRUE
                if I.idx[tgt] <= I.idx[b]:
                    cn = dict(cnt); cn[tgt] = cn.get(tgt, 0)+1
                    if cn[tgt] > self.loop_bound:
                        if not self.infeasible(npc): self.incomplete.append((npc, f.name+tgt))
                        continue
                if sym and self.prune and self.infeasible(npc): continue
                e = dict(s.env) if i < len(outs)-1 else s.env
                m = dict(s.mem) if i < len(outs)-1 else s.mem
                ns = State(e, m, npc, b)
                st.append((tgt, 0, ns, cn))
        return rets

    def infeasible(self, pc):
        self.stats['feas'] += 1
        r = self.feasible(pc)
        return r is False

    def tick(self):
        self.stats['blocks'] += 1
        if self.deadline and self.stats['blocks'] % 64 == 0:
            import time
            if time.time() > self.deadline: raise Bound('symbolic execution deadline')

    def run_merge(self, f, I, env, mem, pc):
        rets = []
        inst = {}      # key -> list of (state)
        heap = []
        def push(key, blk, its, s):
            if key not in inst:
                inst[key] = (blk, its, []); heapq.heappush(heap, key)
            inst[key][2].append(s)
        def mkkey(blk, its):
            k = []
            for h, n in zip(I.chain[blk], its): k += [I.idx[h], n]
            k.append(I.idx[blk]); return tuple(k)
        push(mkkey(f.entry, ()), f.entry, (), State(env, mem, pc))
        lastfeas = {}
        while heap:
            key = heapq.heappop(heap); b, its, ss = inst.pop(key)
            self.tick()
            s = self.merge(f, b, ss)
            if I.chain[b] and b == I.chain[b][-1] and its[-1] > 0 and s.pc != lastfeas.get((b, its[:-1])):
                # loop header after a back edge with a changed path condition
                if self.infeasible(s.pc): continue
                lastfeas[b, its[:-1]] = s.pc
            nxt = self.block(f, I, b, 0, s, None)
            if nxt is None: continue
            if nxt[0] == 'ret': rets.append((s.pc, nxt[1], s.mem)); continue
            outs = [(t, c) for t, c in nxt[1]]
            for t, c in outs:
                if t in I.doomed: self.panics.append((s.pc if c is T.TRUE else s.pc+(c,), self.reason(f, t)))
            live = [(t, c) for t, c in outs if t not in I.doomed]
            if len(live) == 1 and len(outs) > 1: live = [(live[0][0], T.TRUE)]
            for t, c in live:
                npc = s.pc if c is T.TRUE else s.pc+(c,)
                ch = I.chain[t]
                nits = []
                for i, h in enumerate(ch):
                    if i < len(its) and I.chain[b][i] == h:
                        nits.append(its[i] + (1 if h == t and I.idx[t] <= I.idx[b] else 0))
                    else: nits.append(0)
                if nits and max(nits) > self.loop_bound:
                    if not self.infeasible(npc): self.incomplete.append((npc, f.name+t))
                    continue
                keep = I.edge[b, t]
                e = {k: v for k, v in s.env.items() if k in keep}
                # evaluate phis on this edge now
                ph = {}
                for ins in f.blocks[t]:
                    if ins[0] != 'phi': break
                    for v, pb in ins[3]:
                        if pb == b: ph[ins[1]] = self.const(ins[2], v, s.env); break
                    else: raise Unsupported('phi edge')
                e.update(ph)
                push(mkkey(t, nits), t, tuple(nits), State(e, dict(s.mem), npc, 'merged'))
        if not rets: return []
        r = rets[0]
        for q in rets[1:]:
            pcm, c, left = self.merge_pc(r[0], q[0])
            ret = None if r[1] is None else vite(c, r[1], q[1])
            r = (pcm, ret, self.merge_mem(c, r[2], q[2]))
        return [r]

    def merge_pc(self, p, q):
        """returns (pc, cond selecting p, True)"""
        i = 0
        while i < len(p) and i < len(q) and p[i] is q[i]: i += 1
        a, b = p[i:], q[i:]
        if not a or not b:
            # one implies the other (after dropping panics): select by the longer one's negation
            if not a and not b: return p, T.TRUE, True
            if not a: return p[:i], T.not_(T.and_(*b)), True
            return p[:i], T.and_(*a), True
        if a[0] is T.not_(b[0]):
            if len(a) == 1 and len(b) == 1: return p[:i], a[0], True
            return p[:i] + self._disj(a, b), a[0], True
        ca = T.and_(*a)
        return p[:i] + self._disj(a, b), ca, True
    def _disj(self, a, b):
        x = T.or_(T.and_(*a), T.and_(*b))
        return () if x is T.TRUE else (x,)
    def merge_mem(self, c, m1, m2):
        if m1 is m2: return m1
        out = {}
        for o in m1.keys() & m2.keys():
            a, b = m1[o], m2[o]
            if a is b: out[o] = a; continue
            r = {}
            for off in a.keys() | b.keys():
                x, y = a.get(off), b.get(off)
                if x is None or y is None:
                    # one side uninitialised: keep what is there if the other has no overlapping data
                    z = x or y; r[off] = z; continue
                if x[0] != y[0]:
                    n = max(x[0], y[0]); ty = ('i', n*8)
                    r[off] = (n, vite(c, self.load1(a, ty, n, off), self.load1(b, ty, n, off))); continue
                u, v = x[1], y[1]
                if isinstance(u, T.Term) and isinstance(v, T.Term) and u.sort != v.sort:
                    u, v = self.tobv(u, x[0]), self.tobv(v, y[0])
                r[off] = (x[0], vite(c, u, v))
            # drop cells covered by a larger neighbour
            out[o] = r
        return out
    def merge(self, f, b, ss):
        s = ss[0]
        for q in ss[1:]:
            self.stats['merges'] += 1
            pcm, c, _ = self.merge_pc(s.pc, q.pc)
            env = {k: vite(c, s.env[k], q.env[k]) if k in q.env else s.env[k] for k in s.env}
            for k in q.env:
                if k not in env: env[k] = q.env[k]
            s = State(env, self.merge_mem(c, s.mem, q.mem), pcm, s.prev)
        return s

    def reason(self, f, b):
        seen = set()
        while b not in seen:
            seen.add(b)
            for ins in f.blocks[b]:
                if ins[0] == 'call' and ins[3][0] == 'g':
                    nm = ins[3][1][1:]
                    if self.m.fn_noreturn(ins[3][1], ins[5]): return nm
            t = f.blocks[b][-1]
            if t[0] == 'br': b = t[2]
            elif t[0] == 'cbr': b = t[3]
            else: break
        return 'unreachable'

    # ------------------------------------------------------------ one block
    def block(self, f, I, b, k, s, fork):
        env, mem = s.env, s.mem
        ins_l = f.blocks[b]
        if k == 0 and s.prev != 'merged':
            upd = {}
            for ins in ins_l:
                if ins[0] != 'phi': break
                for v, pb in ins[3]:
                    if pb == s.prev: upd[ins[1]] = self.const(ins[2], v, env); break
                else: raise Unsupported('phi edge')
            env.update(upd)
        while k < len(ins_l):
            ins = ins_l[k]; k += 1
            op = ins[0]
            self.stats['instrs'] += 1
            if op == 'phi' or op == 'nop': continue
            if op == 'bin':
                _, r, o, ty, a, c = ins
                x, y = self.const(ty, a, env), self.const(ty, c, env)
                if isinstance(x, tuple): raise Unsupported('vector op')
                if o[0] == 'f': env[r] = T.fop(o, x, y)
                else:
                    if isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)):
                        env[r] = self.ptrarith(o, x, y); continue
                    env[r] = T.binop(o, x, y)
            elif op == 'icmp':
                _, r, pr, ty, a, c = ins
                env[r] = self.icmp(pr, self.const(ty, a, env), self.const(ty, c, env))
            elif op == 'fcmp':
                _, r, pr, ty, a, c = ins
                env[r] = self.fcmp(pr, self.const(ty, a, env), self.const(ty, c, env))
            elif op == 'fneg': env[ins[1]] = T.fneg(self.const(ins[2], ins[3], env))
            elif op == 'freeze': env[ins[1]] = self.const(ins[2], ins[3], env)
            elif op == 'cast':
                _, r, o, ft, v, tt = ins
                env[r] = self.cast(o, self.const(ft, v, env), ft, tt)
            elif op == 'select':
                _, r, ty, ct, c, a, d = ins
                cv = self.const(ct, c, env)
                if isinstance(cv, tuple): raise Unsupported('vector select')
                env[r] = vite(cv, self.const(ty, a, env), self.const(ty, d, env))
            elif op == 'alloca':
                _, r, ty, cnt = ins
                n = size_align(ty)[0]
                if cnt is not None: n *= self.const(('i', 64), cnt, env).p
                env[r] = self.new_obj(mem, n)
            elif op == 'load': env[ins[1]] = self.load(mem, ins[2], self.const('ptr', ins[3], env))
            elif op == 'store': self.store(mem, ins[2], self.const(ins[2], ins[3], env), self.const('ptr', ins[4], env))
            elif op == 'gep':
                _, r, bt, base, ix = ins
                env[r] = self.gep(bt, self.const('ptr', base, env), [(t, self.const(t, x, env)) for t, x in ix])
            elif op == 'extractvalue':
                v = self.const(ins[2], ins[3], env)
                for i in ins[5]: v = v[i]
                env[ins[1]] = v
            elif op == 'insertvalue':
                v = self.const(ins[2], ins[3], env); e = self.const(ins[4][0], ins[4][1], env)
                env[ins[1]] = insval(v, ins[5], e)
            elif op == 'call':
                r = self.call(f, ins, s)
                if r == 'dead': return None
                if isinstance(r, list):     # outcomes of a called function
                    if not r: return None
                    if self.mode == 'merge' or len(r) == 1:
                        pc, v, m = r[0]; s.pc = pc; s.mem = mem = m
                        if ins[1]: env[ins[1]] = v
                    else:
                        for pc, v, m in r:
                            e = dict(env)
                            if ins[1]: e[ins[1]] = v
                            fork(b, k, State(e, dict(m), pc, s.prev))
                        return None
                elif ins[1]: env[ins[1]] = r[0]
            elif op == 'br': return ('go', [(ins[2], T.TRUE)])
            elif op == 'cbr':
                c = self.const(('i', 1), ins[2], env)
                if T.is_c(c): return ('go', [(ins[3] if c.p else ins[4], T.TRUE)])
                if ins[3] == ins[4]: return ('go', [(ins[3], T.TRUE)])
                # already decided by the path condition?
                if c in s.pc: return ('go', [(ins[3], T.TRUE)])
                nc = T.not_(c)
                if nc in s.pc: return ('go', [(ins[4], T.TRUE)])
                return ('go', [(ins[3], c), (ins[4], nc)])
            elif op == 'switch':
                _, _, ty, v, d, cs = ins
                x = self.const(ty, v, env)
                outs = {}; order = []; rest = []
                for c, t in cs:
                    e = T.eq(x, self.const(ty, c)); rest.append(T.not_(e))
                    if t not in outs: order.append(t)
                    outs[t] = T.or_(outs.get(t, T.FALSE), e)
                dc = T.and_(*rest)
                if d not in outs: order.append(d)
                outs[d] = T.or_(outs.get(d, T.FALSE), dc)
                res = [(t, outs[t]) for t in order if outs[t] is not T.FALSE]
                return ('go', res)
            elif op == 'ret': return ('ret', None if ins[3] is None else self.const(ins[2], ins[3], env))
            elif op == 'unreachable':
                self.panics.append((s.pc, 'unreachable')); return None
            else: raise Unsupported(op)
        raise Unsupported('fallthrough')

    def ptrarith(self, o, x, y): raise Unsupported('pointer arithmetic')
    def icmp(self, pr, a, b):
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, PIte): return T.ite(a.c, self.icmp(pr, a.a, b), self.icmp(pr, a.b, b))
            if isinstance(b, PIte): return T.ite(b.c, self.icmp(pr, a, b.a), self.icmp(pr, a, b.b))
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('ptr/int compare')
            if a.obj == b.obj:
                x = a.off if isinstance(a.off, T.Term) else T.bv(64, a.off)
                y = b.off if isinstance(b.off, T.Term) else T.bv(64, b.off)
                return self.icmp(pr, x, y)
            if pr == 'eq': return T.FALSE
            if pr == 'ne': return T.TRUE
            raise Unsupported('ptr order')
        if pr == 'eq': return T.eq(a, b)
        if pr == 'ne': return T.not_(T.eq(a, b))
        if pr[1:] in ('gt', 'ge'): return T.cmp(pr[0] + {'gt': 'lt', 'ge': 'le'}[pr[1:]], b, a)
        return T.cmp(pr, a, b)
    def fcmp(self, pr, a, b):
        if pr == 'true': return T.TRUE
        if pr == 'false': return T.FALSE
        uno = lambda: T.or_(T.isnan(a), T.isnan(b))
        if pr == 'ord': return T.not_(uno())
        if pr == 'uno': return uno()
        k = pr[1:]
        if pr[0] == 'o':
            if k == 'eq': return T.fcmp('feq', a, b)
            if k == 'ne': return T.or_(T.fcmp('flt', a, b), T.fcmp('flt', b, a))
            if k in ('gt', 'ge'): return T.fcmp('flt' if k == 'gt' else 'fle', b, a)
            return T.fcmp('flt' if k == 'lt' else 'fle', a, b)
        # unordered: not of the opposite ordered comparison
        if k == 'eq': return T.not_(T.or_(T.fcmp('flt', a, b), T.fcmp('flt', b, a)))
        if k == 'ne': return T.not_(T.fcmp('feq', a, b))
        if k == 'lt': return T.not_(T.fcmp('fle', b, a))
        if k == 'le': return T.not_(T.fcmp('flt', b, a))
        if k == 'gt': return T.not_(T.fcmp('fle', a, b))
        return T.not_(T.fcmp('flt', a, b))
    def cast(self, o, v, ft, tt):
        if o == 'trunc': return T.trunc(v, 0 if tt[1] == 1 else tt[1])
        if o == 'zext': return T.zext(v, tt[1])
        if o == 'sext': return T.sext(v, tt[1])
        if o in ('fptrunc', 'fpext'):
            if tt == 'half' or ft == 'half': raise Unsupported('half')
            return T.fpconv(v, tt)
        if o in ('sitofp', 'uitofp'): return T.tofp(o == 'sitofp', v, tt)
        if o in ('fptosi', 'fptoui'): return T.toint_sat(o == 'fptosi', v, tt[1])
        if o == 'bitcast': return self.conv(v, tt)
        if o in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            if isinstance(v, Ptr) and v.obj is None and o != 'inttoptr': return T.bv(tt[1], v.off)
            if isinstance(v, T.Term) and T.is_c(v): return Ptr(None, v.p)
            return v
        raise Unsupported(o)

    # ------------------------------------------------------------ calls
    def call(self, f, ins, s):
        _, res, rt, callee, args, at = ins
        env, mem = s.env, s.mem
        if callee[0] == 'g': nm = callee[1][1:]; gname = callee[1]
        else:
            fp = self.const('ptr', callee, env)
            if not (isinstance(fp, Ptr) and fp.obj and fp.obj[0] == 'fn'): raise Unsupported('indirect call')
            gname = fp.obj[1]; nm = gname[1:]
        if nm.startswith('llvm.'):
            if nm.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.sideeffect', 'llvm.donothing')): return (None,)
            return (self.intrinsic(nm, rt, [(t, self.const(t, a, env) if a != ('md',) else None) for t, a in args], s),)
        if self.m.fn_noreturn(gname, at):
            self.panics.append((s.pc, nm)); return 'dead'
        av = [self.const(t, a, env) for t, a in args]
        if nm in ('memcpy', 'memmove'):
            self.memcpy(mem, av[0], av[1], av[2].p); return (av[0],)
        if nm in ('memcmp', 'bcmp'): return (self.memcmp(mem, av, rt),)
        st = self.stub(nm)
        if callable(st): return (st(self, rt, av, s),)
        if gname in self.m.fns and not st:
            return self.run(gname, av, mem, s.pc)
        # uninterpreted
        base = st if isinstance(st, str) else nm
        self.stats['ufs'].add(base)
        flat = []
        for x in av: flat += flatten(x)
        if any(isinstance(x, (Ptr, PIte)) for x in flat): raise Unsupported(f'call {nm} with pointers')
        return (mkuf(base, rt, flat),)
    def memcmp(self, mem, av, rt):
        n = av[2]
        if not T.is_c(n): raise Unsupported('memcmp symbolic')
        r = T.bv(rt[1], 0)
        for i in reversed(range(n.p)):
            a = self.load(mem, ('i', 8), self.gep(('i', 8), av[0], [(('i', 64), T.bv(64, i))]))
            b = self.load(mem, ('i', 8), self.gep(('i', 8), av[1], [(('i', 64), T.bv(64, i))]))
            r = T.ite(T.eq(a, b), r, T.sub(T.zext(a, rt[1]), T.zext(b, rt[1])))
        return r
    def intrinsic(self, nm, rt, av, s):
        a = [x[1] for x in av]
        p = nm.split('.')
        if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
            if not T.is_c(a[2]): raise Unsupported('memcpy size')
            self.memcpy(s.mem, a[0], a[1], a[2].p); return None
        if nm.startswith('llvm.memset'):
            if not T.is_c(a[2]): raise Unsupported('memset size')
            n = a[2].p; o = 0
            for w in (8, 4, 2, 1):
                while n - o >= w:
                    v = a[1]
                    r = v
                    for _ in range(w-1): r = T.concat(r, v)
                    self.store(s.mem, ('i', 8*w), r, self.gep(('i', 8), a[0], [(('i', 64), T.bv(64, o))])); o += w
            return None
        if 'with' in p:
            o = p[1]; x, y = a[0], a[1]
            return (T.binop(o[1:], x, y), T.ovf(o+'o', x, y))
        k = p[1]
        if k in ('smax', 'smin', 'umax', 'umin'):
            c = T.cmp(k[0]+'lt', a[0], a[1]); return T.ite(c, a[0], a[1]) if k[1:] == 'min' else T.ite(c, a[1], a[0])
        if k == 'abs': return T.ite(T.cmp('slt', a[0], T.bv(a[0].sort, 0)), T.neg(a[0]), a[0])
        if p[1:3] in (['uadd', 'sat'], ['usub', 'sat'], ['sadd', 'sat'], ['ssub', 'sat']):
            n = a[0].sort; o = T.ovf(k+'o', a[0], a[1]); r = T.binop(k[1:], a[0], a[1])
            if k == 'uadd': return T.ite(o, T.bv(n, -1), r)
            if k == 'usub': return T.ite(o, T.bv(n, 0), r)
            return T.ite(o, T.ite(T.cmp('slt', a[0], T.bv(n, 0)), T.bv(n, 1 << (n-1)), T.bv(n, (1 << (n-1))-1)), r)
        if k == 'ctlz': return clz(a[0])
        if k == 'cttz': return ctz(a[0])
        if k == 'ctpop':
            n = a[0].sort; r = T.bv(n, 0)
            for i in range(n): r = T.add(r, T.zext(T.extract(i, i, a[0]), n))
            return r
        if k in ('fshl', 'fshr'):
            n = a[0].sort; c = T.binop('urem', a[2], T.bv(n, n))
            w = T.concat(a[0], a[1]); c2 = T.zext(c, 2*n)
            if k == 'fshl': return T.extract(2*n-1, n, T.binop('shl', w, c2))
            return T.extract(n-1, 0, T.binop('lshr', w, c2))
        if k == 'bswap':
            n = a[0].sort; r = T.extract(7, 0, a[0])
            for i in range(1, n//8): r = T.concat(r, T.extract(8*i+7, 8*i, a[0]))
            return r
        if k in ('fptosi', 'fptoui'): return T.toint_sat(k == 'fptosi', a[0], rt[1])
        if k == 'fabs': return T.fabs_(a[0])
        if k == 'sqrt': return T.fop('fsqrt', a[0])
        if k in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundeven'):
            return T.fop({'floor': 'ffloor', 'ceil': 'fceil', 'trunc': 'ftrunc'}.get(k, 'frint'), a[0])
        if k == 'copysign':
            x, y = T.f_to_bits(a[0]), T.f_to_bits(a[1]); n = x.sort
            return T.bits_to_f(T.binop('or', T.binop('and', x, T.bv(n, T.mask(n-1))), T.binop('and', y, T.bv(n, 1 << (n-1)))))
        if k in ('ucmp', 'scmp'):
            w = rt[1]
            return T.ite(T.cmp(k[0]+'lt', a[0], a[1]), T.bv(w, -1), T.ite(T.eq(a[0], a[1]), T.bv(w, 0), T.bv(w, 1)))
        if k in ('minnum', 'minimumnum'):
            return T.ite(T.isnan(a[0]), a[1], T.ite(T.isnan(a[1]), a[0], T.ite(T.fcmp('flt', a[1], a[0]), a[1], a[0])))
        if k in ('maxnum', 'maximumnum'):
            return T.ite(T.isnan(a[0]), a[1], T.ite(T.isnan(a[1]), a[0], T.ite(T.fcmp('flt', a[0], a[1]), a[1], a[0])))
        if k == 'expect': return a[0]
        if p[1:3] == ['is', 'constant']: return T.FALSE
        if p[1:3] == ['is', 'fpclass']: return fpclass(a[0], a[1].p)
        if k == 'trap': s.pc = s.pc; self.panics.append((s.pc, 'trap')); return None
        if k in ('fma', 'fmuladd', 'powi', 'pow', 'exp', 'log', 'sin', 'cos', 'exp2', 'log2', 'log10', 'exp10', 'tan'):
            self.stats['ufs'].add(nm); return mkuf(nm, rt, [x for x in a])
        raise Unsupported(nm)

def mkuf(base, rt, flat):
    if rt == 'void': return None
    if isinstance(rt, tuple) and rt[0] == 'st':
        return tuple(mkuf(f"{base}.{i}", e, flat) for i, e in enumerate(rt[1]))
    if isinstance(rt, tuple) and rt[0] == 'arr':
        return tuple(mkuf(f"{base}.{i}", rt[2], flat) for i in range(rt[1]))
    if rt == 'ptr': raise Unsupported('uf returning pointer')
    s = rt if isinstance(rt, str) else (0 if rt[1] == 1 else rt[1])
    return T.uf(base, s, *flat)
def flatten(x):
    if isinstance(x, tuple):
        r = []
        for e in x: r += flatten(e)
        return r
    return [x]
def insval(v, ix, e):
    v = list(v); v[ix[0]] = e if len(ix) == 1 else insval(v[ix[0]], ix[1:], e)
    return tuple(v)
def locals_in(ins):
    out = []
    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): out.append(x[1]); return
            for e in x: w(e)
        elif isinstance(x, list):
            for e in x: w(e)
    for x in ins[2:]: w(x)
    return out
def clz(x):
    n = x.sort; r = T.bv(n, n)
    for i in range(n): r = T.ite(T.eq(T.extract(i, i, x), T.bv(1, 1)), T.bv(n, n-1-i), r)
    return r
def ctz(x):
    n = x.sort; r = T.bv(n, n)
    for i in reversed(range(n)): r = T.ite(T.eq(T.extract(i, i, x), T.bv(1, 1)), T.bv(n, i), r)
    return r
def fpclass(x, m):
    f = 23 if x.sort == 'f32' else 52
    b = T.f_to_bits(x); n = b.sort
    s = T.eq(T.extract(n-1, n-1, b), T.bv(1, 1)); e = T.extract(n-2, f, b); fr = T.extract(f-1, 0, b)
    ez = T.eq(e, T.bv(e.sort, 0)); e1 = T.eq(e, T.bv(e.sort, -1)); fz = T.eq(fr, T.bv(f, 0))
    q = T.eq(T.extract(f-1, f-1, b), T.bv(1, 1)); ns = T.not_(s)
    norm = T.and_(T.not_(ez), T.not_(e1)); sub = T.and_(ez, T.not_(fz)); z = T.and_(ez, fz); inf = T.and_(e1, fz)
    nan = T.and_(e1, T.not_(fz))
    if m & 3 == 3 and x.op not in ('bitsf',): nan_any = T.isnan(x)
    else: nan_any = None
    cs = [T.and_(nan, T.not_(q)), T.and_(nan, q), T.and_(s, inf), T.and_(s, norm), T.and_(s, sub), T.and_(s, z),
          T.and_(ns, z), T.and_(ns, sub), T.and_(ns, norm), T.and_(ns, inf)]
    r = T.FALSE
    if m == 3: return T.isnan(x)
    for i in range(10):
        if m >> i & 1: r = T.or_(r, cs[i])
    return r
