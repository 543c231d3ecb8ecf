"""Parser for the subset of textual LLVM IR that rustc + the opt pipeline in build.py emit."""
import re

TOK = re.compile(r'''
  c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # c-string
 |[@%](?:"[^"]*"|[-A-Za-z$._0-9]+)
 |"[^"]*"
 |![-A-Za-z$._0-9]*(?:\([^)]*\))?
 |\#\d+
 |0x[HKLMR]?[0-9A-Fa-f]+
 |f0x[0-9A-Fa-f]+
 |[-+](?:inf|qnan|nan|snan)(?:\(0x[0-9A-Fa-f]+\))?
 |[-+]?\d+\.\d*(?:[eE][-+]?\d+)?
 |-?\d+
 |\.\.\.
 |[A-Za-z_][-A-Za-z_0-9.]*
 |[()\[\]{}<>,=*:|]
''', re.X)

def lex(s):
    out = []; i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n\r': i += 1; continue
        if c == ';':
            j = s.find('\n', i); i = n if j < 0 else j; continue
        m = TOK.match(s, i)
        if not m: raise SyntaxError(f"lex at {s[i:i+60]!r}")
        out.append(m.group(0)); i = m.end()
    return out

# types: ('i',n) 'f32' 'f64' 'half' 'ptr' 'void' ('arr',n,t) ('st',(ts),packed) ('vec',n,t) 'label' 'metadata'
class P:
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else None
    def next(s): s.i += 1; return s.t[s.i-1]
    def eat(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def need(s, x):
        if not s.eat(x): raise SyntaxError(f"need {x!r} got {s.t[s.i:s.i+12]} in {' '.join(s.t[:40])}")
    def end(s): return s.i >= len(s.t)

    def type(s):
        t = s.next()
        if re.fullmatch(r'i\d+', t): r = ('i', int(t[1:]))
        elif t == 'float': r = 'f32'
        elif t == 'double': r = 'f64'
        elif t in ('half', 'ptr', 'void', 'label', 'metadata', 'token', 'fp128', 'bfloat'): r = t
        elif t == '[':
            n = int(s.next()); s.need('x'); e = s.type(); s.need(']'); r = ('arr', n, e)
        elif t == '<':
            if s.peek() == '{':
                s.next(); ts = s._tl('}'); s.need('>'); r = ('st', ts, True)
            else:
                n = int(s.next()); s.need('x'); e = s.type(); s.need('>'); r = ('vec', n, e)
        elif t == '{': r = ('st', s._tl('}'), False)
        elif t[0] == '%': r = ('named', t)
        else: raise SyntaxError(f"type? {t} in {' '.join(s.t[:40])}")
        if r == 'ptr' and s.peek() == 'addrspace': s.next(); s.next(); s.next(); s.next()
        return s.m.resolve(r) if isinstance(r, tuple) and r[0] == 'named' else r
    def _tl(s, e):
        ts = []
        if s.eat(e): return ()
        while True:
            ts.append(s.type())
            if s.eat(e): return tuple(ts)
            s.need(',')

    def value(s, ty):
        """constant or local reference -> ('l',name) ('g',name) ('c',int) ('f',bits) ('zero',) ('undef',) ('agg',[(ty,v)]) ('str',bytes) ('gep',...)"""
        t = s.next()
        if t[0] == '%': return ('l', t)
        if t[0] == '@': return ('g', unq(t))
        if t == 'true': return ('c', 1)
        if t == 'false': return ('c', 0)
        if t in ('null', 'zeroinitializer'): return ('zero',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'splat': raise NotImplementedError('splat')
        if t in ('[', '{', '<'):
            pk = t == '<' and s.eat('{')
            e = {'[': ']', '{': '}', '<': '>'}[t] if not pk else '}'
            r = []
            if not s.eat(e):
                while True:
                    et = s.type(); r.append((et, s.value(et)))
                    if s.eat(e): break
                    s.need(',')
            if pk: s.need('>')
            return ('agg', r)
        if t.startswith('c"'):
            b = bytearray(); x = t[2:-1]; i = 0
            while i < len(x):
                if x[i] == '\\':
                    if x[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(x[i+1:i+3], 16)); i += 3
                else: b += x[i].encode(); i += 1
            return ('str', bytes(b))
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw') or (s.peek() or '').startswith('inrange'):
                if s.next().startswith('inrange') and s.peek() == '(':
                    while s.next() != ')': pass
            s.need('('); bt = s.type(); s.need(','); s.need('ptr'); b = s.value('ptr'); ix = []
            while s.eat(','):
                it = s.type(); ix.append((it, s.value(it)))
            s.need(')'); return ('gep', bt, b, ix)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            s.need('('); ft = s.type(); v = s.value(ft); s.need('to'); tt = s.type(); s.need(')')
            return ('cast', t, ft, v, tt)
        if t in ('sub', 'add'):
            while s.peek() in ('nuw', 'nsw'): s.next()
            s.need('('); a = s.type(); x = s.value(a); s.need(','); b = s.type(); y = s.value(b); s.need(')')
            return ('cbin', t, a, x, y)
        if ty in ('f32', 'f64'):
            import struct
            from . import terms
            if t.startswith('f0x'):      # hex bits, newer syntax
                return ('f', int(t[3:], 16))
            if t.startswith('0x'):       # double bits
                d = struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0]
                bits = terms.f2b(ty, d)
                return ('f', bits)
            if re.match(r'[-+]?\d', t): return ('f', terms.f2b(ty, float(t)))
            if t in ('+inf', '-inf', 'inf', '+nan', 'nan', '-nan', '+qnan', '-qnan', 'qnan'):
                return ('f', terms.f2b(ty, float(t.replace('q', ''))))
        if re.fullmatch(r'-?\d+', t): return ('c', int(t))
        raise SyntaxError(f"value? {t} ty {ty} in {' '.join(s.t[max(0,s.i-15):s.i+15])}")

    def skip_attrs(s):
        """parameter/return attributes"""
        while True:
            t = s.peek()
            if t is None: return
            if t in ATTR0: s.next()
            elif t in ATTRP:
                s.next()
                if s.eat('('):
                    d = 1
                    while d:
                        x = s.next()
                        d += (x == '(') - (x == ')')
                elif t == 'align': s.next()
            elif t == 'range' and s.peek(1) == '(':
                s.next(); s.next(); d = 1
                while d:
                    x = s.next(); d += (x == '(') - (x == ')')
            elif t[0] == '"':
                s.next()
                if s.eat('='): s.next()
            else: return
ATTR0 = set('noundef zeroext signext inreg nonnull noalias nocapture readonly writeonly readnone immarg returned nofree nest swiftself inalloca writable dead_on_unwind allocptr dead_on_return noext'.split())
ATTRP = set('align dereferenceable dereferenceable_or_null sret byval captures initializes nofpclass range memory elementtype byref dead_on_return'.split())

def unq(n): return n[0] + n[2:-1] if n[1:2] == '"' else n

class Fn:
    pass
class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.fns = {}; self.decls = {}; self.attrs = {}; self.aliases = {}
        self._named = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, d = l.split(' = type ', 1); self._named[nm.strip()] = d
            elif l.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l); self.attrs[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare '):
                self._decl(l)
            elif l.startswith('define '):
                j = i+1
                while lines[j] != '}': j += 1
                nm = unq(re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', l).group(0)[:-1])
                f = Fn(); f.name = nm; f.head = l; f.lines = lines[i+1:j]; f.parsed = False
                self.fns[nm] = f; i = j
            i += 1
    def resolve(self, r):
        nm = r[1]
        if nm not in self.types:
            d = self._named[nm]
            if d == 'opaque': self.types[nm] = ('st', (), False)
            else: self.types[nm] = P(lex(d), self).type()
        return self.types[nm]
    def _global(self, l):
        nm, d = l.split(' = ', 1)
        self.globals[unq(nm.strip())] = ['raw', d]
    def glob(self, nm):
        g = self.globals[nm]
        if g[0] == 'raw':
            p = P(lex(g[1]), self)
            ext = False; alias = False
            while p.peek() not in ('constant', 'global', 'alias'):
                if p.next() in ('external', 'extern_weak'): ext = True
                if p.peek() == '(':   # thread_local(..), addrspace(..)
                    while p.next() != ')': pass
            kind = p.next()
            ty = p.type()
            if kind == 'alias':
                p.need(','); p.need('ptr'); g[:] = ['alias', p.value('ptr'), None]
            else:
                g[:] = ['g', ty, None if ext else p.value(ty)]
        return g
    def _decl(self, l):
        m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', l)
        nm = unq(m.group(0)[:-1])
        at = re.findall(r'#\d+', l[m.end():])
        self.decls[nm] = (l, at[-1] if at else None)
    def fn_noreturn(self, nm, callattrs=()):
        if nm in self.decls:
            a = self.decls[nm][1]
            if a and 'noreturn' in self.attrs.get(a, ''): return True
        if nm in self.fns:
            a = re.findall(r'#\d+', self.fns[nm].head)
            if a and 'noreturn' in self.attrs.get(a[-1], '').split(): return True
        return any('noreturn' in self.attrs.get(a, '') for a in callattrs)

    def fn(self, nm):
        f = self.fns[nm]
        if f.parsed: return f
        self._sig(f)
        blocks = []; cur = None; buf = ''
        first = True
        for l in f.lines:
            s = l.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^("[^"]*"|[-A-Za-z$._0-9]+):', l)
            if m:
                cur = [m.group(1), []]; blocks.append(cur); continue
            if cur is None:
                cur = [None, []]; blocks.append(cur)
            # join multi-line switch / landingpad
            if buf: 
                buf += ' ' + s
                if s.startswith(']'): cur[1].append(buf); buf = ''
                continue
            if s.startswith('switch ') and ']' not in s: buf = s; continue
            if s.startswith('#dbg'): continue
            cur[1].append(s)
        f.order = []; f.blocks = {}
        if blocks[0][0] is None:
            blocks[0][0] = str(f.nunnamed)
        for nm_, ins in blocks:
            nm_ = '%' + nm_
            f.order.append(nm_); f.blocks[nm_] = [self.instr(x) for x in ins]
        f.entry = f.order[0]; f.parsed = True; f.lines = None
        return f
    def _sig(self, f):
        p = P(lex(f.head[len('define '):].rsplit('{', 1)[0]), self)
        KW = set('private internal available_externally linkonce weak common appending linkonce_odr weak_odr external dso_local dso_preemptable hidden protected default fastcc coldcc ccc unnamed_addr local_unnamed_addr comdat noundef'.split())
        while p.peek() in KW or p.peek() in ATTR0 or p.peek() in ATTRP or p.peek() == 'range' or p.peek()[0] == '"':
            if p.peek() in KW: p.next()
            else: p.skip_attrs()
        f.ret = p.type(); p.next(); p.need('(')
        f.params = []; n = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'): p.need(')'); break
                ty = p.type(); sret = 'sret' in p.t[p.i:p.i+6]
                p.skip_attrs()
                if p.peek()[0] == '%': nm = p.next()
                else: nm = f'%{n}'
                if re.fullmatch(r'%\d+', nm): n = int(nm[1:])+1
                f.params.append((ty, nm))
                if p.eat(')'): break
                p.need(',')
        f.nunnamed = n

    FLAGS = set('nuw nsw exact inbounds nusw nneg disjoint samesign fast nnan ninf nsz arcp contract afn reassoc volatile tail musttail notail'.split())
    def instr(self, s):
        p = P(lex(re.sub(r', !.*$', '', re.sub(r'/\*.*?\*/', '', s))), self)
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        fl = []
        while p.peek() in self.FLAGS: fl.append(p.next())
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
            return ('bin', res, op, ty, a, b)
        if op == 'fneg':
            ty = p.type(); return ('fneg', res, ty, p.value(ty))
        if op in ('icmp', 'fcmp'):
            while p.peek() in self.FLAGS: p.next()
            pr = p.next(); ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
            return (op, res, pr, ty, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            ft = p.type(); v = p.value(ft); p.need('to'); tt = p.type()
            return ('cast', res, op, ft, v, tt)
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.need(','); ty = p.type(); a = p.value(ty); p.need(','); t2 = p.type(); b = p.value(t2)
            return ('select', res, ty, ct, c, a, b)
        if op == 'freeze':
            ty = p.type(); return ('freeze', res, ty, p.value(ty))
        if op == 'phi':
            ty = p.type(); inc = []
            while True:
                p.need('['); v = p.value(ty); p.need(','); b = p.next(); p.need(']'); inc.append((v, b))
                if not p.eat(','): break
            return ('phi', res, ty, inc)
        if op == 'br':
            ty = p.type()
            if ty == 'label': return ('br', None, p.next())
            c = p.value(ty); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
            return ('cbr', None, c, a, b)
        if op == 'switch':
            ty = p.type(); v = p.value(ty); p.need(','); p.need('label'); d = p.next(); p.need('['); cs = []
            while not p.eat(']'):
                t2 = p.type(); c = p.value(t2); p.need(','); p.need('label'); cs.append((c, p.next()))
            return ('switch', None, ty, v, d, cs)
        if op == 'ret':
            ty = p.type()
            return ('ret', None, ty, None if ty == 'void' else p.value(ty))
        if op == 'unreachable': return ('unreachable', None)
        if op == 'alloca':
            p.eat('inalloca'); ty = p.type(); cnt = None
            if p.eat(','):
                if p.peek() not in ('align', 'addrspace'): ct = p.type(); cnt = p.value(ct)
            return ('alloca', res, ty, cnt)
        if op == 'load':
            p.eat('volatile'); ty = p.type(); p.need(','); p.type(); a = p.value('ptr'); return ('load', res, ty, a)
        if op == 'store':
            p.eat('volatile'); ty = p.type(); v = p.value(ty); p.need(','); p.type(); a = p.value('ptr'); return ('store', None, ty, v, a)
        if op == 'getelementptr':
            while p.peek() in self.FLAGS: p.next()
            bt = p.type(); p.need(','); p.type(); b = p.value('ptr'); ix = []
            while p.eat(','):
                it = p.type(); ix.append((it, p.value(it)))
            return ('gep', res, bt, b, ix)
        if op in ('extractvalue', 'insertvalue'):
            ty = p.type(); v = p.value(ty); e = None
            if op == 'insertvalue':
                p.need(','); et = p.type(); e = (et, p.value(et))
            ix = []
            while p.eat(','): ix.append(int(p.next()))
            return (op, res, ty, v, e, ix)
        if op == 'call':
            while p.peek() in self.FLAGS: p.next()
            while p.peek() in ('fastcc', 'coldcc', 'ccc', 'preserve_mostcc') : p.next()
            p.skip_attrs()
            rt = p.type()
            if p.peek() == '(':   # full function type
                d = 0
                while True:
                    x = p.next(); d += (x == '(') - (x == ')')
                    if d == 0: break
            if p.peek() == 'asm':
                return ('asm', res)
            callee = p.value('ptr'); p.need('('); args = []
            if not p.eat(')'):
                while True:
                    ty = p.type()
                    if ty == 'metadata':
                        args.append((ty, ('md',)));
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next(); d += (x in '({') - (x in ')}')
                    else:
                        p.skip_attrs(); args.append((ty, p.value(ty)))
                    if p.eat(')'): break
                    p.need(',')
            at = [t for t in p.t[p.i:] if t[0] == '#']
            return ('call', res, rt, callee, args, at)
        if op == 'fence': return ('nop', None)
        raise SyntaxError('instr ' + s)

# ---------------------------------------------------------------- layout (x86-64)
def size_align(t):
    if t == 'f32': return 4, 4
    if t == 'f64': return 8, 8
    if t == 'half': return 2, 2
    if t == 'ptr': return 8, 8
    if t[0] == 'i':
        n = t[1]; b = (n+7)//8
        a = 1
        while a < b: a *= 2
        return (a if n > 1 else 1), min(a, 16)
    if t[0] == 'arr':
        s, a = size_align(t[2]); return s*t[1], a
    if t[0] == 'vec':
        s, a = size_align(t[2]); return s*t[1], s*t[1]
    if t[0] == 'st':
        off, al = 0, 1
        for e in t[1]:
            s, a = size_align(e)
            if t[2]: a = 1
            off = (off+a-1)//a*a + s; al = max(al, a)
        return (off+al-1)//al*al, al
    raise NotImplementedError(t)
def offset_of(t, i):
    if t[0] in ('arr', 'vec'): return size_align(t[2])[0]*i, t[2]
    off = 0
    for k, e in enumerate(t[1]):
        s, a = size_align(e)
        if t[2]: a = 1
        off = (off+a-1)//a*a
        if k == i: return off, e
        off += s
    raise IndexError
