"""C16: sizes, counts and positions from a peer, a file or a text are compared with the room there is before they bound a write.

Outside data: what an input call (read, recv, SSL_read, fread, netCDF, scanf, or a kit function that passes its argument on to one)
puts into memory, buffers reached through a member that is filled so anywhere in the kit, and what is copied from those. A value
loaded from there is limited only by its type, the length of a piece of text by nothing; comparisons on the way, clamps and the
arithmetic done with it are followed by the interval analysis of rules/bounds.py."""
import re, sys
from collections import defaultdict
import rk, bounds
from bounds import INF, BITS
from extent import extent, Ext
from r_c14 import WRITES, measured
from r_c15 import sites, what as tablename

sys.setrecursionlimit(20000)

# input call: positions of the pointers it fills
FILLS = {'fread': (0,), 'read': (1,), 'recv': (1,), 'recvfrom': (1,), 'SSL_read': (1,), 'fgets': (0,), 'pread': (1,),
         'nc_inq_dimlen': (2,), 'nc_inq_dim': (3,), 'nc_inq_attlen': (3,), 'nc_inq_ndims': (1,), 'nc_inq_varid': (), 'nc_get_att_text': (3,)}
TEXTPOS = {'strchr', 'strrchr', 'strstr', 'strpbrk', 'strtok', 'strcasestr', 'memchr', 'index', 'rindex', 'strsep', 'strcspn', 'strspn'}
SCAN = {'sscanf': 2, '__isoc99_sscanf': 2, '__isoc23_sscanf': 2, 'fscanf': 2, '__isoc99_fscanf': 2, '__isoc23_fscanf': 2, 'scanf': 1, '__isoc99_scanf': 1, '__isoc23_scanf': 1}
COPY = ('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
EXPANDS = {'RKBytesInHex': (0, 2, 3, 3)}       # destination, count, bytes for each, and in all
CAPACITY = {'RKGetInt16CDataFromPulse': ('RKPulse', 4), 'RKGetComplexDataFromPulse': ('RKPulse', 8), 'RKGetSplitComplexDataFromPulse': ('RKPulse', 4),
            'RKGetUInt8DataFromRay': ('RKRay', 1), 'RKGetInt16DataFromRay': ('RKRay', 2), 'RKGetFloatDataFromRay': ('RKRay', 4)}


def strip(f, o):
    while isinstance(o, int) and f.insts[o].op in rk.CASTS: o = f.insts[o].x[0]
    return o


def within(e, d):
    """address e lies in the object at address d"""
    while True:
        if e == d: return True
        if e[0] in ('fld', 'idx'): e = e[1]
        else: return False


class In(bounds.Bounds):
    def __init__(self, P):
        super().__init__(P, False)
        self.fills = {n: set(p) for n, p in FILLS.items()}
        self.buffers = set()        # members that hold, or point to, received bytes
        self.args = set()           # (function, argument) that may point to received bytes
        self.summaries()

    # ---- where outside data is
    def input_calls(self, f):
        """[(call, destination address)] of the calls in f that fill memory from outside"""
        k = ('in', f.rawname)
        if k not in self.cache:
            res = []
            for i in f.calls():
                c = i.callee or ''
                for n in self.fills.get(c, ()):
                    if n < len(i.args):
                        e = f.expr(i.args[n])
                        if e[0] == 'idx' and e[2][0] != 'c' and not self.isarray(e[1]): e = e[1]       # the next part of it
                        res.append((i, e))
                if c in SCAN:
                    for a in i.args[SCAN[c]:]:
                        e = f.expr(a)
                        if e[0] in ('loc', 'fld', 'idx'): res.append((i, e))
                if c.startswith('nc_get_'):
                    e = f.expr(i.args[-1])
                    res.append((i, e))
            self.cache[k] = res
        return self.cache[k]

    def summaries(self):
        self.cache = {}
        P = self.P
        ch = True
        while ch:
            ch = False
            for f in P.analysed():
                for i in f.calls():
                    for n in list(self.fills.get(i.callee or '', ())):
                        if n >= len(i.args): continue
                        e = f.expr(i.args[n])
                        while e[0] == 'idx': e = e[1]
                        if e[0] == 'arg' and e[1] not in self.fills.setdefault(f.name, set()): self.fills[f.name].add(e[1]); ch = True
        for f in P.analysed():
            for i in f.calls():
                for n in self.fills.get(i.callee or '', ()):
                    if n >= len(i.args): continue
                    e = f.expr(i.args[n])
                    while e[0] == 'idx': e = e[1]
                    if e[0] == 'fld': self.buffers.add((e[2], e[3]))
                    if e[0] == 'ld' and rk.lastfield(e[1]): self.buffers.add(rk.lastfield(e[1]))
                    if e[0] == 'call':          # a fresh buffer: the members it is kept in
                        for s in f.insts:
                            if s.op == 'store' and f.expr(s.x[0]) == e and rk.lastfield(f.expr(s.x[1])): self.buffers.add(rk.lastfield(f.expr(s.x[1])))
        # only raw bytes: a member of a structure type read as a whole is judged where it is read
        self.buffers = {b for b in self.buffers if self.rawbytes(b)}
        ch = True
        while ch:
            ch = False
            for f in P.analysed():
                for i in f.calls():
                    g = P.f(i.callee, False) if i.callee else None
                    if g is None or g.decl: continue
                    for n, a in enumerate(i.args):
                        if (g.name, n) in self.args or n >= len(g.argty): continue
                        if g.argty[n] == 'p' and self.received(f, f.expr(a)): self.args.add((g.name, n)); ch = True
            self.cache = {}
            for f in P.analysed():
                for _, d in self.texts(f):
                    while d[0] == 'idx': d = d[1]
                    if d[0] == 'fld' and self.rawbytes((d[2], d[3])) and (d[2], d[3]) not in self.buffers and self.isarray(d): self.buffers.add((d[2], d[3])); ch = True
            self.cache = {}

    def rawbytes(self, b):
        s = self.P.structs.get(b[0])
        if not s: return False
        for fl in s['fields']:
            if fl[0] == b[1]: return bool(re.search(r'char|void|uint8|\bi8\b', '%s %s' % (fl[4] or '', fl[3])))
        return False

    def received(self, f, e, depth=0):
        """address e lies in a buffer of received bytes"""
        while True:
            if e[0] == 'fld':
                if (e[2], e[3]) in self.buffers and self.isarray(e): return True
                e = e[1]
            elif e[0] == 'idx': e = e[1]
            elif e[0] == 'ld':
                lf = rk.lastfield(e[1])
                return lf in self.buffers and not self.isarray(e[1])
            elif e[0] == 'arg': return (f.name, e[1]) in self.args
            elif e[0] == 'call' and e[1] in TEXTPOS and isinstance(e[2], int): e = f.expr(f.insts[e[2]].args[0])
            elif e[0] == 'phi' or e[0] == 'op' and e[1] == 'select':
                if depth > 6: return False
                if e[0] == 'op': return any(self.received(f, x, depth + 1) for x in e[3:5])
                return any(self.received(f, f.expr(v), depth + 1) for v in f.phi_leaves(e[1]) if v != e[1])
            elif e[0] == 'loc':
                return any(d == e for _, d in self.input_calls(f)) or any(rk.root(d) == e for _, d in self.texts(f))
            else: return False

    def texts(self, f):
        """[(call, destination)] of the texts copied from received ones"""
        k = ('texts', f.rawname)
        if k in self.cache: return self.cache[k]
        self.cache[k] = []
        res = []
        for i in f.calls('strcpy', 'strncpy', 'strcat', 'strncat', 'memcpy', 'llvm.memcpy.p0.p0.i64'):
            if self.received(f, f.expr(i.args[1])): res.append((i, f.expr(i.args[0])))
        self.cache[k] = res
        return res

    def isarray(self, e):
        s = self.P.structs.get(e[2]) if e[0] == 'fld' else None
        if not s: return False
        for fl in s['fields']:
            if fl[0] == e[3]: return str(fl[3]).startswith('[')
        return False

    # ---- bounds
    def argument(self, f, n, up, depth):
        if not f.static: return None
        return super().argument(f, n, up, depth)

    def top(self, i, e, up):
        w = BITS.get(i.ty)
        if not w: return INF if up else -INF
        lf = rk.lastfield(e)
        u = self.uns(lf) if lf else self.zx(i)
        if up: return (1 << w) - 1 if u or w < 32 else (1 << (w - 1)) - 1
        return 0 if u else -(1 << (w - 1))

    def zx(self, i):
        return True

    def copies(self, f):
        k = ('copies', f.rawname)
        if k not in self.cache:
            self.cache[k] = [(i, f.expr(i.args[0])) for i in f.calls() if (i.callee or '').startswith(COPY) and self.received(f, f.expr(i.args[1]))]
        return self.cache[k]

    def memory(self, f, i, up, depth):
        e = f.expr(i.idx)[1]
        lf = rk.lastfield(e)
        ins = {c.idx: (c, 'input') for c, d in self.input_calls(f) + self.copies(f) if within(e, d)}
        sts = {j.idx: (j, 'store') for j in f.insts if j.op == 'store' and f.expr(j.x[1]) == e}
        rec = self.received(f, e)
        if not ins and not sts and not rec: return super().memory(f, i, up, depth)
        if depth > 10: return None
        defs = dict(sts); defs.update(ins)
        if lf:
            for j in f.calls():
                if j.idx in defs or not j.callee or j.callee.startswith('llvm.') or j.callee in rk.PURE_CALLS: continue
                if rk.root(e)[0] == 'loc' and not any(rk.root(f.expr(a)) == rk.root(e) for a in j.args): continue
                if lf in self.P.stored_by(j.callee): defs[j.idx] = (j, 'call')
        full = self.top(i, e, up)
        res = None; murky = False
        for j, kind in defs.values():
            ways = self.way(f, j, i, defs)
            if ways is None: continue
            b = full if kind == 'input' else self.bound(f, j.x[0], j, None, depth + 1, up) if kind == 'store' else None
            b = self.refine(f, ways, e, b, up, depth)
            if b is None: murky = True; continue
            res = b if res is None else max(res, b) if up else min(res, b)
        if rec and (not sts or res is None):
            ways = []
            res = full
            murky = False
        if res is not None and (res >= full if up else res <= full): return full
        return None if murky or res is None else res

    def refine(self, f, ways, e, b, up, depth):
        for fa in ways:
            if fa[0] == 'notin': continue
            for q, l, orr in ((fa[0], fa[1], fa[4]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[3])):
                if l != ('ld', e) or orr is None: continue
                t = f.blocks[fa[5]][-1]
                if up and q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                    u = self.bound(f, orr, t, None, depth + 1, True)
                    if u is None: return None           # compared with something: not decided
                    if u < INF: u -= q in ('slt', 'ult'); b = u if b is None else min(b, u)
                if not up and q in ('sgt', 'ugt', 'sge', 'uge', 'eq'):
                    u = self.bound(f, orr, t, None, depth + 1, False)
                    if u is None: return None
                    if u > -INF: u += q in ('sgt', 'ugt'); b = u if b is None else max(b, u)
        return b

    def value(self, f, o, at, edge, depth, up):
        if isinstance(o, int):
            i = f.insts[o]
            if i.op == 'sub' and up and self.textdiff(f, i): return INF
            if i.op == 'add' and up:
                for a, b in ((0, 1), (1, 0)):
                    u = self.rest(f, i.x[a], i.x[b], depth)
                    if u is not None: return u
        return super().value(f, o, at, edge, depth, up)

    def rest(self, f, k, r, depth):
        """bound of k + r, where r is what a call has read of 'X - k' bytes at most: X"""
        j = strip(f, r)
        j = f.insts[j] if isinstance(j, int) else None
        if j is not None and j.op == 'load':
            t = self.sole(f, j); j = strip(f, t.x[0]) if t is not None else None
            j = f.insts[j] if isinstance(j, int) else None
        if j is None or j.op != 'call': return None
        n = self.atmost(j.callee)
        if n is None or n >= len(j.args): return None
        s = strip(f, j.args[n])
        s = f.insts[s] if isinstance(s, int) else None
        if s is None or s.op != 'sub' or f.expr(strip(f, s.x[1])) != f.expr(strip(f, k)): return None
        return self.bound(f, s.x[0], j, None, depth + 1, True)

    def atmost(self, c):
        """the argument a call's result never exceeds"""
        if c in ('read', 'recv', 'recvfrom', 'SSL_read', 'pread'): return 2
        if c == 'fread': return None
        g = self.P.f(c, False) if c else None
        if g is None or g.decl: return None
        k = ('atmost', g.rawname)
        if k not in self.pure:
            self.pure[k] = None
            ns = set()
            for t in g.insts:
                if t.op != 'ret' or not t.x: continue
                for v in g.phi_leaves(t.x[0]):
                    v = strip(g, v)
                    j = g.insts[v] if isinstance(v, int) else None
                    if g.const(v) is not None and g.const(v) <= 0: continue
                    n = self.atmost(j.callee) if j is not None and j.op == 'call' else None
                    a = strip(g, j.args[n]) if n is not None else None
                    ns.add(a[1] if isinstance(a, list) and a[0] == 'a' else None)
            self.pure[k] = ns.pop() if len(ns) == 1 else None
        return self.pure[k]

    def textdiff(self, f, i):
        """difference of two positions in a text, at least one of them searched for"""
        a, b = strip(f, i.x[0]), strip(f, i.x[1])
        if not all(isinstance(x, int) and self.ispointer(f, x) or isinstance(x, list) and x[0] == 'a' and f.argty[x[1]] == 'p' for x in (a, b)): return False
        return any(self.searched(f, x) for x in (a, b)) and any(self.received(f, self.pexpr(f, x)) for x in (a, b))

    def pexpr(self, f, x): return f.expr(x)

    def ispointer(self, f, o): return f.insts[o].ty == 'p'

    def searched(self, f, o, seen=None):
        seen = seen if seen is not None else set()
        o = strip(f, o)
        if not isinstance(o, int) or o in seen: return False
        seen.add(o); i = f.insts[o]
        if i.op == 'call': return i.callee in TEXTPOS
        if i.op == 'getelementptr': return self.searched(f, i.x[0], seen)
        if i.op == 'phi': return any(self.searched(f, x[0], seen) or self.walked(f, x[0], o) for x in i.x)
        if i.op == 'select': return any(self.searched(f, x, seen) for x in i.x[1:])
        return False

    def walked(self, f, v, o):
        """a pointer moved on until it finds something"""
        v = strip(f, v)
        return isinstance(v, int) and f.insts[v].op == 'getelementptr' and strip(f, f.insts[v].x[0]) == o

    def result(self, f, i, up, depth):
        c = i.callee or ''
        if c.startswith('llvm.bswap') or c in ('ntohl', 'ntohs', 'ntohll'):
            w = BITS.get(i.ty, 64)
            b = self.bound(f, i.args[0], i, None, depth + 1, True)
            if b is None: return None
            return (1 << w) - 1 if up else 0
        if c in ('read', 'recv', 'recvfrom', 'SSL_read'):
            n = 2
            return self.bound(f, i.args[n], i, None, depth + 1, True) if up else -1
        if c == 'strlen' and up:
            e = extent(self.P, f, i.args[0])
            if e is not None: return (e.left if e.sym is None else e.size) - 1
            return INF if self.received(f, f.expr(i.args[0])) else None
        return super().result(f, i, up, depth)


def origin_of(B, f, o, depth=0, seen=None):
    """a value comes from outside: what to say about it"""
    seen = seen if seen is not None else set()
    if depth > 25: return None
    o = strip(f, o)
    if isinstance(o, list):
        if o[0] == 'a' and f.static and f.rawname not in B.P.address_taken():
            if (f.name, o[1]) in seen: return None
            seen.add((f.name, o[1]))
            for g, i in B.calls().get(f.name, ()):
                if o[1] < len(i.args):
                    t = origin_of(B, g, i.args[o[1]], depth + 1, seen)
                    if t: return t
        return None
    if (f.rawname, o) in seen: return None
    seen.add((f.rawname, o))
    i = f.insts[o]
    if i.op == 'load':
        e = f.expr(o)[1]
        for c, d in B.input_calls(f) + B.copies(f):
            if within(e, d) and reaches(f, c, i): return 'filled by %s at line %s' % ((c.callee or '').replace('llvm.', '').split('.')[0], c.loc().split(':')[-1])
        if B.received(f, e): return 'received data'
        for j in f.insts:
            if j.op == 'store' and f.expr(j.x[1]) == e and reaches(f, j, i):
                t = origin_of(B, f, j.x[0], depth + 1, seen)
                if t: return t
        return None
    if i.op == 'sub' and B.textdiff(f, i): return 'length of a piece of text'
    if i.op == 'call':
        c = i.callee or ''
        if c.startswith(('llvm.bswap', 'llvm.umin', 'llvm.smin', 'llvm.umax', 'llvm.smax')) or c in ('ntohl', 'ntohs', 'ntohll'):
            return next((t for t in (origin_of(B, f, a, depth + 1, seen) for a in i.args) if t), None)
        if c in ('atoi', 'atol', 'strtol', 'strtoul'): return 'a number in text'
        if c in ('read', 'recv', 'recvfrom', 'SSL_read'): return 'result of ' + c
        if c == 'strlen' and B.received(f, f.expr(i.args[0])): return 'length of a received text'
        g = B.P.f(c, False)
        if g is not None and not g.decl and g.static:
            for t in g.insts:
                if t.op == 'ret' and t.x:
                    s = origin_of(B, g, t.x[0], depth + 1, seen)
                    if s: return s
        return None
    if i.op in ('phi',): ops = [x[0] for x in i.x]
    elif i.op == 'select': ops = i.x[1:]
    elif i.op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'): ops = i.x[:2]
    else: return None
    for x in ops:
        t = origin_of(B, f, x, depth + 1, seen)
        if t: return t
    return None


def reaches(f, a, b):
    if a.bb == b.bb and a.pos < b.pos: return True
    return any(b.bb == s or b.bb in f.reach()[s] for s in f.succs[a.bb])


def linear(f, e, depth=0):
    """{term: factor} of an expression, constants under ()"""
    if e[0] == 'c': return {(): e[1]}
    if e[0] == 'op' and depth < 8:
        if e[1] in ('add', 'sub'):
            a, b = linear(f, e[2], depth + 1), linear(f, e[3], depth + 1)
            r = dict(a)
            for k, v in b.items(): r[k] = r.get(k, 0) + (v if e[1] == 'add' else -v)
            return r
        if e[1] == 'mul':
            a, b = linear(f, e[2], depth + 1), linear(f, e[3], depth + 1)
            if set(b) == {()}: a, b = b, a
            if set(a) == {()}: return {k: v * a[()] for k, v in b.items()}
        if e[1] == 'shl' and e[3][0] == 'c': return {k: v << e[3][1] for k, v in linear(f, e[2], depth + 1).items()}
    return {(e,): 1}


def covered(size, need):
    """size - need is a constant of at least zero, or made of terms counted at least as often"""
    d = dict(size)
    for k, v in need.items(): d[k] = d.get(k, 0) - v
    return all(v >= 0 for v in d.values())


def lengths(B, f, i, pos, up=True):
    n = 1
    for p in pos:
        b = B.upper(f, i.args[p], i) if up else B.lower(f, i.args[p], i)
        if b is None: return None
        if not up and b < 0: return b
        n = bounds.sat(n * b)
    return n


def rest(B, f, o, sym, at):
    """bound of X when a length is X less the offset 'sym' at which it is put; through the arguments of a static function"""
    o = strip(f, o)
    if isinstance(o, int) and f.insts[o].op == 'sub':
        if f.expr(f.insts[o].x[1]) == sym: return B.upper(f, f.insts[o].x[0], at)
    if isinstance(o, int) and f.insts[o].op in ('sub', 'add') and f.const(f.insts[o].x[1]) is not None:
        c = f.const(f.insts[o].x[1]); u = rest(B, f, f.insts[o].x[0], sym, at)
        return None if u is None else u - c if f.insts[o].op == 'sub' else u + c
    if isinstance(o, list) and o[0] == 'a' and sym[0] == 'arg' and f.static:
        res = None
        for g, i in B.calls().get(f.name, ()):
            s = g.expr(i.args[sym[1]])
            u = B.upper(g, i.args[o[1]], i) if s == ('c', 0) else rest(B, g, i.args[o[1]], s, i)
            if u is None: return None
            res = u if res is None else max(res, u)
        return res
    return None


def operand(f, e, o, depth=0):
    """operand within the computation of pointer o whose expression is e"""
    while isinstance(o, int) and depth < 20:
        i = f.insts[o]; depth += 1
        if i.op == 'getelementptr':
            for p in i.x[1]:
                if p[0] in 'ip' and f.expr(p[1]) == e: return p[1]
            o = i.x[0]
        elif i.op in rk.CASTS: o = i.x[0]
        else: return None


def space(B, f, o, depth=0):
    """extent of a destination, also through the arguments of a kit function: the least any caller supplies"""
    e = extent(B.P, f, o)
    if e is not None or depth > 4: return e
    sym = None; off = 0; base = o
    while True:
        base = strip(f, base)
        if not isinstance(base, int): break
        i = f.insts[base]
        if i.op == 'getelementptr' and len(i.x[1]) == 1 and i.x[1][0][0] in 'ip':
            p = i.x[1][0]; c = f.const(p[1])
            if c is not None: off += c * p[2]
            elif sym is None: sym = (p[2], f.expr(p[1]))
            else: return None
            base = i.x[0]
        elif i.op == 'phi' and off == 0 and sym is None:
            vs = [v for v in f.phi_leaves(base)]
            if any(v == base for v in vs): return None
            es = [space(B, f, v, depth + 1) for v in vs]
            if not es or any(e is None or e.sym for e in es): return None
            return min(es, key=lambda e: e.left)
        else: break
    if not (isinstance(base, list) and base[0] == 'a'):
        if base is o or base == o: return None
        e = extent(B.P, f, base)
        return None if e is None or e.sym else Ext(e.size, e.off + off, sym, e.what, None)
    if f.rawname in B.P.address_taken(): return None
    best = None
    for g, i in B.calls().get(f.name, ()):
        if base[1] >= len(i.args): return None
        e = space(B, g, i.args[base[1]], depth + 1)
        if e is None or e.sym: return None
        if best is None or e.left < best.left: best = e
    return None if best is None else Ext(best.left, off, sym, best.what, None)


def limit_from_outside(B, f, o, at):
    """the index is compared with a value from outside, and with nothing that limits it"""
    e = f.expr(o)
    for fa in B.facts(f, at):
        if fa[0] == 'notin': continue
        for q, l, orr in ((fa[0], fa[1], fa[4]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[3])):
            if l == e and orr is not None and q in ('slt', 'ult', 'sle', 'ule', 'ne'):
                t = origin_of(B, f, orr)
                if t: return t
    return None


def check(r):
    P = rk.Program()
    B = In(P)
    r.count('filling_functions', len(B.fills)); r.count('received_buffers', len(B.buffers)); r.count('received_arguments', len(B.args))
    for f in P.analysed():
        for i in f.calls():
            w = WRITES.get(i.callee)
            if w and w[0] is not None: write(r, P, B, f, i, w)
            if i.callee in SCAN: words(r, P, B, f, i)
            if i.callee in ('strcpy', 'stpcpy', 'strcat', 'sprintf'): whole(r, P, B, f, i)
            if i.callee in EXPANDS: expanded(r, P, B, f, i, *EXPANDS[i.callee])
        for i in f.insts:
            if i.op == 'store': terminator(r, P, B, f, i)
    records(r, P, B)
    done = set()
    for f, i, n, o, size in sites(P):
        name = tablename(f, i, n)
        if name.endswith('fds_bits'): continue
        t = origin_of(B, f, o) or limit_from_outside(B, f, o, i)
        if not t: continue
        r.count('indices_from_outside')
        up, lo = B.upper(f, o, i), B.lower(f, o, i)
        if up is None and lo is None: r.count('not_decided'); continue
        if up is not None and up >= size or lo is not None and lo < 0:
            if (f.name, name) in done: continue
            done.add((f.name, name))
            r.violation('%s:%s' % (f.name, name), '%s %s: %s has %d elements, its index %s (%s) is not limited to them' % (i.loc(), f.name, name, size, rk.show(f.expr(o), f), t))
        else: r.count('limited')
    r.need('writes', 100); r.need('lengths_from_outside', 8)
    r.explanation = 'Every write of a variable length and every index, with the outside data it comes from and the bound derived for it.'
    r.assumptions = ['arguments of the kit\'s public functions keep their contracts', 'a length compared with something whose bound is not understood is not reported (not_decided)']


def whole(r, P, B, f, i):
    """a received text is copied as it is, however long it is"""
    if i.callee == 'sprintf':
        v = f.val(i.args[1])
        if not (isinstance(v, list) and v[0] == 's'): return
        specs = [x for x in re.findall(r'%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])', v[1]) if x[2] != '%']
        if any('*' in x[:2] for x in specs): return
        srcs = [i.args[2 + k] for k, x in enumerate(specs) if x[2] == 's' and not x[1] and 2 + k < len(i.args)]
    else: srcs = [i.args[1]]
    for s in srcs:
        e = f.expr(s)
        if not B.received(f, e): continue
        src, dst = extent(P, f, s), space(B, f, i.args[0])
        if dst is None: continue
        r.count('texts_copied')
        if src is not None and src.left <= (dst.left if dst.sym is None else dst.size): r.count('limited'); continue
        if src is None and rk.root(e)[0] != 'ld' and not (e[0] == 'ld'): r.count('not_decided'); continue
        if measured(f, i, s, dst.left if dst.sym is None else dst.size): r.count('limited'); continue
        r.violation('%s:%s:%s' % (f.name, i.callee, dst.what), '%s %s: %s of the text at %s, which comes from outside, to %s, which has %d bytes: its length is not limited to them' % (i.loc(), f.name, i.callee, rk.show(e, f), dst.what, dst.size))


def expanded(r, P, B, f, i, d, n, per, more):
    """a text made of every byte of a counted piece"""
    if not origin_of(B, f, i.args[n]): return
    e = extent(P, f, i.args[d])
    r.count('lengths_from_outside')
    up = B.upper(f, i.args[n], i)
    if e is None or e.sym or up is None: r.count('not_decided'); return
    if up * per + more > e.left: r.violation('%s:%s:%s' % (f.name, i.callee, e.what), '%s %s: %s writes %d bytes for each of %s bytes to %s, which has %d' % (i.loc(), f.name, i.callee, per, 'any number of' if up >= INF else 'up to %d' % up, e.what, e.left))
    else: r.count('limited')


def write(r, P, B, f, i, w):
    d, pos, s = w
    if all(f.const(i.args[p]) is not None for p in pos):
        if i.callee in FILLS: constant(r, P, B, f, i, d, pos)
        return
    r.count('writes')
    c = i.callee.replace('llvm.', '').split('.')[0]
    ts = [t for t in (origin_of(B, f, i.args[p]) for p in pos) if t]
    if not ts: return
    r.count('lengths_from_outside')
    dst = i.args[d]
    ln = '*'.join(rk.show(f.expr(i.args[p]), f) for p in pos)
    # room: fixed, allocated here, or the capacity of a slot
    e = space(B, f, dst)
    up, lo = lengths(B, f, i, pos), lengths(B, f, i, pos, False)
    where = '%s %s: %s of %s (%s)' % (i.loc(), f.name, c, ln, ts[0])
    if e is not None:
        key = '%s:%s:%s' % (f.name, c, e.what)
        if e.sym is None: room = e.left
        else:
            u = rest(B, f, i.args[pos[0]], e.sym[1], i) if len(pos) == 1 and e.sym[0] == 1 else None
            if u is not None:
                if u >= INF or u + e.off > e.size: r.violation(key, '%s to %s at an offset: together they may exceed its %d bytes' % (where, e.what, e.size))
                else: r.count('limited'); r.sample('%s: at most %d with its offset, in %d' % (where, u, e.size))
                return
            so = operand(f, e.sym[1], dst)
            os = B.upper(f, so, i) if so is not None else None
            if os is None or up is None: r.count('not_decided'); r.sample('not decided: ' + where); return
            up = bounds.sat(up + os * e.sym[0]); room = e.size
        if up is None and lo is None: r.count('not_decided'); r.sample('not decided: ' + where)
        elif up is not None and up > room: r.violation(key, '%s to %s, which has %d bytes: it is not limited to them' % (where, e.what, room))
        elif lo is not None and lo < -1: r.violation(key, '%s to %s: it may be negative' % (where, e.what))
        else: r.count('limited' if up is not None else 'not_decided'); r.sample('%s: at most %s in %d' % (where, up, room))
        return
    base = strip(f, dst)
    leaves = f.phi_leaves(dst)
    for v in leaves:
        v = strip(f, v)
        j = f.insts[v] if isinstance(v, int) else None
        if j is None: continue
        if j.op == 'call' and j.callee in CAPACITY:
            slot(r, B, f, i, j, pos, where)
            return
        if j.op == 'call' and j.callee in ('malloc', 'calloc', 'realloc'):
            size = ('op', 'mul', f.expr(j.args[0]), f.expr(j.args[1])) if j.callee == 'calloc' else f.expr(j.args[-1])
            need = f.expr(i.args[pos[0]]) if len(pos) == 1 else ('op', 'mul', f.expr(i.args[pos[0]]), f.expr(i.args[pos[1]]))
            if covered(linear(f, size), linear(f, need)): r.count('limited'); r.sample('%s: allocated with that size' % where); return
            so = B.upper(f, j.args[-1], j)
            if so is not None and up is not None and so < (1 << 31) and up > so: r.violation('%s:%s:heap' % (f.name, c), '%s to %d bytes of memory: it is not limited to them' % (where, so)); return
    if given(B, f, i, dst, pos, up): r.violation('%s:%s:argument' % (f.name, c), '%s to the buffer of the caller: it is not limited by anything' % where); return
    r.count('not_decided'); r.sample('not decided: ' + where)


def constant(r, P, B, f, i, d, pos):
    """so many bytes are asked for as the buffer has"""
    e = space(B, f, i.args[d])
    if e is None or e.sym: return
    n = 1
    for p in pos: n *= f.const(i.args[p])
    r.count('constant_reads')
    if n > e.left: r.violation('%s:%s:%s' % (f.name, i.callee, e.what), '%s %s: %s of up to %d bytes to %s, which has %d' % (i.loc(), f.name, i.callee, n, e.what, e.left))


def given(B, f, i, dst, pos, up):
    """the buffer is the caller's, and what a peer announced is read into it whatever it is"""
    base = dst; sym = None
    while True:
        base = strip(f, base)
        if not isinstance(base, int) or f.insts[base].op != 'getelementptr' or len(f.insts[base].x[1]) != 1: break
        p = f.insts[base].x[1][0]
        if p[0] not in 'ip': return False
        if f.const(p[1]) is None: sym = f.expr(p[1])
        base = f.insts[base].x[0]
    if not (isinstance(base, list) and base[0] == 'a'): return False
    if sym is not None and len(pos) == 1: up = rest(B, f, i.args[pos[0]], sym, i)
    return up is not None and up >= (1 << 31) - 1


def slot(r, B, f, i, j, pos, where):
    """data of a pulse or ray slot: the length was compared with its capacity"""
    kind = CAPACITY[j.callee][0]
    r.count('slot_writes')
    ok = False
    for p in pos:
        for x in rk.subexprs(f.expr(i.args[p])):
            if x[0] != 'ld' and x[0] != 'phi': continue
            for fa in rk.facts_at(f, i):
                if fa[0] == 'notin': continue
                for a, b in ((fa[1], fa[2]), (fa[2], fa[1])):
                    if a == x and iscapacity(b): ok = True
    if not ok: ok = clamped(B, f, i, pos) or madehere(f, i, j, pos)
    if ok: r.count('limited'); r.sample('%s: compared with the capacity of the slot' % where)
    else: r.violation('%s:%s' % (f.name, j.callee), '%s to the data of a %s: it is not compared with the capacity of the slot' % (where, kind))


def madehere(f, i, j, pos):
    """the buffer of the slot was allocated in this function with a capacity made of the same values"""
    vs = {x for p in pos for x in rk.subexprs(f.expr(i.args[p])) if x[0] in ('ld', 'phi', 'arg')}
    for a in f.calls('RKPulseBufferAlloc', 'RKRayBufferAlloc'):
        if f.dominates(a, i) and vs & made_of(f, a.args[1]): return True
    return False


def made_of(f, o, seen=None):
    seen = seen if seen is not None else set()
    res = set(rk.subexprs(f.expr(o)))
    for x in list(res):
        if x[0] == 'call' and isinstance(x[2], int) and x not in seen:
            seen.add(x)
            for a in f.insts[x[2]].args: res |= made_of(f, a, seen)
        if x[0] == 'phi' and x not in seen:
            seen.add(x)
            for v in f.phi_leaves(x[1]): res |= made_of(f, v, seen)
    return res


def iscapacity(e):
    return any(x[0] == 'ld' and (rk.lastfield(x[1]) or ('', ''))[1].lower().endswith(('capacity', 'capac')) or x[0] == 'loc' and 'apacity' in str(x[2]) for x in rk.subexprs(e))


def clamped(B, f, i, pos):
    """the value was replaced by a capacity where it was larger: 'if (n > capacity) n = capacity' before it is used"""
    names = set()
    for p in pos:
        for x in rk.subexprs(f.expr(i.args[p])):
            if x[0] == 'ld' and rk.lastfield(x[1]): names.add(rk.lastfield(x[1])[1])
            if x[0] == 'op' and x[1] == 'select' and iscapacity(x[2]): return True
            if x[0] == 'call' and x[1].startswith('llvm.') and 'min' in x[1] and any(iscapacity(f.expr(a)) for a in f.insts[x[2]].args): return True
            if x[0] == 'phi':
                ph = f.insts[x[1]]
                if any(iscapacity(f.expr(v[0])) for v in ph.x): return True
    for b, blk in enumerate(f.blocks):
        if not blk or b not in f.dom()[i.bb]: continue
        t = blk[-1]
        if t.op != 'br' or len(t.x) != 3: continue
        for pos2 in (0, 1):
            m, at = rk.atoms(f, b, pos2)
            for fa in at:
                if fa[0] == 'notin': continue
                for a, c in ((fa[1], fa[2]), (fa[2], fa[1])):
                    if iscapacity(c) and any(x[0] == 'ld' and (rk.lastfield(x[1]) or ('', ''))[1] in names for x in rk.subexprs(a)): return True
    return False


def words(r, P, B, f, i):
    """%s and %[ conversions: the width given, or the size of the text scanned, fits the destination"""
    k = SCAN[i.callee]
    v = f.val(i.args[k - 1])
    if not (isinstance(v, list) and v[0] == 's'): return
    n = k
    for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|j|z|t|L)?(\[\^?\]?[^\]]*\]|.)', v[1]):
        if m.group(4) == '%': continue
        if m.group(1): continue
        if n >= len(i.args): return
        a = i.args[n]; n += 1
        if m.group(4)[0] not in 's[': continue
        r.count('scanned_words')
        e = extent(P, f, a)
        if e is None: r.count('not_decided'); continue
        room = e.left if e.sym is None else e.size
        most = int(m.group(2)) + 1 if m.group(2) else None
        if most is None and k == 2 and 'sscanf' in i.callee:
            src = extent(P, f, i.args[0])
            if src is not None: most = src.size
        if most is None or most > room:
            r.violation('%s:scan:%s' % (f.name, e.what), '%s %s: a word of %s is scanned into %s, which has %d bytes' % (i.loc(), f.name, 'any length' if most is None else 'up to %d bytes' % most, e.what, room))
        else: r.count('limited')


def terminator(r, P, B, f, i):
    """a terminator put where the received text ends"""
    if f.const(i.x[0]) != 0: return
    g = f.insts[i.x[1]] if isinstance(i.x[1], int) else None
    if g is None or g.op != 'getelementptr' or len(g.x[1]) != 1: return
    p = g.x[1][0]
    if p[0] != 'p' or f.const(p[1]) is not None: return
    t = origin_of(B, f, p[1])
    if not t: return
    e = space(B, f, g.x[0])
    if e is None or e.sym: return
    r.count('terminators')
    up = B.upper(f, p[1], i)
    if up is None: r.count('not_decided')
    elif up >= e.left: r.violation('%s:terminator:%s' % (f.name, e.what), '%s %s: a terminator is put at position %s (%s) of %s, which has %d bytes: it is not limited to them' % (i.loc(), f.name, rk.show(f.expr(p[1]), f), t, e.what, e.left))
    else: r.count('limited')


# ---- records that are kept
def hazards(P):
    """{(record type, member): (kind, {structures whose buffers it reaches into})}: 'offset' members are added to the position in a buffer
    whose size is chosen at run time, up to 'length' members a loop runs, as they are; those only used after being limited are not among them"""
    res = {}
    for f in P.analysed():
        heads = set(f.loops()); off = {}; lens = set()
        for i in f.insts:
            if i.op != 'load' or i.ty not in ('i8', 'i16', 'i32', 'i64'): continue
            lf = rk.lastfield(f.expr(i.idx)[1])
            if not lf or lf[0] not in P.structs: continue
            todo = [i.idx]; seen = set()
            while todo:
                o = todo.pop()
                if o in seen: continue
                seen.add(o)
                for u in f.users().get(o, ()):
                    if u.op in ('zext', 'sext', 'trunc'): todo.append(u.idx)
                    elif u.op == 'getelementptr' and any(p[0] == 'p' and p[1] == o for p in u.x[1]):
                        b = f.expr(u.x[0])
                        if b[0] == 'ld' and rk.lastfield(b[1]): off.setdefault(lf, set()).add(rk.lastfield(b[1])[0])
                    elif u.op == 'icmp' and u.bb in heads and u.x[0] in ('slt', 'ult', 'sgt', 'ugt', 'ne') and u.x[2] == o:
                        v = strip(f, u.x[1])
                        if isinstance(v, int) and f.insts[v].op == 'phi' and f.insts[v].bb == u.bb: lens.add(lf)
        for lf, ws in off.items(): res.setdefault(lf, ['offset', set()])[1].update(ws)
        for lf in lens: res.setdefault(lf, ['length', set()])[1].update(w for k, ws in off.items() if k[0] == lf[0] for w in ws)
    return res


def recordtype(P, e):
    """structure type that address e, in memory that is kept, is of"""
    while e[0] == 'idx': e = e[1]
    lf = rk.lastfield(e)
    if not lf or e[0] != 'fld' or rk.root(e)[0] == 'loc': return None
    for fl in (P.structs.get(lf[0]) or {'fields': []})['fields']:
        if fl[0] == lf[1]:
            m = re.search(r'S:(\w+)', str(fl[3]))
            return m.group(1) if m else None


def arrivals(B, f):
    """[(call, destination)]: input, and copies of what arrived"""
    ins = B.input_calls(f)
    more = [(i, f.expr(i.args[0])) for i in f.calls() if (i.callee or '').startswith(COPY) and any(within(f.expr(i.args[1]), d) for _, d in ins)]
    return ins + B.copies(f) + more


def mentions(e, lf):
    return any(x[0] == 'ld' and rk.lastfield(x[1]) == lf for x in rk.subexprs(e))


def records(r, P, B):
    """a record that comes from outside and is kept: each of its members by which memory is reached later is limited, for every entry, before the function is done"""
    hz = hazards(P)
    for f in P.analysed():
        for i, d in arrivals(B, f):
            t = recordtype(P, d)
            if t is None: continue
            e = d
            while e[0] == 'idx': e = e[1]
            sized = t in ('RKPulseHeader', 'RKRayHeader')       # the data of its slot has a capacity
            want = {k: v[0] for k, v in hz.items() if k[0] == t and (e[2] in v[1] or sized and v[0] == 'length')}
            for lf, kind in sorted(want.items()):
                r.count('kept_record_members')
                why = kept(f, i, lf, kind, {k for k, v in hz.items() if k[0] == lf[0] and v[0] == 'length'})
                if why: r.violation('%s:%s.%s' % (f.name, lf[0], lf[1]), '%s %s: %s.%s, which arrives here and %s, %s' % (i.loc(), f.name, lf[0], lf[1], 'is added to the position in a buffer later' if kind == 'offset' else 'bounds a loop over a buffer later', why))
                else: r.count('limited')


def kept(f, i, lf, kind, lens):
    edges = set(); some = False
    for b, blk in enumerate(f.blocks):
        if not blk: continue
        if any(s.op == 'store' and rk.lastfield(f.expr(s.x[1])) == lf and s is not i for s in blk): edges |= {(b, p) for p in range(len(f.succs[b]))}; some = True
        for p in range(len(f.succs[b])):
            how, at = rk.atoms(f, b, p)
            if how != 'all' and len(at) != 1: continue
            for fa in at:
                if fa[0] == 'notin': continue
                for q, l, m in ((fa[0], fa[1], fa[2]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[1])):
                    if q not in ('slt', 'ult', 'sle', 'ule') or not mentions(l, lf): continue
                    some = True
                    if kind == 'offset' and (l[0] == 'c' or m[0] == 'c' or not any(mentions(l, n) or mentions(m, n) for n in lens)): continue
                    edges.add((b, p))
    if not some: return 'is never compared with what there is room for'
    if not edges: return 'is not compared, together with the length, with the size of the buffer'
    loops = f.loops()
    inner = [(len(s), h) for h, s in loops.items() if any(b in s for b, _ in edges)]
    if not inner or i.bb in loops[min(inner)[1]]:
        if escapes(f, i.bb, None, edges, None) and escapes(f, 0, i.bb, edges, None): return 'is not limited on every way'
        return None
    h = min(inner)[1]; body = loops[h]
    if escapes(f, h, h, edges, body): return 'is not limited for every entry'
    return None


def escapes(f, start, goal, edges, body):
    """a way around the loop (or to the end of the function) that takes none of the edges"""
    todo = [start]; seen = set()
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        if goal is None and f.blocks[b][-1].op == 'ret': return True
        for p, s in enumerate(f.succs[b]):
            if (b, p) in edges: continue
            if body is not None and s not in body: continue
            if s == goal: return True
            todo.append(s)
    return False
