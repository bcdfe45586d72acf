"""Life-cycle facts shared by C05 to C09: state bits, their updates, start/stop functions and thread owners."""
import re
import rk
from collections import defaultdict

WIRED, ACTIVATING, DEACTIVATING, ACTIVE, WANT = 0x200, 0x400, 0x800, 0x2000, 0x8000
TEARDOWN = re.compile(r'(Free|Stop|Destroy|Close|Release|Shutdown|Terminate|Unload|Deinit|HangUp)$', re.I)
WIDTH = {'i8': 0xff, 'i16': 0xffff, 'i32': 0xffffffff}
NAPS = {'usleep', 'sleep', 'nanosleep', 'pthread_cond_wait', 'pthread_cond_timedwait', 'select', 'poll', 'sem_wait'}


def update(f, i):
    """(op, address expr, mask) of a store that updates bits of the member it reads"""
    if i.op != 'store': return None
    a = f.expr(i.x[1]); e = f.expr(i.x[0])
    if e[0] == 'op' and e[1] in ('or', 'and', 'xor'):
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if y[0] == 'c' and x == ('ld', a): return (e[1], a, y[1] & WIDTH.get(i.x[3] if len(i.x) > 3 else '', 0xffffffffffffffff))
    return None


def bittest(fa):
    """(address expr, mask, set?) of a branch fact that tests bits of a member"""
    if not fa or fa[0] not in ('eq', 'ne'): return None
    e, z = fa[1], fa[2]
    if e[0] == 'op' and e[1] == 'and':
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if y[0] == 'c' and x[0] == 'ld':
                m = y[1] if y[1] >= 0 else y[1] & 0xffffffff
                if z == ('c', 0): return (x[1], m, fa[0] == 'ne')
                if z == y: return (x[1], m, fa[0] == 'eq')
    return None


def proves_set(fa, bit):
    """address whose bit is certainly set under the fact"""
    t = bittest(fa)
    if not t or not t[2] or not t[1] & bit: return None
    if t[1] & (t[1] - 1) == 0: return t[0]
    return t[0] if fa[0] == 'eq' else None


def memberstr(e):
    lf = rk.lastfield(e)
    return '%s.%s' % lf if lf else rk.show(e)


class Bits:
    """typestate of the bits of one member along all paths of a function"""

    def __init__(self, f, addr, start=(0, 0), shared=0):
        self.f = f; self.shared = shared; self.a = addr; self.bad = {}
        self.ex = rk.Explorer(f, self.tr, self.ed)
        self.at = defaultdict(set)
        self.watch = set()
        self.exits = None
        self.start = start

    def run(self):
        self.exits = self.ex.run(self.start)
        return self

    def tr(self, i, st):
        if i.idx in self.watch: self.at[i.idx].add(st)
        if i.op != 'store': return None
        f = self.f
        if f.expr(i.x[1]) != self.a: return None
        u = update(f, i)
        M = 0xffffffffffffffff
        if u is None:
            e = f.expr(i.x[0])
            if e[0] == 'c': return [(e[1] & M, ~e[1] & M)]
            return [(0, 0)]
        s, c = st; m = u[2]
        if u[0] == 'or': return [(s | m & ~self.shared, c & ~m)]
        if u[0] == 'and': return [(s & m, c | (~m & M))]
        unk = m & ~s & ~c
        if unk: self.bad.setdefault(i.idx, ('unknown', unk))
        elif m & c: self.bad.setdefault(i.idx, ('clear', m & c))
        return [((s & ~m) | (m & c) | 0, (c & ~m) | (m & ~c))]

    def ed(self, f, bb, pos, st):
        t = bittest(rk.edge_fact(f, bb, pos))
        if not t or t[0] != self.a: return st
        s, c = st; m = t[1]
        if t[2]:
            if m & ~c == 0: return None
            # one bit, or a group that is always handled together
            if m & (m - 1) == 0 or self.grouped(m): return (s | m & ~self.shared, c & ~m)
            return st
        if s & m: return None
        return (s, c | m & ~self.shared)

    def grouped(self, m):
        return any((update(self.f, i) or (0, 0, 0))[2] == m for i in self.f.insts if i.op == 'store')


def wrongbits(i):
    return 0


def updates(P):
    """(struct, member) -> list of (fn, inst, op, mask, addr); constants stored count as 'set'"""
    if not hasattr(P, '_bitupdates'):
        d = defaultdict(list)
        for f in P.analysed():
            for i in f.insts:
                u = update(f, i)
                if u:
                    lf = rk.lastfield(u[1])
                    if lf: d[lf].append((f, i, u[0], u[2], u[1]))
                elif i.op == 'store':
                    lf = rk.lastfield(f.expr(i.x[1])); e = f.expr(i.x[0])
                    if lf and lf[1] == 'state': d[lf].append((f, i, 'set', e[1] if e[0] == 'c' else -1, f.expr(i.x[1])))
        P._bitupdates = d
    return P._bitupdates


def thread_entries(P):
    s = set()
    for t in P.threads(): s |= set(t[3])
    return s


def joins(P):
    """pthread_join sites of analysed functions: (fn, inst, address expr of the id or None, member or None)"""
    res = []
    for f in P.analysed():
        for i in f.calls('pthread_join'):
            for v in f.phi_leaves(i.args[0]):
                e = f.expr(v)
                if e[0] == 'ld': res.append((f, i, e[1], rk.lastfield(e[1])))
                elif e != ('c', 0): res.append((f, i, e, None))
    return res


def in_loop(f, i):
    """smallest natural loop (header, body) holding the instruction"""
    best = None
    for h, b in f.loops().items():
        if i.bb in b and (best is None or len(b) < len(best[1])): best = (h, b)
    return best


def wait_loops(f):
    """loops that sleep: (header, body, [(block, succ position, fact)] exits), innermost sleeping part only"""
    res = []
    L = f.loops()
    for h, b in L.items():
        if not any(c.op == 'call' and c.callee in NAPS for x in b for c in f.blocks[x]): continue
        ex = [(x, k, rk.edge_fact(f, x, k)) for x in b for k, s in enumerate(f.succs[x]) if s not in b]
        res.append((h, b, ex))
    return res
