"""C13: the result of an acquiring call is compared with its failure value before it is used."""
import rk, own, model

# calls that accept the failure value
TOLERANT = {'free', 'fftwf_free', 'realloc', 'RKLog', 'printf', 'fprintf', 'snprintf', 'sprintf', 'perror', 'freeaddrinfo', 'nc_strerror', 'strerror', 'time', 'fflush', 'RKFree'}
USES_NULL = {'file', 'pipe', 'dir', 'memory', 'semaphore', 'object', 'addrinfo'}


def success(fail, p, y):
    """does the comparison (result p constant y) exclude the failure value?"""
    if y[0] != 'c': return None
    v = y[1]
    if fail == 'null':
        if v == 0: return p in ('ne', 'ugt', 'sgt')
        return None
    if fail == 'neg':
        return (p == 'sge' and v >= 0) or (p == 'sgt' and v >= -1) or (p == 'ne' and v == -1) or (p == 'eq' and v >= 0) or (p == 'ugt' and v >= 0) or (p == 'ult' and 0 < v < 2 ** 31)
    if fail == 'nonzero':
        return (p == 'eq' and v == 0)


def failure(fail, p, y):
    if y[0] != 'c': return None
    v = y[1]
    if fail == 'null': return v == 0 and p in ('eq', 'ule', 'sle')
    if fail == 'neg': return (p == 'slt' and v <= 0) or (p == 'sle' and v < 0) or (p == 'eq' and v < 0)
    if fail == 'nonzero': return (p in ('ne', 'slt', 'sgt', 'ugt') and v == 0)


class Checked(own.Own):
    """states: (aliases, facts). Explores the paths on which the acquisition has failed; a use there is a violation"""

    def __init__(self, P, f, acq, kind, where, fail, arg=None):
        self.arg = arg
        if acq is not None: super().__init__(P, f, acq, kind, where, fail)
        else:
            self.P, self.f, self.acq, self.kind, self.where, self.fail = P, f, None, kind, 'ret', fail
            self.facts = rk.Facts(f, P); self.addr = None
        self.bad = []

    def run(self):
        try: return self.explore()
        except model.AnalysisError:
            # too many combinations of branch facts: without them the set of paths is only larger
            self.facts.keys = set(); self.bad = []
            return self.explore()

    def explore(self):
        f = self.f
        ex = rk.Explorer(f, self.tr, self.ed, limit=30000)
        if self.acq is None:
            ex.run((frozenset([('P', ('arg', self.arg))]), frozenset()), 0, 0)
        else:
            al = frozenset([self.acq.idx]) if self.where == 'ret' else frozenset([('mem', self.addr)])
            init = frozenset((g[1], g[2], g[0]) for g in rk.guards(f, self.acq) if g[0] != 'notin' and (g[1], g[2]) in self.facts.keys)
            exits = ex.run((al, init), self.acq.bb, self.acq.pos + 1)
            # what is left behind in members
            self.left = set()
            for t, st, key in exits:
                if t.op == 'ret': self.left |= {x[1] for x in st[0] if isinstance(x, tuple) and x[0] == 'mem' and rk.root(x[1])[0] != 'loc'}
        return self.bad

    def isalias(self, o, al, depth=0):
        if isinstance(o, list) and o and o[0] == 'a': return ('P', ('arg', o[1])) in al
        return super().isalias(o, al, depth)

    def tr(self, i, st):
        al, facts = st
        f = self.f
        if facts: facts = self.facts.kill(f, i, facts)
        if i is self.acq or not al - {('noticed', ('n',))}: return []
        if i.op == 'call':
            c = i.callee
            if c in ('exit', 'abort', '_exit', 'RKExit'): return []
            for n, a in enumerate(i.args):
                if self.isalias(a, al) and self.uses(i, c, n):
                    self.bad.append((i, 'is handed to %s' % (c or 'a function')))
                    return []
                elif self.kind in USES_NULL and not self.isalias(a, al) and self.derived(a, al) and c not in TOLERANT and not (isinstance(a, int) and zero_offset(f, a)):
                    self.bad.append((i, 'is handed to %s' % (c or 'a function'))); return []
        elif i.op == 'store':
            if self.kind in USES_NULL and self.derived(i.x[1], al): self.bad.append((i, 'is written through')); return []
            if self.isalias(i.x[0], al):
                return [(al | {('mem', f.expr(i.x[1]))}, facts)]
            a = f.expr(i.x[1])
            hit = {x for x in al if isinstance(x, tuple) and x[0] == 'mem' and x[1] == a}
            if hit: return [(al - hit, facts)]
        elif i.op == 'load':
            if self.kind in USES_NULL and self.derived(i.x[0], al): self.bad.append((i, 'is read through')); return []
        elif i.op in rk.CASTS:
            if self.isalias(i.x[0], al): return [(al | {i.idx}, facts)]
        return [(al, facts)] if facts is not st[1] else None

    def uses(self, i, c, n):
        if c is None: return False
        if c == 'fprintf' and n == 0: return True
        if c in TOLERANT or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'): return False
        g = [x for x in self.P.byname.get(c, ()) if not x.decl]
        if g: return param_used(self.P, g[0], n, self.kind, self.fail)
        # functions of the system and of libraries take valid handles
        return True

    def ed(self, f, bb, pos, st):
        al, facts = st
        sure = self.facts.outcome(f, bb, pos, facts)
        if sure is None: return None
        facts = self.facts.assume(f, bb, pos, facts)
        for fa in sure:
            if fa[0] == 'notin': continue
            p, a, b, oa, ob = fa[:5]
            for x, y, o, q in ((a, b, oa, p), (b, a, ob, rk.SWAP.get(p, p))):
                if self.fail == 'nonzero':
                    if any(z == ('call', self.acq.callee, self.acq.idx) for z in rk.subexprs(x)) and failure('nonzero', q, y): al = al | {('noticed', ('n',))}
                    if self.acq is not None and o == self.acq.idx and success('nonzero', q, y): return None
                    if any(z == ('call', self.acq.callee, self.acq.idx) for z in rk.subexprs(x)) and (success('nonzero', q, y) or isinstance(self, Stat) and status_ok(q, y)): return None
                elif self.isalias(o, al) and success(self.fail, q, y): return None
                elif self.isalias(o, al) and failure(self.fail, q, y): al = al | {('noticed', ('n',))}
        n = f.succs[bb][pos]
        # an invalid descriptor that was noticed and is tried again on a later turn is refused by the system
        if self.kind == 'fd' and ('noticed', ('n',)) in al and n in f.dom()[bb]: return None
        add = set(); rem = set()
        for i in f.blocks[n]:
            if i.op != 'phi': break
            v = [x[0] for x in i.x if x[1] == bb]
            if v and self.isalias(v[0], al): add.add(i.idx)
            elif i.idx in al: rem.add(i.idx)
        if facts:
            ph = {i.idx for i in f.blocks[n] if i.op == 'phi'}
            facts = frozenset(x for x in facts if not any(y[0] == 'phi' and y[1] in ph for y in rk.subexprs(x[0])))
        return (frozenset((al - rem) | add), facts)


def zero_offset(f, o):
    return False


def param_used(P, g, n, kind, fail, _memo={}):
    k = (id(P), g.rawname, n, kind, fail)
    if k not in _memo:
        _memo[k] = False
        c = Checked(P, g, None, kind, 'ret', 'null' if fail == 'nonzero' and kind != 'netcdf' else fail, arg=n)
        _memo[k] = bool(c.run())
    return _memo[k]


# answers that are not owned but may be missing all the same
LOOKUPS = {'gethostbyname': ('address', 'ret', 'null'), 'gethostbyname2': ('address', 'ret', 'null'), 'readdir': ('entry', 'ret', 'null'), 'getenv': ('text', 'ret', 'null'),
           'dlopen': ('library', 'ret', 'null'), 'getprotobyname': ('address', 'ret', 'null')}
HANDLES = {'file', 'pipe', 'dir', 'fd', 'netcdf', 'semaphore', 'addrinfo'}
USES_NULL |= {'address', 'entry', 'text', 'library', 'contents'}


def opens(P, n):
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x in ('fopen', 'open', 'nc_open', 'opendir'): return True
        if x in seen or x == 'RKLog': continue
        seen.add(x); st.extend(P.callgraph().get(x, ()))
    return False


def readers(P):
    """kit functions that make an object out of a file, and answer NULL when they cannot"""
    res = {}
    for n, (kind, fail) in own.fresh_returners(P).items():
        if kind != 'memory': continue
        for f in P.byname[n]:
            if not f.decl and opens(P, n) and any(i.op == 'ret' and i.x and any(f.expr(v) == ('c', 0) for v in f.phi_leaves(i.x[0])) for i in f.insts):
                res[n] = ('contents', 'ret', 'null')
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.decl or f.name in res: continue
            for i in f.insts:
                if i.op == 'ret' and i.x:
                    lv = [f.expr(v) for v in f.phi_leaves(i.x[0])]
                    if lv and all(e[0] == 'call' and e[1] in res or e == ('c', 0) for e in lv) and any(e[0] == 'call' for e in lv): res[f.name] = ('contents', 'ret', 'null'); ch = True
    return res


def check(r):
    P = rk.Program()
    table = {c: a for c, a in own.ACQ.items() if a[0] in HANDLES}
    fr = {c: (a[0], 'ret', a[1]) for c, a in own.fresh_returners(P).items() if a[0] in HANDLES}
    rd = readers(P)
    left = []
    for t in (fr, rd, LOOKUPS): table.update(t)
    for f in P.analysed():
        for i in f.calls():
            c = i.callee
            if c in STATS:
                stats(r, P, f, i)
                continue
            if c not in table: continue
            kind, where, fail = table[c]
            r.count('acquisitions'); r.count('of_kind_' + kind)
            o = Checked(P, f, i, kind, where, fail)
            bad = o.run()
            for t, how in bad:
                r.violation('%s:%s:%s' % (f.name, c, rk.show(o.addr, f) if o.addr else ''), '%s %s: the %s from %s, when the call has failed, %s at %s' % (i.loc(), f.name, kind, c, how, t.loc()))
            if not bad: r.sample('%s %s: %s, failure noticed' % (i.loc(), f.name, c))
            if kind == 'fd': left += [(f, i, c, rk.lastfield(a)) for a in o.left if rk.lastfield(a)]
    # a member that keeps an invalid descriptor, and users of it that tell only zero apart
    for f, i, c, lf in left:
        r.count('invalid_descriptors_kept')
        for g in P.analysed():
            for j in g.calls():
                if j.callee in TOLERANT or not any(rk.lastfield_of(g.expr(a)) == lf for a in j.args): continue
                gs = [q for q in rk.guards(g, j) for x, y, p in ((q[1], q[2], q[0]), (q[2], q[1], rk.SWAP.get(q[0], q[0]))) if rk.lastfield_of(x) == lf and y == ('c', 0) and p == 'ne']
                ok = [q for q in rk.guards(g, j) for x, y, p in ((q[1], q[2], q[0]), (q[2], q[1], rk.SWAP.get(q[0], q[0]))) if rk.lastfield_of(x) == lf and success('neg', p, y)]
                if gs and not ok: r.violation('%s:%s:%s.%s' % (g.name, j.callee, lf[0], lf[1]), '%s %s: %s.%s may hold the -1 of a failed %s (%s), but is only tested against zero before it is handed to %s' % (j.loc(), g.name, lf[0], lf[1], c, i.loc(), j.callee))
    r.need('acquisitions', 40); r.need('stat_calls', 6); r.need('of_kind_file', 8); r.need('of_kind_netcdf', 3)
    r.explanation = 'Every call that opens a file, directory, socket, netCDF file or semaphore, looks up a host or protocol, reads a directory entry, reads the status of a file, or makes a kit object out of a file, in all analysed units: the paths on which the call has failed (every path not behind a comparison that excludes the value the call really returns on failure) are explored, into the kit functions the result is handed to, and must not use the result.'
    r.assumptions = ['failing to obtain memory is not looked at here', 'a descriptor known to be invalid that is tried again on a later turn of a loop is refused by the system']


STATS = {'stat': 1, 'fstat': 1, 'lstat': 1, 'statvfs': 1, 'statfs': 1}


class Stat(Checked):
    """the record filled in by stat and the like is read although the call has failed"""

    def tr(self, i, st):
        al, facts = st
        f = self.f
        if facts: facts = self.facts.kill(f, i, facts)
        if i is self.acq or not al: return []
        if i.op == 'call' and i.callee in STATS and len(i.args) > 1 and f.expr(i.args[1]) == self.addr: return []
        if i.op == 'call' and i.callee in ('memset', 'llvm.memset.p0.i64') and f.expr(i.args[0]) == self.addr: return []
        if i.op == 'store' and rk.root(f.expr(i.x[1])) == rk.root(self.addr): return [(al | {('set', f.expr(i.x[1]))}, facts)]
        if i.op == 'load' and rk.root(f.expr(i.x[0])) == rk.root(self.addr) and within(f.expr(i.x[0]), self.addr):
            e = f.expr(i.x[0])
            if ('set', e) in al or self.unused(i.idx): return None
            self.bad.append((i, 'is read')); return []
        return [(al, facts)] if facts is not st[1] else None


    # the compiler may read early what is only looked at after the test
    def unused(self, o, depth=0):
        f = self.f
        for u in f.users().get(o, ()):
            if u.op in rk.CASTS or u.op in ('icmp', 'add', 'sub', 'and', 'lshr') and u.ty != 'i1' or u.op == 'icmp':
                if depth < 6 and self.unused(u.idx, depth + 1): continue
                return False
            if u.op == 'select' and o in u.x[1:3]:
                if self.implies(rk.compound(f, u.x[0], o == u.x[1])): continue
                return False
            if u.op == 'and' and u.ty == 'i1' and any(x != o and self.implies(rk.compound(f, x, True)) for x in u.x): continue
            return False
        return True

    def implies(self, c):
        return c[0] == 'all' and any(z == ('call', self.acq.callee, self.acq.idx) for fa in c[1] if fa[0] != 'notin' for x, y, q in ((fa[1], fa[2], fa[0]),) if status_ok(q, y) for z in [x])


def status_ok(p, y):
    if y[0] != 'c': return None
    v = y[1]
    return (p == 'eq' and v == 0) or (p == 'sge' and v >= 0) or (p == 'sgt' and v >= -1) or (p == 'ne' and v == -1)


def within(e, a):
    while e != a and e[0] in ('fld', 'idx'): e = e[1]
    return e == a


def stats(r, P, f, i):
    r.count('stat_calls')
    if rk.root(f.expr(i.args[1]))[0] != 'loc': return
    o = Stat(P, f, i, 'file status', 1, 'nonzero')
    for t, how in o.run():
        r.violation('%s:%s:%s' % (f.name, i.callee, rk.show(o.addr, f)), '%s %s: what %s reports, when the call has failed, %s at %s' % (i.loc(), f.name, i.callee, how, t.loc()))
