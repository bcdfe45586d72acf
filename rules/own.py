"""Ownership of resources held in locals: acquisition, release and escape, along all paths."""
import re
import rk
from collections import defaultdict

# acquiring call -> (kind, where the handle appears: 'ret' or argument number, how failure shows)
ACQ = {'fopen': ('file', 'ret', 'null'), 'fdopen': ('file', 'ret', 'null'), 'popen': ('pipe', 'ret', 'null'), 'opendir': ('dir', 'ret', 'null'),
       'open': ('fd', 'ret', 'neg'), 'socket': ('fd', 'ret', 'neg'), 'accept': ('fd', 'ret', 'neg'), 'dup': ('fd', 'ret', 'neg'), 'creat': ('fd', 'ret', 'neg'),
       'malloc': ('memory', 'ret', 'null'), 'calloc': ('memory', 'ret', 'null'), 'realloc': ('memory', 'ret', 'null'), 'strdup': ('memory', 'ret', 'null'), 'strndup': ('memory', 'ret', 'null'), 'fftwf_malloc': ('memory', 'ret', 'null'),
       'getaddrinfo': ('addrinfo', 3, 'nonzero'), 'posix_memalign': ('memory', 0, 'nonzero'), 'nc_open': ('netcdf', 2, 'nonzero'), 'nc_create': ('netcdf', 2, 'nonzero'),
       'sem_open': ('semaphore', 'ret', 'null'), 'mkstemp': ('fd', 'ret', 'neg')}
REL = {'file': {'fclose'}, 'pipe': {'pclose', 'fclose'}, 'dir': {'closedir'}, 'fd': {'close', 'fdopen'}, 'memory': {'free', 'fftwf_free', 'realloc'}, 'addrinfo': {'freeaddrinfo'},
       'netcdf': {'nc_close', 'nc_abort', 'ncclose', 'ncabort'}, 'semaphore': {'sem_close'}, 'object': set()}
ALLREL = set().union(*REL.values())
KIT_ACQ = re.compile(r'^RK\w*(Init|Create|Clone|Copy|Read)(With\w+|From\w+|As\w+|To\w+)?$')
KIT_REL = re.compile(r'^RK\w*(Free|Destroy)$')


def fresh_returners(P):
    """kit functions that hand their caller a new resource: every non-null value they return was acquired there -> (kind, failure)"""
    if hasattr(P, '_fresh'): return P._fresh
    res = {}
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.decl or f.name in res or f.ret in ('void',): continue
            kinds = set(); ok = True; neg = False
            for i in f.insts:
                if i.op != 'ret' or not i.x: continue
                for v in f.phi_leaves(i.x[0]):
                    e = f.expr(v)
                    if e == ('c', 0): continue
                    if e[0] == 'c' and e[1] < 0: neg = True; continue
                    if e[0] == 'call' and (e[1] in ACQ and ACQ[e[1]][1] == 'ret'): k = ACQ[e[1]]; kinds.add((k[0], k[2]))
                    elif e[0] == 'call' and e[1] in res: kinds.add(res[e[1]])
                    else: ok = False
            if ok and len(kinds) == 1 and i_stores_none(f, kinds):
                res[f.name] = next(iter(kinds)); ch = True
    P._fresh = res
    return res


def fresh_outs(P):
    """kit functions that put a new buffer or object where an argument points -> number of the argument"""
    if hasattr(P, '_outs'): return P._outs
    res = {}
    for f in P.fns.values():
        if f.decl: continue
        for i in f.insts:
            if i.op == 'call' and i.callee == 'posix_memalign': a = f.expr(i.args[0])
            elif i.op == 'store' and any(f.expr(v)[0] == 'call' and f.expr(v)[1] in ('malloc', 'calloc') for v in f.phi_leaves(i.x[0])): a = f.expr(i.x[1])
            else: continue
            if a[0] == 'arg': res[f.name] = a[1]
    P._outs = res
    return res


def i_stores_none(f, kinds):
    return True


def summaries(P):
    """(fn, argno) -> set of 'release', 'escape'"""
    if hasattr(P, '_own'): return P._own
    s = defaultdict(set)
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.decl: continue
            for i in f.insts:
                for n in range(len(f.argty)):
                    new = set()
                    if i.op == 'store':
                        if any(f.expr(v) == ('arg', n) for v in f.phi_leaves(i.x[0])) and rk.root(f.expr(i.x[1]))[0] != 'loc': new.add('escape')
                    elif i.op == 'ret' and i.x and any(f.expr(v) == ('arg', n) for v in f.phi_leaves(i.x[0])): new.add('escape')
                    elif i.op == 'call':
                        for m, a in enumerate(i.args):
                            if any(f.expr(v) == ('arg', n) for v in f.phi_leaves(a)):
                                c = i.callee
                                if c is None:
                                    lf = rk.lastfield_of(f.expr(i.x[0]))
                                    if lf and 'free' in lf[1].lower(): new.add('release')
                                elif c in ALLREL: new.add('release')
                                elif c == 'pthread_create' and m == 3: new.add('escape')
                                else: new |= s.get((c, m), set())
                    if new - s[(f.name, n)]:
                        s[(f.name, n)] |= new; ch = True
    P._own = s
    return s


def givenback(P, name, n):
    """the function returns NULL without having released this argument: what it was given is still its caller's"""
    if not hasattr(P, '_back'): P._back = {}
    if (name, n) in P._back: return P._back[name, n]
    res = False
    for f in P.byname.get(name, ()):
        if f.decl or f.ret not in ('p', 'ptr'): continue
        nulls = set()
        for i in f.insts:
            if i.op != 'ret' or not i.x: continue
            v = i.x[0]
            if f.expr(v) == ('c', 0): nulls.add(i.bb)
            elif isinstance(v, int) and f.insts[v].op == 'phi': nulls |= {b for w, b in f.insts[v].x if f.expr(w) == ('c', 0)}
        rel = {i.bb for i in f.calls() for m, a in enumerate(i.args) if f.expr(a) == ('arg', n) and (i.callee in ALLREL or 'release' in summaries(P).get((i.callee, m), ()))}
        seen = set(rel); st = list(rel)
        while st:
            for s in f.succs[st.pop()]:
                if s not in seen: seen.add(s); st.append(s)
        res = bool(nulls) and not nulls & seen
        kept = [i for i in f.insts if i.op == 'store' and f.expr(i.x[0]) == ('arg', n)]
        # it was only put into an object of the function's own making
        for i in kept:
            b = rk.root(f.expr(i.x[1]))
            if not (b[0] == 'call' and (b[1] in ACQ or b[1] in fresh_returners(P))): res = False
        if not kept: res = False
    P._back[name, n] = res
    return res


class Own:
    """follows one acquisition along all paths; leaks = [(exit inst, path)]"""

    def __init__(self, P, f, acq, kind, where, fail):
        self.P, self.f, self.acq, self.kind, self.where, self.fail = P, f, acq, kind, where, fail
        self.sum = summaries(P)
        self.facts = rk.Facts(f, P)
        self.lost = []
        self.slots = where != 'ret' and any(x[0] in ('idx', 'elem') for x in rk.subexprs(f.expr(acq.args[where])))
        self.releaseloops = set()
        if where != 'ret' and any(x[0] in ('idx', 'elem') for x in rk.subexprs(f.expr(acq.args[where]))):
            # a slot of a local array: a loop that releases slots of it releases them all
            rt = rk.root(f.expr(acq.args[where]))
            for h, b in f.loops().items():
                if acq.bb not in b and any(c.callee in REL.get(kind, ()) and f.expr(c.args[0])[0] == 'ld' and rk.root(f.expr(c.args[0])[1]) == rt for x in b for c in f.blocks[x] if c.op == 'call' and c.args): self.releaseloops.add(h)
        self.addr = f.expr(acq.args[where]) if where != 'ret' else None
        self.ends = defaultdict(int)

    def run(self):
        f = self.f
        ex = rk.Explorer(f, self.tr, self.ed, limit=150000)
        al = frozenset([self.acq.idx]) if self.where == 'ret' else frozenset([('mem', self.addr)])
        b = self.acq.bb
        # phis of later blocks are handled on edges; start right after the call
        # what led to the acquisition
        init = frozenset((g[1], g[2], g[0]) for g in rk.guards(f, self.acq) if g[0] != 'notin' and (g[1], g[2]) in self.facts.keys)
        exits = ex.run((al, init), b, self.acq.pos + 1)
        self.ex = ex
        leaks = []
        for t, st, key in exits:
            if t.op == 'unreachable': continue
            if st is None or st[0] == 'done': continue
            if any(isinstance(x, tuple) and x[0] == 'maybe' for x in st[0]): continue
            if t.op == 'ret':
                if t.x and any(self.isalias(v, st[0]) for v in [t.x[0]]): self.ends['returned'] += 1; continue
                leaks.append((t, ex.path(key)))
        leaks += self.lost
        return leaks

    def isalias(self, o, al, depth=0):
        f = self.f
        if isinstance(o, int):
            if o in al: return True
            i = f.insts[o]
            if i.op in rk.CASTS: return self.isalias(i.x[0], al)
            if i.op == 'load':
                a = f.expr(i.x[0])
                return any(isinstance(x, tuple) and same(x[1], a) for x in al)
            if i.op == 'getelementptr': return False
            if i.op == 'select': return any(self.isalias(x, al) for x in i.x[1:3])
        return False

    def derived(self, o, al):
        """pointer into the resource"""
        f = self.f
        while isinstance(o, int) and f.insts[o].op in ('getelementptr',) + tuple(rk.CASTS): o = f.insts[o].x[0]
        return self.isalias(o, al)

    def tr(self, i, st):
        if st[0] == 'done': return None
        al, facts = st
        f = self.f
        if facts: facts = self.facts.kill(f, i, facts)
        if i.op == 'call':
            c = i.callee
            if self.acq is not None and i is self.acq:
                if not self.slots: self.lost.append((i, None))
                return []
            for n, a in enumerate(i.args):
                if self.isalias(a, al):
                    if c == 'fdopen' and self.kind == 'fd':
                        # the descriptor stays with its owner when there is no stream
                        self.ends['released'] += 1
                        return [(frozenset({('maybe', ('c', 'maybe'), i.idx, al)}), facts)]
                    if c in REL.get(self.kind, ()) or c in ALLREL and self.kind == 'object': self.ends['released'] += 1; return []
                    if c == 'realloc' and n == 0: return []
                    if c is None:
                        lf = rk.lastfield_of(f.expr(i.x[0]))
                        if lf and 'free' in lf[1].lower(): return []
                        # through a pointer: what the possible targets do
                        ts = self.P.targets(f, i)
                        if not ts or any(self.sum.get((t, n)) for t in ts): return []
                    elif c == 'pthread_create' and n == 3: return []
                    elif self.sum.get((c, n)):
                        self.ends['handed over'] += 1
                        return [(frozenset({('maybe', ('c', 'maybe'), i.idx, al)}), facts)] if givenback(self.P, c, n) else []
                    elif c in CONSUMERS: return []
                elif isinstance(a, int) and f.insts[a].op == 'alloca' or (isinstance(a, int) and f.insts[a].op == 'getelementptr'):
                    e = f.expr(a)
                    if any(isinstance(x, tuple) and (same(x[1], e) or rk.root(x[1]) == e) for x in al):
                        if c in REL.get(self.kind, ()): return []
                        if c and not c.startswith('llvm.') and (self.sum.get((c, n)) or c in ('memcpy',)): return []
            if c in ('exit', 'abort', '_exit', 'RKExit'): return []
        elif i.op == 'store':
            if self.isalias(i.x[0], al):
                a = f.expr(i.x[1]); rt = rk.root(a)
                if rt[0] == 'loc' and not self.loc_escapes(rt): return [(al | {('mem', a)}, facts)]
                if self.derived_addr(i.x[1], al): return None
                self.ends['stored'] += 1
                return []
            a = f.expr(i.x[1])
            hit = {x for x in al if isinstance(x, tuple) and x[1] == a}
            if hit: return [(al - hit, facts)]
        elif i.op in rk.CASTS:
            if self.isalias(i.x[0], al): return [(al | {i.idx}, facts)]
        return [(al, facts)] if facts is not st[1] else None

    def derived_addr(self, o, al):
        return False

    def loc_escapes(self, rt):
        """the local's address is stored or handed to a thread: what it holds may be used elsewhere"""
        return False

    def ed(self, f, bb, pos, st):
        if st[0] == 'done': return st
        al, facts = st
        sure = self.facts.outcome(f, bb, pos, facts)
        if sure is None: return None
        facts = self.facts.assume(f, bb, pos, facts)
        for fa in sure:
            if fa[0] == 'notin': continue
            p, a, b, oa, ob = fa[:5]
            for x, y, o, q in ((a, b, oa, p), (b, a, ob, rk.SWAP.get(p, p))):
                if y == ('c', 0) and x[0] == 'call':
                    for z in al:
                        if isinstance(z, tuple) and z[0] == 'maybe' and z[2] == x[2]:
                            # refused: it is the caller's again
                            if q not in ('eq', 'ule', 'sle'): return None
                            al = z[3]; break
                if self.isalias(o, al):
                    if y == ('c', 0) and self.fail == 'null' and q in ('eq', 'ule', 'sle'): return None
                    if y[0] == 'c' and self.fail == 'neg' and (q in ('slt', 'sle') and y[1] <= 0 or q == 'eq' and y[1] < 0): return None
                    if y == ('c', 0) and self.fail == 'neg' and q == 'eq': return None
                    if y == ('c', 0) and self.where != 'ret' and q in ('eq', 'ule'): return None
                if self.fail == 'nonzero' and self.acq is not None and o == self.acq.idx and y == ('c', 0) and q in ('ne', 'slt', 'sgt', 'ugt'): return None
        n = f.succs[bb][pos]
        if n in self.releaseloops: self.ends['released'] += 1; return None
        add = set(); rem = set()
        for i in f.blocks[n]:
            if i.op != 'phi': break
            v = [x[0] for x in i.x if x[1] == bb]
            if v and self.isalias(v[0], al): add.add(i.idx)
            elif i.idx in al: rem.add(i.idx)
        if facts and add | rem: pass
        if facts:
            ph = {i.idx for i in f.blocks[n] if i.op == 'phi'}
            facts = frozenset(x for x in facts if not any(y[0] == 'phi' and y[1] in ph for y in rk.subexprs(x[0])))
        return (frozenset((al - rem) | add), facts)


CONSUMERS = {'freopen'}


def same(a, b):
    return a == b or (a[0] == 'idx' and b[0] == 'idx' and a[1] == b[1])
