"""C12: nothing is used or released after it was released; nothing on a stack is handed to a thread that may outlive it."""
import re
import rk, own, model
from collections import defaultdict

RELEASE = {'free': 0, 'fftwf_free': 0, 'fclose': 0, 'pclose': 0, 'closedir': 0, 'close': 0, 'nc_close': 0, 'sem_close': 0, 'SSL_free': 0, 'SSL_CTX_free': 0, 'freeaddrinfo': 0, 'fftwf_destroy_plan': 0}
PRINT = {'RKLog', 'printf', 'fprintf', 'snprintf', 'sprintf', 'perror'}
FDS = {'close'}


def releasers(P):
    """kit functions that release an argument on every path to their return (a test of that argument against NULL aside): name -> argument"""
    if hasattr(P, '_rel'): return P._rel
    res = {}
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.decl: continue
            for n in range(len(f.argty)):
                if (f.name, n) in res: continue
                hit = set()
                for i in f.calls():
                    c = i.callee
                    for m, a in enumerate(i.args):
                        if (RELEASE.get(c) == m or (c, m) in res) and c != 'close' and f.expr(a) == ('arg', n): hit.add(i.idx)
                if not hit: continue
                if released_everywhere(f, n, hit): res[(f.name, n)] = True; ch = True
                elif released_everywhere(f, n, hit, True): res[(f.name, n)] = 'unless it fails'; ch = True
    P._rel = res
    return res


def released_everywhere(f, n, hit, failing=False):
    """every path from the entry on which the argument is not known to be NULL (or that returns an error number) meets a release"""
    seen = set(); st = [(0, None)]
    while st:
        b, prev = st.pop()
        if (b, prev if f.blocks[b][-1].op == 'ret' else None) in seen: continue
        seen.add((b, prev if f.blocks[b][-1].op == 'ret' else None))
        if any(i.idx in hit for i in f.blocks[b]): continue
        t = f.blocks[b][-1]
        if t.op == 'ret':
            if not failing or not t.x: return False
            v = t.x[0]
            if isinstance(v, int) and f.insts[v].op == 'phi' and f.insts[v].bb == b: v = next((x[0] for x in f.insts[v].x if x[1] == prev), v)
            if f.ret in ('p', 'ptr') or not f.const(v): return False
            continue
        for k, s in enumerate(f.succs[b]):
            m, at = rk.atoms(f, b, k)
            if m == 'all' and any(fa[0] == 'eq' and fa[1] == ('arg', n) and fa[2] == ('c', 0) for fa in at): continue
            st.append((s, b))
    return True


def users_of_args(P):
    """(function, argument) pairs whose argument is read, written or released through, or handed to something unknown"""
    if hasattr(P, '_ua'): return P._ua
    res = set()
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.decl: continue
            for i in f.insts:
                cand = []
                if i.op == 'load': cand = [base(f, i.x[0])]
                elif i.op == 'store': cand = [base(f, i.x[1])]
                elif i.op == 'call':
                    for m, a in enumerate(i.args):
                        c = i.callee
                        if c in PRINT and m > 1 and False: continue
                        if c and any(not g.decl for g in P.byname.get(c, ())):
                            if (c, m) in res: cand.append(base(f, a))
                        elif c and (c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')): continue
                        else: cand.append(base(f, a))
                for b in cand:
                    if b is not None and (f.name, b) not in res: res.add((f.name, b)); ch = True
    P._ua = res
    return res


def base(f, o):
    e = rk.root(f.expr(o))
    return e[1] if e[0] == 'arg' else None


class Dead(own.Own):
    def __init__(self, P, f, rel, argn, kind):
        self.P, self.f, self.rel, self.kind = P, f, rel, kind
        self.argn = argn
        self.facts = rk.Facts(f, P)
        self.bad = []; self.shown = {}

    def run(self):
        try: return self.explore()
        except model.AnalysisError:
            self.facts.keys = set(); self.bad = []
            return self.explore()

    def explore(self):
        f = self.f
        o = self.rel.args[self.argn]
        al = set()
        v = o
        while isinstance(v, int) and f.insts[v].op in rk.CASTS: al.add(v); v = f.insts[v].x[0]
        if isinstance(v, int): al.add(v)
        e = f.expr(v)
        if e[0] == 'arg': al.add(('P', e))
        if e[0] == 'ld' and not (isinstance(v, int) and self.rewritten(f.insts[v], e[1])): al.add(('mem', e[1]))
        # members and locals that were given the same value before
        for i in f.insts:
            if i.op == 'store' and f.dominates(i, self.rel) and self.samevalue(f, i.x[0], v, e):
                a = f.expr(i.x[1])
                if not any(j.op == 'store' and j is not i and f.expr(j.x[1]) == a and f.dominates(i, j) and f.reaches(j, self.rel) for j in f.insts): al.add(('mem', a))
        # a local whose content was loaded from a member
        init = frozenset((g[1], g[2], g[0]) for g in rk.guards(f, self.rel) if g[0] != 'notin' and (g[1], g[2]) in self.facts.keys)
        ex = rk.Explorer(f, self.tr, self.ed, limit=30000)
        self.ex = ex
        exits = ex.run((frozenset(al), init), self.rel.bb, self.rel.pos + 1)
        self.left = set()
        for t, st, key in exits:
            if t.op == 'ret': self.left |= {x[1] for x in st[0] if isinstance(x, tuple) and x[0] == 'mem' and rk.root(x[1])[0] != 'loc'}
        return self.bad

    def rewritten(self, ld, a):
        """the place the value was read from is given another value before the release"""
        f = self.f; lf = rk.lastfield(a)
        for j in f.insts:
            if j.op == 'store' and f.expr(j.x[1]) == a or j.op == 'call' and (any(f.expr(x) == a for x in j.args) or j.callee and lf and any(not g.decl for g in self.P.byname.get(j.callee, ())) and lf in self.P.stored_by(j.callee)):
                if f.reaches(ld, j) and f.reaches(j, self.rel) and self.without(j, ld): return True
        return False

    def without(self, j, ld):
        """from j to the release without reading the place anew"""
        f = self.f; seen = set(); st = [(j.bb, j.pos + 1)]
        while st:
            b, p = st.pop(); stop = False
            for i in f.blocks[b][p:]:
                if i is self.rel: return True
                if i is ld: stop = True; break
            if stop: continue
            for s in f.succs[b]:
                if s not in seen: seen.add(s); st.append((s, 0))
        return False

    def samevalue(self, f, o, v, e):
        w = o
        while isinstance(w, int) and f.insts[w].op in rk.CASTS: w = f.insts[w].x[0]
        return w == v and e[0] != 'c' or (e[0] == 'arg' and f.expr(w) == e)

    def isalias(self, o, al, depth=0):
        if isinstance(o, list) and o and o[0] == 'a': return ('P', ('arg', o[1])) in al
        if isinstance(o, int):
            if o in al: return True
            i = self.f.insts[o]
            if i.op in rk.CASTS: return self.isalias(i.x[0], al)
            if i.op == 'select': return any(self.isalias(x, al) for x in i.x[1:3])
        return False

    def tr(self, i, st):
        al, facts = st
        f = self.f
        if not al: return []
        if facts: facts = self.facts.kill(f, i, facts)
        if i.idx in al and i.op not in ('phi',): al = al - {i.idx}
        if i.op == 'load':
            if self.kind != 'fd' and self.derived(i.x[0], al): self.bad.append((i, 'is read')); return []
            a = f.expr(i.x[0])
            if ('mem', a) in al: al = al | {i.idx}
        elif i.op == 'store':
            if self.kind != 'fd' and self.derived(i.x[1], al): self.bad.append((i, 'is written to')); return []
            a = f.expr(i.x[1]); lf = rk.lastfield(a)
            al = frozenset(x for x in al if not (isinstance(x, tuple) and x[0] == 'mem' and (x[1] == a or any(y[0] == 'ld' and (y[1] == a or lf and rk.lastfield(y[1]) == lf) for y in rk.subexprs(x[1])))))
            if self.isalias(i.x[0], al): al = al | {('mem', a)}
        elif i.op == 'call':
            c = i.callee
            if c in ('exit', 'abort', '_exit', 'RKExit'): return []
            if c and (c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')): pass
            else:
                for n, a in enumerate(i.args):
                    hit = self.isalias(a, al) or self.kind != 'fd' and self.derived(a, al)
                    if not hit: continue
                    if c in PRINT and self.isalias(a, al) and not self.string(i, n): continue
                    if c is None: self.bad.append((i, 'is handed to a function')); return []
                    if c in RELEASE and RELEASE[c] == n or releasers(self.P).get((c, n)) is True: self.bad.append((i, 'is released again')); return []
                    if any(not g.decl for g in self.P.byname.get(c, ())):
                        if (c, n) in users_of_args(self.P): self.bad.append((i, 'is handed to %s' % c)); return []
                    else: self.bad.append((i, 'is handed to %s' % c)); return []
                if c is None and self.kind != 'fd':
                    for x in al:
                        if isinstance(x, tuple) and x[0] == 'mem' and x[1][0] == 'fld' and any(x[1][1] == f.expr(a) for a in i.args): self.shown.setdefault(x[1], i)
                # what the called function stores to is fresh again
                if c and any(not g.decl for g in self.P.byname.get(c, ())):
                    w = self.P.stored_by(c)
                    al = frozenset(x for x in al if not (isinstance(x, tuple) and x[0] == 'mem' and (rk.lastfield(x[1]) in w or rk.lastfield(x[1]) is None and x[1][0] != 'loc' or any(y[0] == 'ld' and rk.lastfield(y[1]) in w for y in rk.subexprs(x[1])))))
                # filled in through a pointer
                al = frozenset(x for x in al if not (isinstance(x, tuple) and x[0] == 'mem' and any(f.expr(a) == x[1] or rk.root(x[1]) == f.expr(a) for a in i.args)))
                if c is None: al = frozenset(x for x in al if not (isinstance(x, tuple) and x[0] == 'mem' and rk.root(x[1])[0] != 'loc'))
        elif i.op in rk.CASTS:
            if self.isalias(i.x[0], al): al = al | {i.idx}
        # an address that depends on a value computed anew
        al = frozenset(x for x in al if not (isinstance(x, tuple) and any(y[0] in ('call', 'phi', 'v') and y[-1] == i.idx for y in rk.subexprs(x[1]))))
        if not al: return []
        return [(al, facts)] if al is not st[0] or facts is not st[1] else None

    def string(self, i, n):
        """the argument is printed as text"""
        return self.kind != 'fd' and i.args[n] is not None and self.kind == 'memory' and False

    def ed(self, f, bb, pos, st):
        al, facts = st
        sure = self.facts.outcome(f, bb, pos, facts)
        if sure is None: return None
        facts = self.facts.assume(f, bb, pos, facts)
        for fa in sure:
            if fa[0] == 'notin': continue
            p, a, b, oa, ob = fa[:5]
            for x, y, o, q in ((a, b, oa, p), (b, a, ob, rk.SWAP.get(p, p))):
                # it was there when it was released
                if self.isalias(o, al) and y == ('c', 0) and q in ('eq', 'ule', 'sle') and self.kind != 'fd': return None
        n = f.succs[bb][pos]
        add = set(); ph = set()
        for i in f.blocks[n]:
            if i.op != 'phi': break
            ph.add(i.idx)
            v = [x[0] for x in i.x if x[1] == bb]
            if v and self.isalias(v[0], al): add.add(i.idx)
        if ph:
            al = frozenset(x for x in al if not (isinstance(x, int) and x in ph) and not (isinstance(x, tuple) and any(y[0] == 'phi' and y[1] in ph for y in rk.subexprs(x[1]))))
            # values computed from them in the blocks of the loop are computed anew before they are used
            if facts: facts = frozenset(x for x in facts if not any(y[0] == 'phi' and y[1] in ph for y in rk.subexprs(x[0])))
        return (frozenset(al | add), facts)


class DeadFd(Dead):
    """the descriptor of a stream that has been closed"""
    def explore(self):
        f = self.f
        init = frozenset((g[1], g[2], g[0]) for g in rk.guards(f, self.rel) if g[0] != 'notin' and (g[1], g[2]) in self.facts.keys)
        rk.Explorer(f, self.tr, self.ed, limit=30000).run((self.names, init), self.rel.bb, self.rel.pos + 1)
        return self.bad


def streams(r, P, f, i):
    for v in f.phi_leaves(i.args[0]):
        if not (isinstance(v, int) and f.insts[v].op == 'call' and f.insts[v].callee == 'fdopen'): continue
        o = f.insts[v].args[0]; e = f.expr(o)
        al = {x for x in ([o] if isinstance(o, int) and f.insts[o].op != 'load' else []) + [('mem', e[1])] * (e[0] == 'ld')}
        if not al: continue
        d = DeadFd(P, f, i, 0, 'fd'); d.names = frozenset(al)
        r.count('descriptors_of_streams')
        for t, how in d.run():
            if t.op == 'call' and t.callee not in PRINT: r.violation('%s:fclose:%s' % (f.name, rk.show(e, f)), '%s %s: %s, closed with the stream made of it, %s at %s' % (i.loc(), f.name, rk.show(e, f), how, t.loc()))


def check(r):
    P = rk.Program()
    rel = releasers(P)
    threads = {e for t in P.threads() for e in t[3]}
    for f in P.analysed():
        for i in f.calls():
            c = i.callee
            for n in range(len(i.args)):
                if not (RELEASE.get(c) == n or (c, n) in rel): continue
                # whoever looks at the result can tell whether it was released
                if rel.get((c, n)) == 'unless it fails' and f.users().get(i.idx): r.count('conditional_releases'); continue
                r.count('releases')
                kind = 'fd' if c in FDS else 'memory'
                d = Dead(P, f, i, n, kind)
                if c == 'fclose': streams(r, P, f, i)
                for t, how in d.run():
                    r.violation('%s:%s:%s' % (f.name, c, rk.show(f.expr(i.args[n]), f)), '%s %s: %s, released by %s, %s at %s' % (i.loc(), f.name, rk.show(f.expr(i.args[n]), f), c, how, t.loc()))
                for a, j in d.shown.items():
                    r.violation('%s:%s:%s:shown' % (f.name, c, rk.show(a, f)), '%s %s: %s is released by %s and still there when its object is handed to a routine of the user at %s' % (i.loc(), f.name, rk.show(a, f), c, j.loc()))
                for a in d.left:
                    lf = rk.lastfield(a)
                    if not lf: continue
                    r.count('members_left_dangling')
                    if f.name in threads and not (kind != 'fd' and (g := presence(P, f, lf))):
                        r.count('of_them_owned_by_a_thread_routine'); continue
                    r.violation('%s:%s:%s:left' % (f.name, c, '%s.%s' % lf), '%s %s: %s is released by %s and still there when the function returns; a later use or release through it would touch released memory' % (i.loc(), f.name, rk.show(a, f), c))
    stacks(r, P)
    r.need('releases', 200); r.need('threads', 20)
    r.explanation = 'Every call that releases something (free, fclose, close, closedir, nc_close, and every kit function that releases an argument on all its paths), in all analysed units: all paths after it, with every name the released value has (locals, members it was stored in or read from), must not read, write, hand over or release it until the name is given a new value; no member of a surviving object may keep it at the return. Every thread argument and every address stored into shared memory must not be on the stack of a function that can return before the thread is joined.'
    r.assumptions = ['two different access paths (other than those copied within the function) do not name the same object', 'closing and freeing functions outside the kit release their argument on every path']


def presence(P, f, lf):
    """a function that takes the member for a sign of life: one that compares it with NULL without having set it (the thread routine itself when it is started again)"""
    own = P.reachable_from([f.name])
    for g in P.analysed():
        if g is not f and g.name in own: continue
        for b in range(len(g.blocks)):
            if not g.blocks[b] or g.blocks[b][-1].op != 'br' or len(g.blocks[b][-1].x) < 3: continue
            for k in (0, 1):
                for a in rk.atoms(g, b, k)[1]:
                    if a[0] in ('eq', 'ne') and a[2] == ('c', 0) and a[1][0] == 'ld' and rk.lastfield(a[1][1]) == lf and not any(s.op == 'store' and g.expr(s.x[1]) == a[1][1] and g.reaches(s, g.blocks[b][-1]) for s in g.insts): return g
    return None


def stacks(r, P):
    thr = P.threads()
    for f, i, tid, ents, arg in thr:
        r.count('threads')
        # what the thread was given must not be released behind its back
        for j in f.calls():
            for n, a in enumerate(j.args):
                if not (RELEASE.get(j.callee) == n or (j.callee, n) in releasers(P)) or f.expr(a) != f.expr(arg) or not f.reaches(i, j): continue
                if any(g[0] == 'ne' and g[1] == ('call', i.callee, i.idx) and g[2] == ('c', 0) for g in rk.guards(f, j)): continue
                if any(f.reaches(i, k) and f.dominates(k, j) for k in f.calls('pthread_join')): continue
                r.violation('%s:%s:argument' % (f.name, ','.join(ents)), '%s %s: the thread running %s is given %s, which is released at %s before the thread is joined' % (i.loc(), f.name, ', '.join(ents), rk.show(f.expr(arg), f), j.loc()))
        for v in f.phi_leaves(arg):
            e = rk.root(f.expr(v))
            if e[0] != 'loc': continue
            r.count('threads_working_on_a_local')
            joins = [j for j in f.calls('pthread_join')]
            if not joined_everywhere(f, i, joins): r.violation('%s:%s:stack' % (f.name, ','.join(ents)), '%s %s: the thread running %s is given the address of the local %s, but %s can return before the thread is joined' % (i.loc(), f.name, ', '.join(ents), e[2], f.name))
    for f in P.analysed():
        for i in f.insts:
            if i.op != 'store': continue
            for v in f.phi_leaves(i.x[0]):
                if not isinstance(v, int): continue
                if f.insts[v].op not in ('alloca', 'getelementptr'): continue
                e = f.expr(v)
                if rk.root(e)[0] != 'loc': continue
                a = f.expr(i.x[1])
                if rk.root(a)[0] == 'loc' or rk.root(a)[0] == 'ld' and rk.root(rk.root(a)[1])[0] == 'loc': continue
                r.count('addresses_of_locals_stored')
                # taken back, or the object is gone, on every way out
                if f.rawname == 'main' or undone(f, i, a): continue
                r.violation('%s:%s:stored' % (f.name, rk.show(a, f)), '%s %s: the address of the local %s is stored in %s and still there when the function returns' % (i.loc(), f.name, rk.root(e)[2], rk.show(a, f)))


def undone(f, st, a):
    seen = set(); work = [(st.bb, st.pos + 1)]
    while work:
        b, p = work.pop()
        stop = False
        for i in f.blocks[b][p:]:
            if i.op == 'store' and f.expr(i.x[1]) == a and i is not st: stop = True; break
            if i.op == 'ret': return False
        if stop: continue
        for s in f.succs[b]:
            if s not in seen: seen.add(s); work.append((s, 0))
    return True


def joined_everywhere(f, create, joins):
    """no path from the creation to a return avoids every join (the failure branch of the creation aside)"""
    jb = {(j.bb, j.pos) for j in joins}
    seen = set(); work = [(create.bb, create.pos + 1)]
    while work:
        b, p = work.pop()
        stop = False
        for i in f.blocks[b][p:]:
            if (i.bb, i.pos) in jb: stop = True; break
            if i.op == 'ret': return False
        if stop: continue
        for k, s in enumerate(f.succs[b]):
            m, at = rk.atoms(f, b, k)
            if m == 'all' and any(fa[1] == ('call', create.callee, create.idx) and fa[0] == 'ne' and fa[2] == ('c', 0) for fa in at): continue
            if loop_of_joins(f, b, s, jb): continue
            if s not in seen: seen.add(s); work.append((s, 0))
    return True


def loop_of_joins(f, b, s, jb):
    """leaving a loop whose body joins: the loop that joins every thread of an array"""
    for h, body in f.loops().items():
        if h == b and s not in body and any(x[0] in body for x in jb): return True
    return False
