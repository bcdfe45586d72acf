"""C03: the lock-order graph over lock classes is acyclic and no thread is joined while a lock it may need is held."""
import rk, locks, model, life
from collections import defaultdict

# The destroy-everything calls made once at process exit are not a lock-order concern.


def check(r):
    P = rk.Program()
    direct = defaultdict(dict)      # fn -> lock class -> location
    flows = {}
    prod = {f.name: f for f in P.analysed()}
    for f in locks.lock_functions(P):
        lf = locks.LockFlow(P, f); lf.run(); flows[f.rawname] = lf
        for i in f.calls(*locks.LOCK):
            direct[f.name].setdefault(locks.lockclass(f.expr(i.args[0])), i.loc())
        r.count('functions_with_locks')
    # transitive acquisition over the resolved call graph (indirect calls through member slots included)
    cg = {}
    for f in prod.values():
        s = set()
        for i in f.calls(): s |= P.targets(f, i)
        cg[f.name] = {x for x in s if x in prod}
    trans = {n: {l: (n,) for l in direct.get(n, {})} for n in cg}
    ch = True
    while ch:
        ch = False
        for n, cs in cg.items():
            for c in cs:
                for l, path in trans.get(c, {}).items():
                    if l not in trans[n]: trans[n][l] = (n,) + path; ch = True
    # joins reachable without leaving a function
    joins = defaultdict(dict)       # fn -> tid class -> loc
    for f in prod.values():
        for i in f.calls('pthread_join'):
            for v in f.phi_leaves(i.args[0]):
                e = f.expr(v)
                if e[0] == 'ld':
                    lf = rk.lastfield(e[1])
                    if lf: joins[f.name][lf] = i.loc()
    tjoins = {n: {l: (n,) for l in joins.get(n, {})} for n in cg}
    ch = True
    while ch:
        ch = False
        for n, cs in cg.items():
            for c in cs:
                for l, path in tjoins.get(c, {}).items():
                    if l not in tjoins[n]: tjoins[n][l] = (n,) + path; ch = True
    P._tjoins = tjoins
    entries = defaultdict(set)      # tid class -> entry routines
    for f, i, tid, ents, arg in P.threads():
        lf = rk.lastfield(tid)
        if lf: entries[lf] |= set(ents)
        r.count('thread_creations')
    edges = defaultdict(dict)       # L1 -> L2 -> text
    calls = 0
    for lf in flows.values():
        f = lf.f
        for idx, helds in lf.held_at.items():
            i = f.insts[idx]
            if i.op != 'call': continue
            if i.callee in locks.UNLOCK: continue
            for held in helds:
                for h in held:
                    H = locks.lockclass(h)
                    if i.callee in locks.LOCK:
                        L = locks.lockclass(f.expr(i.args[0]))
                        if f.expr(i.args[0]) != h: edges[H].setdefault(L, '%s at %s' % (f.name, i.loc()))
                        continue
                    for c in P.targets(f, i):
                        calls += 1
                        for L, path in trans.get(c, {}).items():
                            if L == H and path:
                                # same class: the same object only if reached through the same component; see below
                                edges[H].setdefault(L, '%s at %s -> %s' % (f.name, i.loc(), ' -> '.join(path)))
                            else:
                                edges[H].setdefault(L, '%s at %s -> %s' % (f.name, i.loc(), ' -> '.join(path)))
                        for t, path in tjoins.get(c, {}).items():
                            check_join(r, P, trans, entries, H, t, f, i, path)
                    if i.callee == 'pthread_join':
                        for v in f.phi_leaves(i.args[0]):
                            e = f.expr(v)
                            if e[0] == 'ld' and rk.lastfield(e[1]):
                                check_join(r, P, trans, entries, H, rk.lastfield(e[1]), f, i, ())
    n = 0
    for a in edges:
        for b, t in edges[a].items():
            n += 1
            r.sample('order %s -> %s (%s)' % (a, b, t))
    r.cov.update(lock_classes=len({l for d in direct.values() for l in d}), order_edges=n, calls_under_lock=calls)
    # cycles
    def reach(a):
        seen = {}; st = [(a, (a,))]
        while st:
            x, p = st.pop()
            for y in edges.get(x, {}):
                if y not in seen: seen[y] = p + (y,); st.append((y, p + (y,)))
        return seen
    done = set()
    for a in sorted(edges):
        rr = reach(a)
        if a in rr:
            cyc = rr[a]; k = frozenset(cyc)
            if k in done: continue
            done.add(k)
            r.violation('cycle:' + '>'.join(sorted(k)), 'locks taken in a cycle: ' + '; '.join('%s then %s (%s)' % (x, y, edges[x][y]) for x, y in zip(cyc, cyc[1:])))
    slept(r, P, flows, trans)
    r.need('lock_classes', 8); r.need('thread_creations', 12); r.need('order_edges', 3)
    r.explanation = 'lock classes are (structure, member) pairs or named locks; order edges come from typestate of held locks at each call and the transitive acquisitions of the callee; joins are matched to thread routines by the member holding the thread id'
    r.assumptions = ['two locks of the same class in one order edge are the same lock']


def check_join(r, P, trans, entries, H, tid, f, i, path):
    r.count('joins_under_lock')
    for e in entries.get(tid, ()):
        need = dict(trans.get(e, {}))
        # a thread also needs whatever the threads it joins need
        seen = {e}; st = [(e, (e,))]
        while st:
            x, p = st.pop()
            for t2 in P._tjoins.get(x, {}):
                for e2 in entries.get(t2, ()):
                    if e2 in seen: continue
                    seen.add(e2); st.append((e2, p + (e2,)))
                    for l, q in trans.get(e2, {}).items(): need.setdefault(l, p + q)
        if H in need:
            r.violation('join:%s:%s:%s' % (f.name, H, tid[1]), '%s at %s waits for thread %s.%s (%s) while holding %s, which that thread takes: %s' % (f.name, i.loc(), tid[0], tid[1], e, H, ' -> '.join(need[H])))


def slept(r, P, flows, trans):
    """a loop that sleeps until a thread sets something, entered with a lock that the thread may take before it does"""
    writers = defaultdict(list)     # member -> (thread routine, store)
    for e in sorted(life.thread_entries(P)):
        for g in P.byname[e]:
            for j in g.insts:
                if j.op == 'store' and rk.lastfield(g.expr(j.x[1])): writers[rk.lastfield(g.expr(j.x[1]))].append((g, j))
    for lf in flows.values():
        f = lf.f
        for h, body, exits in life.wait_loops(f):
            held = set()
            for b in body:
                for c in f.blocks[b]:
                    if c.op == 'call' and c.callee in life.NAPS:
                        for hs in lf.held_at.get(c.idx, ()): held |= {locks.lockclass(x) for x in hs}
            # a lock given back inside of the loop is not kept over the wait
            for b in body:
                for c in f.blocks[b]:
                    if c.op == 'call' and c.callee in locks.UNLOCK: held.discard(locks.lockclass(f.expr(c.args[0])))
            r.count('sleeping_loops_in_functions_with_locks')
            if not held: continue
            r.count('sleeps_under_a_lock')
            for b, k, fa in exits:
                if not fa or fa[0] == 'notin': continue
                bt = life.bittest(fa)
                for e in ([bt[0]] if bt else [x[1] for x in fa[1:3] if x[0] == 'ld']):
                    for g, j in writers.get(rk.lastfield(e), ()):
                        if g is f: continue
                        for H, c in needs(P, trans, writers, g, j, ()):
                            if H in held:
                                r.violation('sleep:%s:%s:%s' % (f.name, H, rk.lastfield(e)[1]), '%s sleeps at %s:%d until %s changes %s.%s, holding %s, which that thread takes at %s first' % (
                                    f.name, f.file, min([i.line for x in body for i in f.blocks[x] if i.line] or [f.line]), g.name, *rk.lastfield(e), H, c.loc()))


def needs(P, trans, writers, g, j, seen):
    """(lock, call) that a thread routine may take, or wait for another thread to take, on its way to an instruction"""
    if (g, j.idx) in seen: return
    for c in g.calls():
        if not g.reaches(c, j): continue
        if c.callee in locks.LOCK: yield locks.lockclass(g.expr(c.args[0])), c
        elif c.callee == 'pthread_create': continue
        else:
            for t in P.targets(g, c):
                for H in trans.get(t, ()): yield H, c
    for h, body, exits in life.wait_loops(g):
        if not g.reaches(g.blocks[h][0], j): continue
        for b, k, fa in exits:
            if not fa or fa[0] == 'notin': continue
            bt = life.bittest(fa)
            for e in ([bt[0]] if bt else [x[1] for x in fa[1:3] if x[0] == 'ld']):
                for g2, j2 in writers.get(rk.lastfield(e), ()):
                    if g2 is g or not any(g2.name in ents and f is g for f, i, tid, ents, arg in P.threads()): continue
                    yield from needs(P, trans, writers, g2, j2, seen + ((g, j.idx),))
