"""C07: every thread created by a component is joined by the component's tear-down code on all paths, before anything it uses is released."""
import rk, life
from r_c10 import span, REL, KIT_REL
from collections import defaultdict


def tidmember(f, tid):
    lf = rk.lastfield(tid)
    if lf: return lf
    return None


def index(e):
    """index expressions along an address"""
    out = []
    while e[0] in ('fld', 'idx', 'ld'):
        if e[0] == 'idx': out.append(e[2])
        e = e[1]
    return out


def check(r):
    P = rk.Program()
    J = life.joins(P)
    ents_all = life.thread_entries(P)
    groups = defaultdict(list)
    for f, i, tid, ents, arg in P.threads():
        if f.file in ('rkutil.c',) or f.rawname.startswith('main'):
            r.count('threads_of_programs'); continue
        r.count('thread_creations')
        m = tidmember(f, tid)
        if m is None:
            local(r, P, f, i, tid, ents); continue
        groups[m].append((f, i, tid, ents, arg))
    for m, cs in sorted(groups.items()):
        js = [(g, j, a) for g, j, a, lf in J if lf == m]
        if not js:
            for m2 in twins(P, m):
                js = [(g, j, a) for g, j, a, lf in J if lf == m2]
                if js: m = m2; break
        names = sorted({c[0].name for c in cs})
        if not js:
            r.violation('%s:%s.%s:never-joined' % (names[0], m[0], m[1]), '%s %s creates a thread (%s) whose id %s.%s is never passed to pthread_join' % (cs[0][1].loc(), names[0], ', '.join(cs[0][3]), m[0], m[1])); continue
        flags = flagmembers(P, m[0], cs)
        down = []
        for g in {x[0].rawname: x[0] for x in js}.values():
            mine = [x for x in js if x[0] is g]
            self_made = [c for c in cs if c[0] is g]
            isdown = bool(life.TEARDOWN.search(g.name)) or g.name in ents_all
            if not isdown: continue
            down.append(g)
            for start in ([c[1] for c in self_made if g.name in ents_all or not life.TEARDOWN.search(g.name)] or [None]):
                paths(r, P, g, mine, m, flags, start)
            early(r, P, g, [x[1] for x in mine], m[0], set().union(*[set(c[3]) for c in cs]))
            # what is created per index is joined per index
            for c in cs:
                for x in mine:
                    A, B = index(c[2]), index(x[2])
                    if A and B:
                        a, b = span(c[0], A[0]), span(g, B[0])
                        if a and b:
                            r.count('index_ranges_compared')
                            if c[0] is g and a != b and not (isinstance(a[1], int) and isinstance(b[1], int) and b[0] <= a[0] and b[1] >= a[1]):
                                r.violation('%s:%s.%s:range' % (g.name, m[0], m[1]), '%s %s joins threads %s of %s.%s but creates %s' % (x[1].loc(), g.name, show(b, g), m[0], m[1], show(a, c[0])))
        for c in {c[0].rawname: c for c in cs}.values():
            # a thread that makes threads waits for its own, unless stopping does
            if c[0].name not in ents_all or life.TEARDOWN.search(c[0].name) or not down: continue
            below = P.reachable_from([c[0].name])
            if not any(life.TEARDOWN.search(g.name) or g.name in below for g in down):
                r.violation('%s:%s.%s:other-joins' % (c[0].name, m[0], m[1]), '%s %s creates threads %s.%s, which only %s waits for' % (c[1].loc(), c[0].name, m[0], m[1], ', '.join(sorted({g.name for g in down}))))
        if not down:
            r.violation('%s:%s.%s:not-in-teardown' % (names[0], m[0], m[1]), '%s the thread %s.%s is joined only in %s, not when the component stops' % (cs[0][1].loc(), m[0], m[1], ', '.join(sorted({x[0].name for x in js})))); continue
        r.count('joined_members')
        r.sample('%s.%s created in %s, joined in %s' % (m[0], m[1], ', '.join(names), ', '.join(sorted({g.name for g in down}))))
        destructor(r, P, m, down, flags, cs)
    slots(r, P, J)
    r.need('thread_creations', 12); r.need('joined_members', 10)
    r.explanation = ('Per thread-id member: all pthread_create sites, all pthread_join sites of the same member, and every path of the joining tear-down function or thread routine; a path may '
                     'skip the join only when it has established that there is no thread (id zero, not active, already being stopped, creation failed). Destructors must reach the join before they free the object.')


def slots(r, P, J):
    """objects kept in the slots of a table, each with threads: at the end every one that exists is destroyed, whatever its state"""
    dn = {g.name for g, j, a, lf in J if a[0] == 'fld' and a[1] == ('arg', 0)}
    for f in P.analysed():
        by = defaultdict(list)
        for i in f.calls():
            if i.callee in dn and i.args:
                e = f.expr(i.args[0])
                if e[0] == 'ld' and e[1][0] == 'idx' and rk.lastfield(e[1]): by[(i.callee, rk.lastfield(e[1]))].append((i, e))
        for (c, m), sites in sorted(by.items()):
            r.count('slot_tables')
            cond = []
            for i, e in sites:
                own = [fa for fa in rk.facts_at(f, i) if any(x[0] == 'ld' and x[1][0] == 'fld' and x[1][1] == e for y in fa[1:3] if isinstance(y, tuple) for x in rk.subexprs(y))]
                if not own: break
                cond.append('%s (%s)' % (i.loc(), ', '.join(sorted({rk.show(y, f) for fa in own for y in fa[1:3] if isinstance(y, tuple) and y[0] != 'c'}))))
            else: r.violation('%s:%s.%s:conditional' % (f.name, m[0], m[1]), '%s %s destroys an object of %s.%s, whose threads it must wait for, only in certain states of the object: %s' % (sites[0][0].loc(), f.name, m[0], m[1], '; '.join(cond)))


def show(s, f):
    return '%s..%s' % (s[0], s[1] if isinstance(s[1], int) else rk.show(s[1], f))


def twins(P, m):
    """members of other structures that begin with the same members up to this one"""
    S = P.structs.get(m[0])
    if not S: return []
    res = []
    pre = []
    for fl in S['fields']:
        pre.append((fl[0], fl[1]))
        if fl[0] == m[1]: break
    for n, T in P.structs.items():
        if n != m[0] and len(T['fields']) >= 3 and sum((x[0], x[1]) in pre for x in T['fields']) == len(pre) >= 3 and any((x[0], x[1]) == pre[-1] for x in T['fields']): res.append((n, m[1]))
    return res


def local(r, P, f, i, tid, ents):
    js = [x for x in f.calls('pthread_join') if any(f.expr(v) == ('ld', tid) for v in f.phi_leaves(x.args[0]))]
    det = [x for x in f.calls('pthread_detach') if f.expr(x.args[0]) == ('ld', tid)]
    key = '%s:%s' % (f.name, ents[0] if ents else '?')
    if not js:
        r.violation(key + ':detached', '%s %s runs %s in a thread that nothing waits for' % (i.loc(), f.name, ', '.join(ents))); return
    r.count('joined_locals')
    paths(r, P, f, [(f, j, tid) for j in js], None, set(), i, tid)


def flagmembers(P, S, cs):
    """plain members that the creator or the thread itself sets to nonzero while the thread exists"""
    s = set()
    for f in {c[0].rawname: c[0] for c in cs}.values():
        for i in f.insts:
            if i.op == 'store':
                lf = rk.lastfield(f.expr(i.x[1])); e = f.expr(i.x[0])
                if lf and lf[0] == S and e[0] == 'c' and e[1] != 0: s.add(lf)
    for n in {e for c in cs for e in c[3]}:
        for f in P.byname[n]:
            for i in f.insts:
                if i.op == 'store':
                    lf = rk.lastfield(f.expr(i.x[1])); e = f.expr(i.x[0])
                    if lf and lf[0] == S and e[0] == 'c' and e[1] != 0: s.add(lf)
    return s


def excuse(f, bb, pos, m, tid, flags):
    """a branch on which there is no thread to wait for"""
    fa = rk.edge_fact(f, bb, pos)
    if not fa: return None
    if fa[0] == 'notin':
        return 'state' if fa[1][0] == 'ld' and (rk.lastfield(fa[1][1]) or ('', ''))[1] == 'state' else None
    t = life.bittest(fa)
    if t:
        lf = rk.lastfield(t[0])
        if lf and lf[1] == 'state':
            if t[1] & life.DEACTIVATING and t[2]: return 'being stopped'
            if not t[2] and t[1] & life.WANT: return 'not active'
        return None
    for x, y, p in ((fa[1], fa[2], fa[0]), (fa[2], fa[1], rk.SWAP.get(fa[0], fa[0]))):
        if x[0] == 'call' and x[1] == 'pthread_create' and y == ('c', 0) and p in ('ne', 'slt', 'sgt'): return 'creation failed'
        if x[0] == 'call' and x[1] in ('sem_open', 'malloc', 'calloc', 'posix_memalign') and y == ('c', 0) and p == ('ne' if x[1] == 'posix_memalign' else 'eq'): return 'creation failed'
        if x[0] == 'ld' and y == ('c', 0) and p == 'eq' and x[1] in semaddr(f): return 'creation failed'
        if y == ('c', 0) and p in ('eq', 'sle', 'ule'):
            if x[0] == 'arg': return 'no object'
            if x[0] == 'ld':
                lf = rk.lastfield(x[1])
                if m and lf == m: return 'no thread'
                if x[1] == tid: return 'no thread'
                if lf and lf in flags and lf[1] != 'state': return 'not active'
                if lf and lf[1] in ('workers',): return 'no workers'
        if x[0] == 'ld' and y[0] == 'c' and (rk.lastfield(x[1]) or ('', ''))[1] == 'state' and (p in ('eq', 'sle', 'slt', 'ule', 'ult') or p in ('sgt', 'ugt', 'uge', 'sge')): return 'state'
    return None


def semaddr(f):
    s = set()
    for i in f.insts:
        if i.op == 'store' and any(f.expr(v)[0] == 'call' and f.expr(v)[1] == 'sem_open' for v in f.phi_leaves(i.x[0])): s.add(f.expr(i.x[1]))
    return s


def bound(g, head):
    """where the limit of a counting loop is kept"""
    t = g.blocks[head][-1]
    if t.op != 'br' or len(t.x) < 3: return None
    c = g.expr(t.x[0])
    if c[0] != 'cmp': return None
    for e in c[2:4]:
        while e[0] == 'op' and len(e) == 3: e = e[2]
        if e[0] == 'ld': return e[1]
    return None


def shared(g, start, heads, m):
    """(address of the count, join loops) when threads are created and joined up to the same count"""
    l = life.in_loop(g, start)
    if not l: return None
    b = bound(g, l[0])
    if b is None: return None
    tests = lambda x: any(v[0] == 'ld' and rk.lastfield(v[1]) == m for c in rk.guards(g, x[1]) for e in c[1:3] if isinstance(e, tuple) for v in rk.subexprs(e))
    hs = {h for h, x in heads.items() if bound(g, h) == b and not tests(x)}
    return (b, hs) if hs else None


def paths(r, P, g, js, m, flags, start, tid=None):
    """every path from the start (or the creation) to a return passes a join or an excuse"""
    jb = {x[1].idx for x in js}
    heads = {}
    for x in js:
        l = life.in_loop(g, x[1])
        # loops over workers: reaching the loop counts when it starts at the first one (range checked separately)
        if l and index(x[2]) and not (start is not None and start.bb in l[1]): heads[l[0]] = x
    counting = {b for b, x in heads.items()}
    for b, x in heads.items(): everyturn(r, g, x, b, m, jb, flags)
    tids = {x[2] for x in js}; stale = []; again = []
    limit = shared(g, start, heads, m) if start is not None and index_create(g, start) else None; beyond = []

    def tr(i, st):
        if st in ('ok', 'failed') and not (st == 'failed' and limit and (i.pos == 0 and i.bb in counting or i.op == 'store')):
            if start is not None and i.idx == start.idx: return ['run']
            if st == 'ok': return None
        if st == 'none':
            # the thread could not be made: its id means nothing until it is set again
            if i.op == 'store' and g.expr(i.x[1]) in tids: return ['ok']
            if start is not None and i.idx == start.idx: return ['run']
            if i.idx in jb: stale.append(i); return ['ok']
            return None
        if i.idx in jb: return ['ok']
        if st == 'run' and start is not None and i.idx == start.idx and not index_create(g, start): again.append(i)
        if st == 'failed' and limit and i.op == 'store' and g.expr(i.x[1]) == limit[0]: return ['run']
        if i.pos == 0 and i.bb in counting:
            if st == 'failed' and limit and i.bb in limit[1]: beyond.append(heads[i.bb][1])
            return ['ok']
        if start is not None and i.idx == start.idx: return ['run']
        return None

    def ed(f, bb, pos, st):
        if st in ('run', 'failed'):
            e = excuse(f, bb, pos, m, None, flags)
            if not e and tid is not None:
                fa = rk.edge_fact(f, bb, pos)
                if fa and fa[0] == 'eq' and ('ld', tid) in (fa[1], fa[2]) and ('c', 0) in (fa[1], fa[2]): e = 'no thread'
            if e == 'creation failed' and start is not None and not index_create(g, start) and not of(g, bb, pos, start): e = None
            if e == 'creation failed' and st == 'run':
                return 'none' if not index_create(g, start) else 'failed'
            if e in ('not active', 'being stopped', 'state') and start is not None: e = None      # in the thread itself these end its main loop
            if e and e != 'creation failed': return 'ok'
        return st
    ex = rk.Explorer(g, tr, ed)
    ends = ex.run('run' if start is None else 'idle')
    nm = '%s.%s' % m if m else rk.show(tid, g)
    for i in stale[:1]: r.violation('%s:%s:not-made' % (g.name, nm), '%s %s waits for thread %s although the latest attempt to make it, at %s, has failed' % (i.loc(), g.name, nm, start.loc()))
    for i in beyond[:1]: r.violation('%s:%s:beyond-failure' % (g.name, nm), '%s %s waits for as many threads as it meant to create, although creating one, at %s, may have failed and ended the loop early' % (i.loc(), g.name, start.loc()))
    for i in again[:1]: r.violation('%s:%s:again' % (g.name, nm), '%s %s makes thread %s anew without having waited for the one it made before' % (i.loc(), g.name, nm))
    for t, st, k in ends:
        r.count('exit_states')
        if t.op != 'ret': continue
        nm = '%s.%s' % m if m else rk.show(tid, g)
        if st == 'run':
            r.violation('%s:%s:skipped' % (g.name, nm), '%s %s can return without waiting for thread %s; path through lines %s' % (g.where(), g.name, nm, ex.path(k)[-10:]))
        elif st == 'failed':
            r.violation('%s:%s:after-create-failure' % (g.name, nm), '%s when one worker thread cannot be created %s returns without waiting for the others it created; path through lines %s' % (g.where(), g.name, ex.path(k)[-6:]))


def of(g, bb, pos, start):
    """the failure is that of this very call"""
    fa = rk.edge_fact(g, bb, pos)
    return any(x[0] == 'call' and x[1] == 'pthread_create' and x[2] == start.idx for y in fa[1:3] if isinstance(y, tuple) for x in rk.subexprs(y)) or any(
        isinstance(v, int) and v == start.idx for o in fa[3:5] if o is not None for v in g.phi_leaves(o))


def everyturn(r, g, x, head, m, jb, flags):
    """each turn of a loop over threads joins one, unless there is none"""
    body = life.in_loop(g, x[1])[1]
    st = [(s, 0) for s in g.succs[head] if s in body] if not any(i.idx in jb for i in g.blocks[head]) else []
    seen = set()
    while st:
        b, _ = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(i.idx in jb for i in g.blocks[b]): continue
        for k, s in enumerate(g.succs[b]):
            if excuse(g, b, k, m, x[2], flags): continue
            if s == head:
                r.violation('%s:%s:turn' % (g.name, '%s.%s' % m if m else rk.show(x[2], g)), '%s %s can go on to the next thread without having waited for this one (%s)' % (x[1].loc(), g.name, '%s.%s' % m if m else rk.show(x[2], g)))
                return
            if s in body: st.append((s, 0))
    r.count('join_loops')


def index_create(g, start):
    return start is not None and life.in_loop(g, start) is not None and bool(index(g.expr(start.args[0])))


def accessed(P, ents, S):
    key = tuple(sorted(ents))
    if not hasattr(P, '_acc'): P._acc = {}
    if key not in P._acc:
        s = set()
        for n in P.reachable_from(ents):
            for g in P.byname[n]:
                for i in g.insts:
                    if i.op in ('load', 'store'):
                        s |= set(rk.fields(g.expr(i.x[0] if i.op == 'load' else i.x[1])))
        P._acc[key] = s
    return P._acc[key]


def releases(f):
    for i in f.calls():
        c = i.callee
        if c and (c in REL or KIT_REL.match(c) or c in ('pthread_mutex_destroy',)) and i.args:
            yield i, f.expr(i.args[0])


def early(r, P, g, joins, S, ents):
    for i, e in releases(g):
        fl = [x for x in rk.fields(e) if x[0] == S]
        if not fl and rk.lastfield_of(e) and rk.root(e[1]) == ('arg', 0): fl = [rk.lastfield_of(e)]      # of the object around it
        if not fl and e != ('arg', 0): continue
        r.count('releases_ordered')
        for j in joins:
            if g.reaches(i, j) and not g.reaches(j, i):
                if e == ('arg', 0) or fl[0] in accessed(P, ents, S):
                    r.violation('%s:%s:released-early' % (g.name, fl[0][1] if fl else 'object'), '%s %s releases %s before it has waited for the thread that uses it (%s)' % (i.loc(), g.name, rk.show(e, g), j.loc()))


def destructor(r, P, m, down, flags, cs):
    """functions that free the object itself must have passed through a join"""
    S = m[0]
    dn = {g.name for g in down}
    if any(g.name in life.thread_entries(P) for g in down) and not any(life.TEARDOWN.search(g.name) for g in down):
        # workers are joined by the thread that made them, which is itself handled
        return
    for d in P.analysed():
        if not life.TEARDOWN.search(d.name) or d.name in dn: continue
        fr = [i for i in d.calls('free') if any(d.expr(v) == ('arg', 0) for v in d.phi_leaves(i.args[0]))]
        if not fr: continue
        if not any(x[0] == 'fld' and x[1] == ('arg', 0) and x[2] == S for i in d.insts if i.op == 'getelementptr' for x in rk.subexprs(d.expr(i.idx))): continue
        r.count('destructors')
        calls = {i.idx for i in d.calls() if i.callee in dn}

        def tr(i, st):
            if i.idx in calls: return [True]
            return None

        def ed(f, bb, pos, st):
            if not st and excuse(f, bb, pos, m, None, flags): return True
            return st
        bad = []
        def tr2(i, st):
            if i.idx in calls: return [True]
            if not st and i.idx in {x.idx for x in fr}: bad.append(i)
            return None
        ex = rk.Explorer(d, tr2, ed)
        ex.run(False)
        if bad:
            r.violation('%s:%s.%s:freed-running' % (d.name, S, m[1]), '%s %s frees the object on a path that has not waited for its thread %s.%s (%s)' % (bad[0].loc(), d.name, S, m[1], ', '.join(sorted(dn))))
        early(r, P, d, [d.insts[x] for x in calls], S, {e for c in cs for e in c[3]})
