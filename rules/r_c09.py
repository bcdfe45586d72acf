"""C09: every wait of a starting operation for its new thread is answered by that thread on all its paths, and pthread_create results are checked."""
import rk, life
from collections import defaultdict


def answers(f, inst, conds):
    """the store satisfies one of the conditions under which the waiting loop ends"""
    if inst.op != 'store': return False
    a = f.expr(inst.x[1]); e = f.expr(inst.x[0])
    lf = rk.lastfield(a)
    for p, S, m, mask, val in conds:
        if lf != (S, m): continue
        if mask is not None:
            u = life.update(f, inst)
            if u and (u[0] == 'or' and u[2] & mask or u[0] == 'xor' and u[2] & mask): return True
            if not u and e[0] == 'c' and e[1] & mask: return True
            continue
        if e[0] == 'c':
            v, w = e[1], val
            if w is None: return True
            if {'ne': v != w, 'eq': v == w, 'sgt': v > w, 'sge': v >= w, 'slt': v < w, 'sle': v <= w, 'uge': v >= w, 'ugt': v > w, 'ule': v <= w, 'ult': v < w}.get(p): return True
        elif p in ('ne', 'sgt', 'ugt', 'sge', 'uge'): return True
    return False


def conditions(f, exits, argS):
    """[(pred, struct, member, mask or None, constant or None)] under which a loop is left"""
    res = []
    for b, k, fa in exits:
        if not fa or fa[0] == 'notin': continue
        t = life.bittest(fa)
        if t:
            lf = rk.lastfield(t[0])
            if lf and t[2]: res.append(('ne', lf[0], lf[1], t[1], None))
            elif lf: res.append(('clear', lf[0], lf[1], t[1], None))
            continue
        for x, y, p in ((fa[1], fa[2], fa[0]), (fa[2], fa[1], rk.SWAP.get(fa[0], fa[0]))):
            if x[0] == 'ld' and rk.lastfield(x[1]):
                S, m = rk.lastfield(x[1])
                res.append((p, S, m, None, y[1] if y[0] == 'c' else None))
    return res


def failing_edge(f, bb, pos):
    """what fails on this branch: allocation or thread creation"""
    fa = rk.edge_fact(f, bb, pos)
    if not fa: return None
    for x, y in ((fa[1], fa[2]), (fa[2], fa[1])):
        if x[0] == 'call' and y == ('c', 0):
            if x[1] in ('pthread_create', 'posix_memalign') and fa[0] == 'ne': return x[1]
            if x[1] in ('malloc', 'calloc', 'sem_open') and fa[0] == 'eq': return x[1]
        if x[0] == 'call' and x[1] and x[1].endswith('Alloc') and fa[0] == 'eq': return x[1]
    return None


def check(r):
    P = rk.Program()
    done = set()
    for f, i, tid, ents, arg in P.threads():
        r.count('thread_creations')
        # the result must be tested, and the failing way must not run into a wait
        tested = [(bb, k) for bb in range(len(f.blocks)) for k in range(len(f.succs[bb])) if failing(f, bb, k, i)]
        loops = waiting(f, i, ents, P)
        if not tested:
            if loops: r.violation('%s:%s:create-unchecked' % (f.name, name(tid)), '%s %s waits for the new thread without checking that it was created' % (i.loc(), f.name))
        else:
            r.count('creation_results_checked')
            for (h, body, conds, quits) in loops:
                for bb, k in tested:
                    s = f.succs[bb][k]
                    # reaching the wait of a later creation is that one's business
                    if nextto(f, [s], h, i):
                        r.violation('%s:%s:create-failed-wait' % (f.name, name(tid)), '%s %s waits for a thread although creating it failed' % (i.loc(), f.name))
        for (h, body, conds, quits) in loops:
            r.count('handshakes')
            for e in ents:
                g = P.f(e)
                check_entry(r, P, f, i, g, conds, done, quits)
    r.need('thread_creations', 12); r.need('handshakes', 10)
    r.explanation = 'For each pthread_create: the loops after it that sleep until a member changes; every path of the thread routine from its start to any return must pass a store that satisfies that loop; a wait inside the thread routine for its own workers that cannot be abandoned is checked the same way.'


def name(tid):
    lf = rk.lastfield(tid)
    return lf[1] if lf else rk.show(tid)


def failing(f, bb, k, i):
    fa = rk.edge_fact(f, bb, k)
    if not fa: return False
    ids = lambda e: any(x[0] == 'call' and x[2] == i.idx for x in rk.subexprs(e))
    def has(o):
        if o is None: return False
        return any(isinstance(v, int) and v == i.idx for v in f.phi_leaves(o))
    if not (ids(fa[1]) or ids(fa[2]) or has(fa[3]) or has(fa[4])): return False
    z = fa[2] if fa[2][0] == 'c' else fa[1]
    return z == ('c', 0) and fa[0] in ('ne', 'slt', 'sgt', 'ugt')


def waiting(f, i, ents, P):
    """sleeping loops reachable from the creation whose end depends on members the thread routines write"""
    res = []
    writes = set()
    for e in ents:
        for g in P.byname[e]:
            for j in g.insts:
                if j.op == 'store':
                    lf = rk.lastfield(g.expr(j.x[1]))
                    if lf: writes.add(lf)
    argS = structs_of(f, i)
    for h, b, ex in life.wait_loops(f):
        if not (h in f.reach()[i.bb] or h == i.bb): continue
        if i.bb in b: continue
        conds = conditions(f, ex, None)
        mine = [c for c in conds if (c[1], c[2]) in writes and c[0] != 'clear' and c[1] in argS and (c[3] is None or any(answers(g, j, [c]) for e in ents for g in P.byname[e] for j in g.insts))]
        if not mine:
            # the loop right after the creation, for something of the thread's own object that the thread never touches
            mine = [c for c in conds if c[0] != 'clear' and c[1] in argS and c[3] is None and c[2] == 'tic'] if adjacent(f, i, h) else []
        if not mine: continue
        if any(c.callee == 'pthread_create' for x in b for c in f.blocks[x] if c.op == 'call'): continue
        # a wait that begins with the expected change made by others is not a handshake: require the member in every exit
        res.append((h, b, mine, any(c[0] == 'clear' and c[3] == life.WANT for c in conds)))     # the last: given up when a stop is requested (C08)
    return res


def nextto(f, starts, h, i):
    """a way to a loop on which no other loop is entered and no thread made, nor this one again"""
    heads = set(f.loops())
    seen = set(); st = list(starts)
    while st:
        b = st.pop()
        if b == h: return True
        if b in seen or b in heads or b == i.bb or any(c.callee == 'pthread_create' for c in f.blocks[b] if c.op == 'call'): continue
        seen.add(b); st += f.succs[b]
    return False


def adjacent(f, i, h):
    """no other thread is made, and no other loop entered, between the creation and the loop"""
    return nextto(f, f.succs[i.bb], h, i)


def structs_of(f, i):
    """structure types the thread's argument may point to: where its id lives"""
    lf = rk.lastfield(f.expr(i.args[0]))
    S = {lf[0]} if lf else set()
    for v in f.phi_leaves(i.args[3]):
        e = f.expr(v)
        if e[0] in ('idx', 'ld'):
            l = rk.lastfield(e) or rk.lastfield_of(e)
            if l: S.add(l[0])
        if e[0] in ('arg', 'call', 'phi'):
            # what the function itself takes the object for
            for j in f.insts:
                if j.op == 'getelementptr':
                    a = f.expr(j.idx)
                    while a[0] in ('fld', 'idx'):
                        if a[0] == 'fld' and a[1] == e: S.add(a[2])
                        a = a[1]
    return S


def own(P, g):
    """members written by the threads that g itself creates"""
    w = set()
    for i in g.calls('pthread_create'):
        S = structs_of(g, i)
        for v in g.phi_leaves(i.args[2]):
            e = g.expr(v)
            if e[0] == 'F':
                for h in P.byname[e[1]]:
                    for j in h.insts:
                        lf = rk.lastfield(h.expr(j.x[1])) if j.op == 'store' else None
                        if lf and lf[0] in S: w.add(lf)
    return w


def bounded(P, g, fa, mine):
    if not fa or fa[0] == 'notin': return False
    for e in (fa[1], fa[2]):
        if e[0] == 'phi' or e[0] == 'op' and e[1] in ('add', 'sub') and any(x[0] == 'phi' for x in e[2:]): return True
        if e[0] == 'call' and e[1] == 'pthread_create': return True
        if e[0] == 'ld' and rk.lastfield(e[1]) in mine: return True
    return False


def line(g, b):
    l = [i.line for x in b for i in g.blocks[x] if i.line]
    return min(l) if l else g.line


def check_entry(r, P, f, i, g, conds, done, quits):
    key = (g.name, tuple(sorted(map(str, conds))))
    if key in done: return
    done.add(key)
    ans = {j.idx for j in g.insts if answers(g, j, conds)}
    r.count('answer_stores', len(ans))

    late = []

    def tr(j, st):
        if j.idx in ans: return [(True, st[1])]
        if st[0]:
            u = life.update(g, j)
            if u and u[0] == 'or' and u[2] & life.WANT and (rk.lastfield(u[1]) or ('', ''))[1] == 'state': late.append(j)
        return None

    def ed(fn, bb, pos, st):
        if st[0]: return st
        c = failing_edge(fn, bb, pos)
        return (st[0], c) if c else st
    ex = rk.Explorer(g, tr, ed)
    for t, (ok, cause), k in ex.run((False, None)):
        r.count('exit_states')
        if not ok and t.op == 'ret':
            r.violation('%s:silent:%s' % (g.name, cause or 'plain'), '%s %s can end without setting %s, which %s at %s waits for%s; path through lines %s' % (
                g.where(), g.name, ' / '.join(c[2] for c in conds), f.name, i.loc(), ' (after %s fails)' % cause if cause else '', ex.path(k)[-8:]))
    for j in late[:1]:
        r.violation('%s:late-active' % g.name, '%s %s says that it wants to be active only after it has set %s, for which %s waits: a stop right after the start would find nothing to stop' % (j.loc(), g.name, ' / '.join(sorted({c[2] for c in conds})), f.name))
    # blocking on something else before answering
    for h, b, exs in life.wait_loops(g) if not quits else ():
        if any(x.idx in ans for bb in b for x in g.blocks[bb]): continue
        before = not any(g.insts[a].bb in g.dom()[h] and g.insts[a].bb not in b for a in ans)
        if not before: continue
        r.count('waits_before_answer')
        if not any(bounded(P, g, x, own(P, g)) for _, _, x in exs):
            r.violation('%s:blocked-before-answer' % g.name, '%s:%d %s sleeps for a condition of its own before it sets %s, which %s waits for' % (
                g.file, line(g, b), g.name, ' / '.join(sorted({c[2] for c in conds})), f.name))
    r.sample('%s waits for %s, answered by %d stores of %s' % (f.name, '/'.join(sorted({c[2] for c in conds})), len(ans), g.name))
