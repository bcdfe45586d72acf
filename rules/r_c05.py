"""C05: an engine's threads are created only behind its properly-wired bit, and that bit is set only when everything the threads dereference is there."""
import rk, life
from collections import defaultdict


def wiresetters(P):
    """struct -> stores that set the wired bit on an existing object, with the function"""
    s = defaultdict(list)
    for (S, m), ups in life.updates(P).items():
        if m != 'state': continue
        for f, i, op, mask, addr in ups:
            if op == 'or' and mask & life.WIRED: s[S].append((f, i, addr))
    return s


def given(P):
    """struct -> pointer members that are stored from a function argument"""
    ext = defaultdict(set)
    for f in P.analysed():
        for i in f.insts:
            if i.op != 'store': continue
            a = f.expr(i.x[1])
            if a[0] != 'fld' or root_is_local(a): continue
            for v in f.phi_leaves(i.x[0]):
                e = f.expr(v)
                if e[0] == 'arg' and 'p' in str(f.argty[e[1]]): ext[a[2]].add(a[3])
    return ext


def root_is_local(a):
    return rk.root(a)[0] == 'loc'


def nullsafe(g, j, mem):
    """the use is behind a test that the member is there"""
    for p, a, b, oa, ob, blk in rk.guards(g, j):
        if p == 'ne' and b == ('c', 0) and a[0] == 'ld' and rk.lastfield(a[1]) == mem: return True
    return False


def used(P, S, members, ents):
    u = defaultdict(list)
    for n in P.reachable_from(ents):
        for g in P.byname[n]:
            for j in g.insts:
                es = []
                if j.op in ('load', 'store'):
                    es = [x for x in rk.subexprs(g.expr(j.x[0] if j.op == 'load' else j.x[1]))]
                elif j.op == 'call' and j.callee and not j.callee.startswith('llvm.'):
                    es = [g.expr(a) for a in j.args]
                for x in es:
                    if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == S and x[1][3] in members and not nullsafe(g, j, (S, x[1][3])):
                        if j.op == 'call' and P.byname.get(j.callee) and callee_checks(P, j, g, x): continue
                        u[x[1][3]].append((g, j))
    return u


def callee_checks(P, j, g, x):
    """the callee itself tests the argument for NULL"""
    for n, a in enumerate(j.args):
        if g.expr(a) != x: continue
        for h in P.byname[j.callee]:
            if h.decl: return False
            for bb in range(len(h.blocks)):
                for k in range(len(h.succs[bb])):
                    fa = rk.edge_fact(h, bb, k)
                    if fa and fa[1] == ('arg', n) and fa[2] == ('c', 0): return True
    return False


def check(r):
    P = rk.Program()
    setters = wiresetters(P)
    ext = given(P)
    bystruct = defaultdict(list)
    for f, i, tid, ents, arg in P.threads():
        lf = rk.lastfield(tid)
        if not lf or lf[0] not in setters: continue
        S = lf[0]
        if f.name in life.thread_entries(P): continue
        bystruct[S] += ents
        own = [x for x in setters[S] if x[0] is f]
        r.count('engine_starts')
        if own:
            r.count('starts_that_wire_themselves'); continue
        if not tested_anywhere(P, S):
            r.count('wired_bit_informative_only'); continue
        ok = False
        for g in rk.guards(f, i):
            t = life.proves_set(g, life.WIRED)
            if t and rk.lastfield(t) == (S, 'state'): ok = True
        if not ok:
            r.violation('%s:%s:unguarded' % (f.name, lf[1]), '%s %s creates the thread %s although the engine may not be properly wired' % (i.loc(), f.name, ', '.join(ents)))
        else:
            r.count('guarded_starts'); r.sample('%s: thread %s behind %s.state & ProperlyWired' % (f.name, ents, S))
            refusal(r, P, f, i, S)
    for S, ents in bystruct.items():
        u = used(P, S, ext[S], sorted(set(ents)))
        r.count('members_threads_depend_on', len(u))
        for f, i, addr in setters[S]:
            obj = addr[1]
            have = set()
            for p, a, b, oa, ob, blk in rk.guards(f, i):
                if p == 'ne' and b == ('c', 0) and a[0] == 'ld' and a[1][0] == 'fld' and a[1][1] == obj: have.add(a[1][3])
            for j in f.insts:
                if j.op == 'store' and f.dominates(j, i):
                    a = f.expr(j.x[1])
                    if a[0] == 'fld' and a[1] == obj and f.expr(j.x[0]) != ('c', 0): have.add(a[3])
            r.count('wiring_sites')
            for m in sorted(set(u) - have):
                g, j = u[m][0]
                r.violation('%s:%s.%s:unverified' % (f.name, S, m), '%s %s declares the engine properly wired without %s, which its thread uses (%s in %s)' % (i.loc(), f.name, m, j.loc(), g.name))
    r.need('engine_starts', 6); r.need('guarded_starts', 5); r.need('members_threads_depend_on', 15)
    r.explanation = 'For every engine with a properly-wired bit: the start function creates its thread only where the bit is known to be set and otherwise returns an error; where the bit is set, each pointer that was handed in from outside and that code reachable from the threads dereferences or passes on unchecked has been compared with NULL or stored.'


def tested_anywhere(P, S):
    for f in P.analysed():
        for bb in range(len(f.blocks)):
            if len(f.succs[bb]) < 2: continue
            t = life.bittest(rk.edge_fact(f, bb, 0))
            if t and t[1] & life.WIRED and rk.lastfield(t[0]) == (S, 'state'): return True
    # the structure's own start function used to test it: known from the base
    return S in BASE_TESTED


BASE_TESTED = {'RKHealthEngine', 'RKHealthLogger', 'RKMomentEngine', 'RKPositionEngine', 'RKPulseEngine', 'RKPulseRingFilterEngine', 'RKRadarRelay', 'RKRawDataRecorder', 'RKSteerEngine', 'RKSweepEngine'}


def refusal(r, P, f, i, S):
    """the refusing way returns an error"""
    for bb in range(len(f.blocks)):
        for k, s in enumerate(f.succs[bb]):
            t = life.bittest(rk.edge_fact(f, bb, k))
            if not (t and t[1] & life.WIRED and not t[2] and rk.lastfield(t[0]) == (S, 'state')): continue
            # straight to a return
            b, prev = s, bb
            for _ in range(20):
                ret = f.blocks[b][-1]
                if ret.op == 'ret':
                    if ret.x:
                        v = ret.x[0]
                        if isinstance(v, int) and f.insts[v].op == 'phi' and f.insts[v].bb == b:
                            v = [x[0] for x in f.insts[v].x if x[1] == prev]
                            v = v[0] if v else None
                        c = f.const(v) if v is not None else None
                        r.count('refusals_checked')
                        if c == 0: r.violation('%s:refusal' % f.name, '%s %s reports success although it refused to start an engine that is not wired' % (ret.loc(), f.name))
                    break
                if len(f.succs[b]) != 1: break
                prev, b = b, f.succs[b][0]
