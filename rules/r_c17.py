"""C17: positions in the rings stay inside them."""
import rk, ring, poly


def sinks(f):
    """(instruction, value, ring, what)"""
    g = ring.GIVEN.get(f.name)
    for i in f.insts:
        if g:
            if i.op == 'store' and f.expr(i.x[1]) == ('arg', g[1]): yield i, i.x[0], 'given', 'kept as a position'
            if i.op == 'getelementptr' and i.x[1] and i.x[1][0][0] == 'p' and f.expr(i.x[0]) == ('arg', g[0]): yield i, i.x[1][0][1], 'given', 'used as a slot'
            if i.op == 'call' and i.callee in ring.GETTERS and f.expr(i.args[0]) == ('arg', g[0]): yield i, i.args[1], 'given', 'used as a slot'
        if i.op == 'icmp' and i.x[0] in ('eq', 'ne'):
            # a position of this function waiting for the one of the ring to move
            for v, w in ((i.x[1], i.x[2]), (i.x[2], i.x[1])):
                e = f.expr(w)
                if isinstance(f.val(v), rk.Inst) and f.val(v).op == 'phi' and e[0] == 'ld' and ring.ringof(e[1]): yield i, v, ring.ringof(e[1]), 'compared with the position'
        if i.op == 'store':
            n = ring.ringof(f.expr(i.x[1]))
            if n and i.x[2] in (1, 2, 4, 8) and i.x[3] != 'p': yield i, i.x[0], n, 'kept as a position'
        elif i.op == 'getelementptr' and i.x[1] and i.x[1][0][0] == 'p':
            n = ring.slots(f.expr(i.x[0]))
            if n: yield i, i.x[1][0][1], n, 'used as a slot'
        elif i.op == 'getelementptr':
            for m, x, c in ring.tables(f, i):
                for n in ring.RINGS:
                    if isinstance(ring.RINGS[n][0], int) and (m in ring.RINGS[n][1] or m[1] in ring.RINGS[n][1]): yield i, x, n, 'used as a slot'
        elif i.op == 'call' and i.callee in ring.GETTERS:
            b, x = ring.GETTERS[i.callee]
            n = ring.slots(f.expr(i.args[b]))
            if n: yield i, i.args[x], n, 'used as a slot'


def check(r):
    P = rk.Program()
    ring.settle(P)
    for f in P.analysed():
        Rs = {}
        for i, v, n, what in sinks(f):
            r.count('positions')
            R = Rs.setdefault(n, ring.Ring(f, n, P))
            x = R.inside_of(v, R.at(i), i)
            if x is False and i.op == 'store' and R.atmost(v, R.at(i)) and reset(f, R, i, n): x = True; r.count('stepped_then_reset')
            r.count({True: 'inside', False: 'outside', None: 'undecided'}[x])
            if x is None: r.sample('%s %s ring: %s' % (i.loc(), n, rk.show(f.expr(v), f)))
            if x is False:
                r.violation('%s:%s:%s' % (f.name, n, rk.show(f.expr(v), f)), '%s %s: %s is %s of the %s ring without having been brought back inside it' % (i.loc(), f.name, rk.show(f.expr(v), f), what, n))
        memory(r, P, f)
        handed(r, P, f)
    r.need('positions', 200); r.need('inside', 150); r.need('rings_allocated', 5)
    r.explanation = 'linear reasoning (sums of the comparisons on the way, of the bounds of the positions kept in members and of the wrapped steps) at every position that is kept in a member or used to reach a slot; the memory of every ring has as many slots as its depth says, the depth is not zero by then and does not change afterwards'
    r.assumptions = ['a position does not change between the comparison and the use of the same member', 'one step over several slots is not larger than the ring', 'the rings of a radar have at least four slots', 'the number of a worker is below the number of workers']


def handed(r, P, f):
    """a ring is handed on with its own position and its own depth"""
    g = ring.GIVEN.get(f.name)
    for i in f.insts:
        if i.op != 'call' or i.callee not in ring.GIVEN: continue
        b, x, d = (i.args[k] for k in ring.GIVEN[i.callee])
        eb, ex = f.expr(b), f.expr(x)
        if eb in (('c', 0), ('n',)): continue
        r.count('rings_handed_on')
        if g and (eb, ex, f.expr(d)) == tuple(('arg', k) for k in g): continue
        n = ring.slots(eb)
        if not n: r.count('rings_handed_on_unknown'); continue
        R = ring.Ring(f, n, P)
        if ring.ringof(ex) != n and ring.ringof(('ld', ex)) != n or R.lin(d) != R.S:
            r.violation('%s:%s:%s' % (f.name, i.callee, n), '%s %s hands the %s ring to %s together with a position or a depth that is not its own' % (i.loc(), f.name, n, i.callee))


def reset(f, R, st, n):
    """a position stepped up to the depth is brought back before anything else sees it"""
    a = f.expr(st.x[1]); S = R.S; m = {('m', a): 1}

    def tr(i, s):
        if s in ('past', 'full') and i.op == 'store' and f.expr(i.x[1]) == a and i.idx != st.idx:
            return [None_] if R.inside_of(i.x[0], R.at(i), i) else ['bad']
        if s in ('past', 'full'):
            if i.op == 'getelementptr' and any(p[0] in 'pi' and f.expr(p[1]) == ('ld', a) for p in i.x[1]): return ['bad']
            if i.op == 'ret': return ['bad']
        return None
    None_ = 'ok'

    def ed(g, bb, pos, s):
        if s != 'past': return s
        k, at = rk.atoms(f, bb, pos)
        for p, x, y in R.facts(at):
            for u, w, q in ((x, y, p), (y, x, rk.SWAP.get(p, p))):
                if u != m: continue
                d = ring.add(w, S, -1)
                if d == {} and q in ('ne', 'ult', 'slt') and (k == 'all' or len(at) == 1): return 'ok'
                if d == {} and q in ('eq', 'uge', 'sge') and (k == 'all' or len(at) == 1): return 'full'
                if d == {ring.ONE: -1} and q in ('ule', 'sle') and (k == 'all' or len(at) == 1): return 'ok'
                if d == {ring.ONE: -1} and q in ('ugt', 'sgt') and (k == 'all' or len(at) == 1): return 'full'
        return s
    ex = rk.Explorer(f, tr, ed)
    ends = ex.run('past', st.bb, st.pos + 1)
    return not any(s in ('bad', 'past', 'full') for t, s, k in ends if t.op == 'ret')


def memory(r, P, f):
    R = {n: ring.Ring(f, n, P) for n in ring.RINGS if n != 'given' and not isinstance(ring.RINGS[n][0], int)}
    allocs = []
    for i in f.insts:
        if i.op == 'call' and i.callee in ('RKPulseBufferAlloc', 'RKRayBufferAlloc'):
            n = ring.slots(('ld', f.expr(i.args[0])))
            if n: allocs.append((i, n, R[n].lin(i.args[2]), 1))
        elif i.op == 'call' and i.callee == 'posix_memalign':
            n = ring.slots(('ld', f.expr(i.args[0])))
            if n in R: allocs.append((i, n, R[n].lin(i.args[2]), None))
        elif i.op == 'store' and i.x[2] == 8:
            n = ring.slots(('ld', f.expr(i.x[1])))
            if n not in R: continue
            for v in f.phi_leaves(i.x[0]):
                j = f.insts[v] if isinstance(v, int) else None
                if j is not None and j.op == 'call' and j.callee == 'malloc': allocs.append((j, n, R[n].lin(j.args[0]), None))
    for i, n, have, unit in allocs:
        r.count('rings_allocated')
        if unit is None: unit = element(P, f, i, n)
        S = list(R[n].S)[0]
        # a size in other terms is not compared
        if unit is None or any(m != ring.ONE and m[0] != 'S' for m in have): r.count('rings_of_other_size'); continue
        if have.get(S, 0) < unit or any(c < 0 for c in have.values()) or any(m != S and m != ring.ONE for m in have):
            r.violation('%s:%s:slots' % (f.name, n), '%s %s: the memory of the %s ring does not have as many slots as its depth says' % (i.loc(), f.name, n))
    need = {n for i, n, h, u in allocs if isinstance(ring.RINGS[n][0], str) and ofradar(f, i)}
    for n in sorted(need): empty(r, f, R[n], n, {i.idx for i, k, h, u in allocs if k == n})
    # the depth of a radar at work
    for i in f.insts:
        if i.op != 'store': continue
        e = f.expr(i.x[1]); n = ring.depthof(('ld', e))
        if n is None or not isinstance(ring.RINGS[n][0], str): continue
        if not any(x[0] == 'ld' for x in rk.subexprs(e)) and not any(x[0] == 'arg' for x in rk.subexprs(e)): continue
        r.count('depths_set')
        if n not in need and any(g.callee is not None for g in f.insts if g.op == 'call') and ('RKRadar', 'desc') in rk.fields(e):
            r.violation('%s:%s:depth' % (f.name, n), '%s %s changes the depth of the %s ring of a radar whose ring it has not allocated' % (i.loc(), f.name, n))


def ofradar(f, i):
    if i.callee == 'malloc': d = [f.expr(j.x[1]) for j in f.insts if j.op == 'store' and any(v == i.idx for v in f.phi_leaves(j.x[0]))]
    else: d = [f.expr(i.args[0])]
    return any(s == 'RKRadar' for e in d for s, m in rk.fields(e)) or any((rk.lastfield(e) or ('', ''))[0] in ('RKRadar', 'RKNodalHealth') for e in d)


def element(P, f, i, n):
    """bytes of one slot, from the way the ring is used"""
    b = ring.RINGS[n][1]; z = set()
    e = f.expr(i.args[0]) if i.callee == 'posix_memalign' else None
    lf = rk.lastfield(e) if e else None
    for j in f.insts:
        if lf is None and j.op == 'store' and any(v == i.idx for v in f.phi_leaves(j.x[0])): lf = rk.lastfield(f.expr(j.x[1]))
    for g in P.analysed():
        for j in g.insts:
            if j.op == 'getelementptr' and j.x[1] and j.x[1][0][0] == 'p':
                x = g.expr(j.x[0])
                if x[0] == 'ld' and rk.lastfield(x[1]) == lf: z.add(j.x[1][0][2])
    return max(z) if z else None


def empty(r, f, R, n, allocs):
    """no ring is allocated with a depth of zero"""
    d = ring.RINGS[n][0]
    bad = []

    def tr(i, s):
        if i.op == 'store' and ring.depthof(('ld', f.expr(i.x[1]))) == n:
            v = f.expr(i.x[0]); return ['ok' if v[0] == 'c' and v[1] > 0 else 'any']
        if i.idx in allocs and s == 'any': bad.append(i)
        return None

    def ed(g, bb, pos, s):
        k, at = rk.atoms(f, bb, pos)
        for p, x, y in R.facts(at):
            for u, w, q in ((x, y, p), (y, x, rk.SWAP.get(p, p))):
                if u == R.S and set(w) <= {ring.ONE} and (k == 'all' or len(at) == 1):
                    c = w.get(ring.ONE, 0)
                    if q == 'ne' and c == 0 or q in ('ugt', 'sgt') and c >= 0 or q in ('uge', 'sge') and c > 0 or q == 'eq' and c > 0: return 'ok'
                    if s == 'ok' and (q == 'eq' and c == 0): return None
        return s
    rk.Explorer(f, tr, ed).run('any')
    r.count('depths_examined')
    for i in bad[:1]: r.violation('%s:%s:empty' % (f.name, n), '%s %s can allocate the %s ring with a depth of zero' % (i.loc(), f.name, n))
