"""C06: stopping is idempotent: state flags are only flipped where their value is known, threads are only joined where they exist, and what proved
their existence is withdrawn before the stop returns."""
import rk, life
from r_c07 import flagmembers, semaddr
from collections import defaultdict

ALLONES = {0xffffffff, 0xffffffffffffffff, 0xffff, 0xff, 1 << 64}


def creator_state(P):
    """entry routine -> {(struct, member): (bits set, bits clear)} at its creation"""
    res = {}
    for f, i, tid, ents, arg in P.threads():
        ae = [f.expr(v) for v in f.phi_leaves(arg)]
        addrs = {life.update(f, j)[1] for j in f.insts if life.update(f, j)} | {f.expr(j.x[1]) for j in f.insts if j.op == 'store' and (rk.lastfield(f.expr(j.x[1])) or ('', ''))[1] == 'state'}
        for a in addrs:
            if a[0] != 'fld' or a[1] not in ae: continue
            b = life.Bits(f, a); b.watch.add(i.idx); b.run()
            sts = b.at.get(i.idx)
            if not sts: continue
            s = ~0; c = ~0
            for x in sts: s &= x[0]; c &= x[1]
            for e in ents:
                k = (a[2], a[3])
                d = res.setdefault(e, {})
                d[k] = (d[k][0] & s, d[k][1] & c) if k in d else (s, c)
    return res


def check(r):
    P = rk.Program()
    cs = creator_state(P)
    ups = life.updates(P)
    alt = defaultdict(set)      # routines of which one thread runs either
    same = defaultdict(set)
    for t in P.threads():
        if rk.lastfield(t[2]): same[rk.lastfield(t[2])] |= set(t[3])
    for l in same.values():
        for e in l: alt[e] |= l
    owners = defaultdict(lambda: defaultdict(set))   # member -> bit -> functions
    for lf, l in ups.items():
        for f, i, op, mask, addr in l:
            for b in range(64):
                if mask >> b & 1 and mask not in ALLONES and mask >= 0: owners[lf][b].add(f.name)
    for f in P.analysed():
        addrs = []
        for i in f.insts:
            u = life.update(f, i)
            if u and u[0] == 'xor' and u[2] not in ALLONES and u[1] not in addrs: addrs.append(u[1])
        for a in addrs:
            lf = rk.lastfield(a)
            if not lf: continue
            start = [0, 0]
            if a[0] == 'fld' and a[1] == ('arg', 0) and f.name in cs:
                s, c = cs[f.name].get(lf, (0, 0)); start = [s, c]
            # a bit that only this function touches starts out clear, as the object was zeroed when made
            for b in range(64):
                if owners[lf][b] == {f.name} and not start[0] >> b & 1: start[1] |= 1 << b
            others = cleared_elsewhere(f, lf, ups, alt) if f.name in cs else 0
            B = life.Bits(f, a, (start[0] & ~others, start[1] & ~others), others).run()
            if f.name in cs: leftover(r, f, a, lf, B, ups, alt)
            n = len([1 for i in f.insts if (life.update(f, i) or (0, 0))[:2] == ('xor', a)])
            r.count('flips', n); r.count('flip_paths', B.ex.n)
            for idx, (kind, bits) in B.bad.items():
                i = f.insts[idx]
                if kind == 'clear' and not life.TEARDOWN.search(f.name): continue
                r.violation('%s:%s.%s:0x%x:%s' % (f.name, lf[0], lf[1], bits, kind), '%s %s flips bit 0x%x of %s where it is %s: the flag would be turned on instead of off' % (
                    i.loc(), f.name, bits, rk.show(a, f), 'not known to be set' if kind == 'unknown' else 'already clear'))
    transient(r, P, ups)
    stops(r, P)
    r.need('flips', 60); r.need('joins_examined', 15)
    r.explanation = 'Typestate of every flag word along all paths of every function that flips bits of it (xor); thread routines start from the bits their creator has set. For every pthread_join in tear-down code: the evidence that the thread exists, and the withdrawal of that evidence on every path to the return.'


def cleared_elsewhere(f, lf, ups, alt):
    """bits that other functions may turn off at any time"""
    m = 0
    for g, i, op, mask, addr in ups[lf]:
        if g is f or g.name in alt.get(f.name, ()): continue
        if op == 'xor' and mask not in ALLONES: m |= mask
        if op == 'and': m |= ~mask & 0xffffffffffffffff
    return m


def transient(r, P, ups):
    """a phase that some function enters is left somewhere"""
    for lf, l in ups.items():
        if lf[1] != 'state': continue
        on = defaultdict(list); off = 0
        for f, i, op, mask, addr in l:
            if op == 'or': on[mask & (life.ACTIVATING | life.DEACTIVATING | life.ACTIVE)].append((f, i))
            elif op == 'xor': off |= mask
            elif op == 'and': off |= ~mask
        for m, w in on.items():
            if not m: continue
            r.count('phases_entered')
            if m & ~off:
                f, i = w[0]
                r.violation('%s.%s:0x%x:never-off' % (lf[0], lf[1], m & ~off), '%s %s turns on bit 0x%x of %s, which nothing ever turns off' % (i.loc(), f.name, m & ~off, '%s.%s' % lf))


def leftover(r, f, a, lf, B, ups, alt):
    """a thread routine ends with every bit off that it turns on itself and nobody else turns off"""
    M = 0
    for g, i, op, mask, addr in ups[lf]:
        if g is f and (op == 'or' or op == 'xor' and not mask & B.start[0]) and mask not in ALLONES and mask > 0: M |= mask
    M &= ~cleared_elsewhere(f, lf, ups, alt)
    done = 0
    for t, st, key in B.exits:
        if t.op != 'ret': continue
        r.count('thread_ends')
        bad = st[0] & M & ~done
        if bad:
            done |= bad
            r.violation('%s:%s.%s:0x%x:left-on' % (f.name, lf[0], lf[1], bad), '%s %s ends with bit 0x%x of %s on, which nothing else turns off; path through lines %s' % (t.loc(), f.name, bad, rk.show(a, f), B.ex.path(key)[-8:]))


def evidence(f, j, addr, member, flags):
    """facts at a join that show the thread exists: list of (kind, address, mask)"""
    ev = []
    for p, a, b, oa, ob, blk in rk.guards(f, j):
        t = life.bittest((p, a, b))
        if t:
            lf = rk.lastfield(t[0])
            if lf and lf[1] == 'state' and t[2] and t[1] & (life.WANT | life.ACTIVE) and not t[1] & ~(life.WANT | life.ACTIVE | life.ACTIVATING): ev.append(('bit', t[0], t[1]))
            continue
        for x, y, q in ((a, b, p), (b, a, rk.SWAP.get(p, p))):
            if x[0] == 'ld' and y == ('c', 0) and q in ('ne', 'ugt', 'sgt'):
                if x[1] == addr: ev.append(('id', addr, None))
                elif rk.lastfield(x[1]) in flags: ev.append(('flag', x[1], None))
            if x[0] == 'ld' and y[0] == 'c' and (rk.lastfield(x[1]) or ('', ''))[1] == 'state' and q in ('eq', 'sgt', 'ugt', 'sge', 'uge', 'ne', 'sle', 'ule'): ev.append(('state', x[1], None))
            if x[0] == 'call' and x[1] == 'pthread_create' and y == ('c', 0) and q == 'eq': ev.append(('made', None, None))
    return ev


def stops(r, P):
    cre = defaultdict(list)
    for c in P.threads():
        lf = rk.lastfield(c[2])
        if lf: cre[lf].append(c)
    ents = life.thread_entries(P)
    for f, j, addr, lf in life.joins(P):
        if not life.TEARDOWN.search(f.name) or f.name in ents: continue
        r.count('joins_examined')
        flags = flagmembers(P, lf[0], cre.get(lf, [])) if lf else set()
        ev = evidence(f, j, addr, lf, flags)
        k = '%s:%s' % (f.name, lf[1] if lf else rk.show(addr, f))
        if not ev:
            # a destructor called exactly once per object that only exists with its thread needs no evidence
            if once(P, f, addr, lf, cre.get(lf, [])): r.count('joins_of_objects_that_are_threads'); continue
            r.violation(k + ':unguarded-join', '%s %s waits for a thread without having established that there is one' % (j.loc(), f.name)); continue
        r.sample('%s joins %s because of %s' % (f.name, k, '/'.join(sorted({e[0] for e in ev}))))
        # at least one piece of evidence is withdrawn on every path through the join
        if frees_object(f, j): r.count('freed_after_join'); continue
        good = False
        for e in ev:
            if e[0] == 'made': good = True; break
            wd = [i for i in f.insts if withdraws(f, i, e)]
            if any(f.dominates(i, j) for i in wd) or wd and post(f, j, {i.idx for i in wd}) : good = True; break
        r.count('withdrawals_checked')
        if not good:
            r.violation(k + ':rejoin', '%s %s does not record that the thread has been waited for: stopping again would wait for it again' % (j.loc(), f.name))
        # the deactivating flag, where used, must be seen clear first
        for i in f.insts:
            u = life.update(f, i)
            if u and u[0] == 'or' and u[2] & life.DEACTIVATING and (rk.lastfield(u[1]) or ('', ''))[1] == 'state':
                r.count('deactivations')
                if not any((lambda t: t and t[0] == u[1] and t[1] & life.DEACTIVATING and not t[2])(life.bittest(g)) for g in rk.guards(f, i)):
                    r.violation('%s:%s:concurrent-stop' % (f.name, lf[1] if lf else '?'), '%s %s enters the deactivating state without checking that no other stop is under way' % (i.loc(), f.name))
                # and it is left again before the return
                left = {x.idx for x in f.insts if (lambda v: v and v[1] == u[1] and v[0] in ('xor', 'and') and (v[2] & life.DEACTIVATING if v[0] == 'xor' else not v[2] & life.DEACTIVATING))(life.update(f, x)) or const_store(f, x, u[1])}
                if not post(f, i, left):
                    r.violation('%s:%s:stuck-deactivating' % (f.name, lf[1] if lf else '?'), '%s %s can return with the deactivating flag still set: the component could never be stopped again' % (i.loc(), f.name))


def const_store(f, i, a):
    return i.op == 'store' and f.expr(i.x[1]) == a and f.expr(i.x[0])[0] == 'c'


def post(f, a, stops):
    """every path from a to a return passes one of the instructions"""
    if not stops: return False
    seen = set(); st = [(a.bb, a.pos + 1)]
    while st:
        bb, pos = st.pop(); hit = False
        for i in f.blocks[bb][pos:]:
            if i.idx in stops: hit = True; break
            if i.op == 'ret': return False
        if hit: continue
        for s in f.succs[bb]:
            if s not in seen: seen.add(s); st.append((s, 0))
    return True


def withdraws(f, i, e):
    if i.op != 'store': return False
    a = f.expr(i.x[1])
    if a != e[1]: return False
    if e[0] == 'bit':
        u = life.update(f, i)
        if u: return u[0] == 'xor' and bool(u[2] & e[2]) or u[0] == 'and' and not u[2] & e[2]
        v = f.expr(i.x[0])
        return v[0] == 'c' and not v[1] & e[2]
    v = f.expr(i.x[0])
    return v[0] == 'c'


def frees_object(f, j):
    return post(f, j, {i.idx for i in f.calls('free') if any(f.expr(v) == ('arg', 0) for v in f.phi_leaves(i.args[0]))})


def once(P, f, addr, lf, cs):
    """the object is created together with its thread and f releases the object"""
    return frees_object_any(f) and all(c[0].name.endswith(('Create', 'Init')) for c in cs) and bool(cs)


def frees_object_any(f):
    return any(True for i in f.calls('free') if any(f.expr(v) == ('arg', 0) for v in f.phi_leaves(i.args[0])))
