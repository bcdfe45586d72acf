"""C08: every waiting loop looks, on every turn, at something that ends it: a stop request read afresh, a counter that runs out, the end of a finite
list, or the answer of a thread it has created; and a stop operation makes its request, and wakes its workers, before it waits for the thread."""
import rk, life
from collections import defaultdict

STOPMEMBERS = {'wantActive', 'active', 'suspendHandler'}
BLOCKING = {'RKCommandQueuePop': 'a primitive whose purpose is to block until a command is pushed; no thread of the kit calls it'}
INPUT = {'read', 'recv', 'SSL_read', 'RKSocketRead', 'fread', 'fgets', 'readdir', 'getline', 'recvfrom', 'fscanf', 'fgetc', 'getc'}
NAPS = life.NAPS | {'accept'} | INPUT


def wait_loops(f):
    for h, b in f.loops().items():
        if any(c.op == 'call' and c.callee in NAPS for x in b for c in f.blocks[x]): yield h, b


def ops(f, o, body, depth=0):
    """instructions an operand is computed from"""
    out = []; st = [(o, 0)]; seen = set()
    while st:
        v, d = st.pop()
        if not isinstance(v, int) or v in seen or d > 12: continue
        seen.add(v); i = f.insts[v]; out.append(i)
        if i.op in ('load',): continue
        if i.op in ('call', 'phi', 'alloca'): continue
        st += [(x, d + 1) for x in rk.operands(i)]
    return out


def fresh(f, o, body):
    """the memory the condition looks at is read inside the loop"""
    lds = [i for i in ops(f, o, body) if i.op == 'load']
    return bool(lds) and all(i.bb in body for i in lds)


def counter(f, e, body):
    """an expression driven by a variable that every turn of the loop advances by a constant; None, or the phi"""
    for x in rk.subexprs(e):
        if x[0] != 'phi': continue
        p = f.insts[x[1]]
        if p.bb not in body or p.ty in ('ptr', 'p'): continue
        ins = [v for v, b in [(q[0], q[1]) for q in p.x] if b in body]
        if not ins: continue
        ok = adv = True; n = 0
        for v in leaves_in(f, ins, body, p.idx):
            y = f.expr(v) if not (isinstance(v, int) and v == p.idx) else ('phi', p.idx)
            if y == ('phi', p.idx): continue
            if y[0] == 'op' and y[1] in ('add', 'sub', 'fadd', 'fsub') and y[3][0] in ('c', 'd') and step(f, y[2], p.idx): n += 1; continue
            ok = False
        if ok and n: return p
    return None


def step(f, e, idx):
    """the value is the counter itself, or one already advanced on some ways (count++ in two places)"""
    if e == ('phi', idx): return True
    if e[0] == 'op' and e[1] in ('add', 'sub') and e[3][0] == 'c': return step(f, e[2], idx)
    if e[0] == 'phi': return all(f.expr(v) == ('phi', idx) or v == idx or step(f, f.expr(v), idx) for v in f.phi_leaves(e[1]) if isinstance(v, int)) if e[1] != idx else True
    return False


def leaves_in(f, vals, body, self_):
    res = []; seen = set(); st = list(vals)
    while st:
        v = st.pop()
        if isinstance(v, int):
            if v in seen: continue
            seen.add(v)
            i = f.insts[v]
            if v == self_: res.append(v); continue
            if i.op == 'phi' and i.bb in body: st.extend(x[0] for x in i.x); continue
            if i.op == 'select': st.extend(i.x[1:3]); continue
            if i.op in rk.CASTS: st.append(i.x[0]); continue
        res.append(v)
    return res


def disjuncts(f, fa):
    """facts of which at least one holds if the fact does, and each of which alone would make it hold; only these decide on their own"""
    if not fa or fa[0] == 'notin': return [fa]
    p, a, b, oa, ob = fa[:5]
    out = [fa]
    if b == ('c', 0) and p in ('eq', 'ne') and isinstance(oa, int):
        i = f.val(oa)
        if isinstance(i, rk.Inst) and i.op == 'select':
            c, x, y = i.x
            cx, cy = f.const(x), f.const(y)
            if cy == 0 and p == 'eq': out += sub(f, c, False) + sub(f, x, False)
            elif cx in (1, -1) and p == 'ne': out += sub(f, c, True) + sub(f, y, True)
            elif cx == 0 and p == 'eq': out += sub(f, c, True) + sub(f, y, False)
            elif cy in (1, -1) and p == 'ne': out += sub(f, c, False) + sub(f, x, True)
        elif isinstance(i, rk.Inst) and i.op in ('and', 'or') and i.ty == 'i1':
            if i.op == 'and' and p == 'eq': out += sub(f, i.x[0], False) + sub(f, i.x[1], False)
            if i.op == 'or' and p == 'ne': out += sub(f, i.x[0], True) + sub(f, i.x[1], True)
    return out


def sub(f, o, t):
    fa = rk.cond_fact(f, o, t)
    return disjuncts(f, fa) if fa else []


def ends(P, f, fa, body, hs):
    """why this exit ends the loop eventually, or None"""
    if not fa or fa[0] == 'notin': return None
    p, a, b, oa, ob = fa[:5]
    t = life.bittest(fa)
    if t and (rk.lastfield(t[0]) or ('', ''))[1] == 'state':
        if not t[2] and (t[1] == life.WANT or (fa[0] == 'ne' and t[1] & life.WANT and a != ('c', 0) and b != ('c', 0))) and fresh(f, oa, body): return 'stop request'
        if t[2] and t[1] & life.DEACTIVATING and not t[1] & ~life.DEACTIVATING and fresh(f, oa, body): return 'stop request'
        if t[2] and rk.lastfield(t[0]) in hs and fresh(f, oa, body): return 'answer of its thread'
        return None
    for x, y, o, q in ((a, b, oa, p), (b, a, ob, rk.SWAP.get(p, p))):
        if x[0] == 'ld' and y[0] == 'c':
            lf = rk.lastfield(x[1])
            if lf and lf[1] == 'state' and q != 'eq' and fresh(f, o, body): return 'state'
            if lf and lf[1] in STOPMEMBERS and y == ('c', 0) and q in ('eq', 'sle', 'ule') and fresh(f, o, body): return 'stop request'
        if x[0] == 'ld':
            lf = rk.lastfield(x[1])
            if lf and lf in hs and fresh(f, o, body): return 'answer of its thread'
        if q in ('sge', 'sgt', 'uge', 'ugt', 'sle', 'slt', 'ule', 'ult', 'eq', 'ne'):
            c = counter(f, x, body)
            if c is not None and not (q == 'ne'): return 'counter'
        if y[0] == 'c' and any(z[0] == 'call' and z[1] in INPUT for z in leafexprs(f, x)):
            # the end of the input (or an error) is what is compared with
            if rk_holds(q, 0, y[1]) or rk_holds(q, -1, y[1]) and not any(z[0] == 'call' and z[1] in ('fread', 'fgets', 'readdir', 'read', 'recv', 'SSL_read', 'RKSocketRead') for z in leafexprs(f, x)): return 'end of input'
        if x[0] == 'cmp' and y == ('c', 0):
            for z in x[2:]:
                if counter(f, z, body) is not None: return 'counter'
        if x[0] == 'phi' and y == ('c', 0) and q == 'eq' and f.insts[x[1]].ty in ('ptr', 'p') and any(f.expr(v) != ('c', 0) for v in f.phi_leaves(x[1])): return 'end of a list'
    return None


def leafexprs(f, e):
    if e[0] == 'phi': return [f.expr(v) for v in f.phi_leaves(e[1])]
    return [e]


def rk_holds(q, a, b):
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'ult': a % 2**64 < b % 2**64, 'ule': a % 2**64 <= b % 2**64, 'ugt': a % 2**64 > b % 2**64, 'uge': a % 2**64 >= b % 2**64}.get(q, False)


def answers(P, f):
    """members written by the threads this function creates"""
    s = set()
    for g, i, tid, ents, arg in P.threads():
        if g is not f: continue
        for n in P.reachable_from(ents):
            for h in P.byname[n]:
                for j in h.insts:
                    if j.op == 'store':
                        lf = rk.lastfield(h.expr(j.x[1]))
                        if lf: s.add(lf)
    return s


def cyclic(f, h, body, cut):
    """a way around the loop that passes none of the blocks cut"""
    if h in cut: return False
    seen = set(); st = [h]
    while st:
        b = st.pop()
        for n in f.succs[b]:
            if n == h: return True
            if n in body and n not in cut and n not in seen: seen.add(n); st.append(n)
    return False


def check(r):
    P = rk.Program()
    for f in P.analysed():
        if f.file == 'rkutil.c' and f.name == 'main': continue
        hs = None
        for h, b in wait_loops(f):
            if hs is None: hs = answers(P, f)
            r.count('waiting_loops')
            cut = set(); why = set(); tests = []
            for x in b:
                for k, s in enumerate(f.succs[x]):
                    if s in b: continue
                    fa = rk.edge_fact(f, x, k)
                    if fa: tests.append('%s %s %s' % (rk.show(fa[1], f)[:60], fa[0], rk.show(fa[2], f)[:30]))
                    for d in disjuncts(f, fa):
                        w = ends(P, f, d, b, hs)
                        if w: cut.add(x); why.add(w); break
            for w in why: r.count('ended_by_' + w.replace(' ', '_'))
            if cyclic(f, h, b, cut):
                if f.name in BLOCKING: r.count('blocking_primitives'); continue
                l = [i.line for x in b for i in f.blocks[x] if i.line]
                r.violation('%s:%s' % (f.name, key(f, h, b)), '%s:%d %s waits in a loop that can go on forever: it ends only when [%s], and examines no stop request or limit on every turn' % (f.file, min(l), f.name, '; '.join(tests)))
            else: r.sample('%s: %s' % (f.name, ', '.join(sorted(why))))
    requests(r, P)
    obeyed(r, P)
    wakes(r, P)
    r.need('waiting_loops', 80); r.need('joins_with_request', 10); r.need('loops_that_obey_their_joiner', 40)
    r.explanation = 'All natural loops of all functions that contain a sleep, select, semaphore or accept call; the exits that certainly end them (stop flags read inside the loop, counters advanced by a constant, list ends, members stored by threads created in the same function) must cut every cycle through the loop header. In stop operations: the flag tested by the loops of the thread is cleared before the join; semaphores its threads block on are posted before the join.'


def key(f, h, b):
    """identity of the loop: the members its exits look at"""
    s = set()
    for x in b:
        for k, n in enumerate(f.succs[x]):
            if n in b: continue
            fa = rk.edge_fact(f, x, k)
            if fa and fa[0] != 'notin':
                for e in (fa[1], fa[2]):
                    for y in rk.subexprs(e):
                        if y[0] == 'fld': s.add('%s.%s' % (y[2], y[3]) if y[3] != 'userResource' else '')
    return '+'.join(sorted(x for x in s if x))[:80] or 'none'


def flags_of(P, ents):
    """(struct, member) whose value ends the waiting loops of a thread"""
    s = set()
    for n in ents:
        for f in P.byname[n]:
            for h, b in f.loops().items():
                ex = [d for x in b for k, t in enumerate(f.succs[x]) if t not in b for d in disjuncts(f, rk.edge_fact(f, x, k))]
                # a loop that ends anyway needs no request
                if any(ends(P, f, d, b, set()) in ('counter', 'end of a list') for d in ex): continue
                for d in ex:
                            if not d or d[0] == 'notin': continue
                            bt = life.bittest(d)
                            if bt and not bt[2] and bt[1] & life.WANT: s.add(rk.lastfield(bt[0]))
                            else:
                                for e in d[1:3]:
                                    if e[0] == 'ld' and (rk.lastfield(e[1]) or ('', ''))[1] in (STOPMEMBERS | {'state'}): s.add(rk.lastfield(e[1]))
    return s - {None}


def requests(r, P):
    cre = defaultdict(list)
    for c in P.threads():
        lf = rk.lastfield(c[2])
        if lf: cre[lf] += c[3]
    ents = life.thread_entries(P)
    writes = defaultdict(set)
    for f in P.analysed():
        for i in f.insts:
            if i.op == 'store':
                lf = rk.lastfield(f.expr(i.x[1]))
                if lf: writes[f.name].add(lf)
    for f, j, addr, lf in life.joins(P):
        if not life.TEARDOWN.search(f.name) or f.name in ents or not lf or lf not in cre: continue
        fl = flags_of(P, cre[lf])
        if not fl: r.count('joins_of_threads_without_flag'); continue
        if not any(i.op == 'store' and rk.lastfield(f.expr(i.x[1])) in fl for i in f.insts) and not any(asks(P, i, fl, writes) and f.reaches(i, j) for i in f.calls()):
            # a helper: its callers make the request
            sites = [(g, i) for g in P.analysed() for i in g.calls(f.name) if g is not f]
            if sites:
                r.count('joins_in_helpers')
                for g, i in sites: request(r, P, g, i, lf, fl, writes, cre)
                continue
        request(r, P, f, j, lf, fl, writes, cre)


def request(r, P, f, j, lf, fl, writes, cre):
        # every path from the entry to the join stores to one of the flags
        stores = {i.bb: i for i in f.insts if i.op == 'store' and rk.lastfield(f.expr(i.x[1])) in fl and clears(f, i) and f.reaches(i, j)}
        for i in f.calls():
            if asks(P, i, fl, writes) and f.reaches(i, j): stores[i.bb] = i
        r.count('joins_with_request')
        if avoids(f, j, stores, fl):
            r.violation('%s:%s.%s:request' % (f.name, lf[0], lf[1]), '%s %s waits for the thread %s without having asked it to stop on every path (%s)' % (j.loc(), f.name, ', '.join(cre[lf]), ', '.join('%s.%s' % x for x in sorted(fl))))


def members(d):
    """the members an exit looks at"""
    t = life.bittest(d)
    if t: return {rk.lastfield(t[0])} - {None}
    return {rk.lastfield(e[1]) for e in d[1:3] if e[0] == 'ld'} - {None}


def obeyed(r, P):
    """whoever joins a thread makes a request that every waiting loop of the thread's routine looks at"""
    cre = defaultdict(list)
    for c in P.threads():
        lf = rk.lastfield(c[2])
        if lf: cre[lf] += c[3]
    writes = {}
    for f in P.analysed():
        writes[f.name] = {rk.lastfield(f.expr(i.x[1])) for i in f.insts if i.op == 'store'} - {None}
    for f, j, addr, lf in life.joins(P):
        if not lf or lf not in cre: continue
        made = {rk.lastfield(f.expr(i.x[1])) for i in f.insts if i.op == 'store' and f.reaches(i, j)} - {None}
        for i in f.calls():
            if i.callee and f.reaches(i, j):
                for n in P.reachable_from([i.callee]):
                    if n in writes: made |= writes[n]
        # what the callers have asked for before they came here
        for g in P.analysed():
            for i in g.calls(f.name):
                if g is f: continue
                made |= {rk.lastfield(g.expr(k.x[1])) for k in g.insts if k.op == 'store' and g.reaches(k, i)} - {None}
        for n in cre[lf]:
            for t in P.byname[n]:
                for h, b in wait_loops(t):
                    cut = set(); asked = set()
                    for x in b:
                        for k, s in enumerate(t.succs[x]):
                            if s in b: continue
                            for d in disjuncts(t, rk.edge_fact(t, x, k)):
                                w = ends(P, t, d, b, set())
                                if not w: continue
                                if w in ('state', 'stop request'):
                                    asked |= members(d)
                                    if not members(d) & made: continue
                                cut.add(x); break
                    if not asked: continue
                    r.count('loops_that_obey_their_joiner')
                    if cyclic(t, h, b, cut):
                        l = [i.line for x in b for i in t.blocks[x] if i.line]
                        r.violation('%s:%s:deaf:%s' % (t.name, f.name, '+'.join('%s.%s' % x for x in sorted(asked))), '%s:%d %s waits until %s says so, but %s, which waits for this thread at %s, does not set it' % (t.file, min(l), t.name, ', '.join('%s.%s' % x for x in sorted(asked)), f.name, j.loc()))


def asks(P, i, fl, writes):
    return i.callee and life.TEARDOWN.search(i.callee) and any(writes[n] & fl for n in P.reachable_from([i.callee]))


def clears(f, i):
    u = life.update(f, i)
    if u:
        if u[0] == 'and': return not u[2] & life.WANT
        return u[0] == 'xor' and bool(u[2] & life.WANT)
    e = f.expr(i.x[0])
    return e[0] == 'c' and (e[1] == 0 or rk.lastfield(f.expr(i.x[1]))[1] == 'state')


def avoids(f, j, stores, fl):
    seen = {0}; st = [0]
    while st:
        b = st.pop()
        if b in stores and (b != j.bb or stores[b].pos < j.pos): continue
        if b == j.bb: return True
        for k, n in enumerate(f.succs[b]):
            fa = rk.edge_fact(f, b, k)
            if fa and fa[0] != 'notin':
                t = life.bittest(fa)
                # the flag is already down on this way
                if t and not t[2] and t[1] & life.WANT and rk.lastfield(t[0]) in fl: continue
                if any(e[0] == 'ld' and rk.lastfield(e[1]) in fl for e in fa[1:3]) and not t and f.reaches(f.blocks[n][0], j): continue
            if n not in seen: seen.add(n); st.append(n)
    return False


def wakes(r, P):
    """threads that block in sem_wait are woken by whoever joins them"""
    cre = defaultdict(list)
    for c in P.threads():
        lf = rk.lastfield(c[2])
        if lf: cre[lf] += c[3]
    for f, j, addr, lf in life.joins(P):
        if not lf: continue
        sems = set()
        for n in cre.get(lf, []):
            for g in P.byname[n]:
                for i in g.calls('sem_wait'):
                    for v in g.phi_leaves(i.args[0]):
                        sems |= semmember(P, g, v)
        if not sems: continue
        r.count('joins_of_semaphore_waiters')
        posts = [i for i in f.calls('sem_post') if any(semmember(P, f, v) & sems or not semmember(P, f, v) for v in f.phi_leaves(i.args[0])) and f.reaches(i, j) and not in_main_loop(f, i, j)]
        if not posts:
            r.violation('%s:%s.%s:wake' % (f.name, lf[0], lf[1]), '%s %s waits for %s, which may be blocked in sem_wait, without posting its semaphore' % (j.loc(), f.name, ', '.join(cre[lf])))


def semmember(P, f, v):
    e = f.expr(v)
    if e[0] == 'ld':
        lf = rk.lastfield(e[1])
        if lf: return {lf}
        # an array of local semaphore pointers: what was stored in it and in members
        rt = rk.root(e[1])
        s = set()
        for i in f.insts:
            if i.op == 'store' and i.x:
                a = f.expr(i.x[1])
                if rk.lastfield(a) and f.expr(i.x[0])[0] == 'ld' and rk.root(f.expr(i.x[0])[1]) == rt: s.add(rk.lastfield(a))
        return s
    if e[0] == 'call' and e[1] == 'sem_open':
        return {rk.lastfield(f.expr(i.x[1])) for i in f.insts if i.op == 'store' and e in [f.expr(x) for x in f.phi_leaves(i.x[0])]} - {None}
    return set()


def in_main_loop(f, i, j):
    """the post is inside a loop that the join is not in, and that loop is ended by the stop request"""
    for h, b in f.loops().items():
        if i.bb in b and j.bb not in b:
            for x in b:
                for k, n in enumerate(f.succs[x]):
                    if n in b: continue
                    t = life.bittest(rk.edge_fact(f, x, k))
                    if t and t[1] & life.WANT and not t[2]: return True
    return False
