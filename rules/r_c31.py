"""C31: a transfer that was only partly done is continued where it stopped.

Every loop around a read or send that hands over "buffer + done, total - done": what was done is the sum of what the calls reported,
counted in bytes, for the pointer and for the length alike."""
import rk

TRANSFER = {'send': (1, 2), 'sendto': (1, 2), 'write': (1, 2), 'read': (1, 2), 'recv': (1, 2), 'recvfrom': (1, 2), 'SSL_read': (1, 2), 'SSL_write': (1, 2), 'pread': (1, 2), 'pwrite': (1, 2)}
CASTS = ('zext', 'sext', 'trunc', 'freeze', 'bitcast')


def strip(f, o):
    while isinstance(o, int) and f.insts[o].op in CASTS: o = f.insts[o].x[0]
    return o


def recurrence(f, o, call, wrappers):
    """the ways o is updated in the loop around call: 'start', 'sum', 'last' (only the last count), 'step' (a constant), 'same', 'other'"""
    out = set(); family = set(); work = [o]; todo = []

    def result(v, d=0):
        v = strip(f, v)
        if not isinstance(v, int) or d > 6: return False
        i = f.insts[v]
        if i.idx == call.idx or i.op == 'call' and i.callee in wrappers: return True
        if i.op == 'load':                       # through a variable that only takes this result inside the loop
            body = min(around(f, call.bb), key=len)
            st = [s for s in f.insts if s.op == 'store' and s.x[1] == i.x[0] and s.bb in body]
            return i.bb in body and bool(st) and all(result(s.x[0], d + 1) for s in st)
        if i.op == 'phi': return any(result(w, d + 1) for w, _ in i.x) and all(result(w, d + 1) or isinstance(w, list) for w, _ in i.x)
        if i.op == 'select': return result(i.x[1], d + 1) or result(i.x[2], d + 1)
        return False

    while work:
        v = strip(f, work.pop())
        if isinstance(v, list): todo.append(v); continue
        i = f.insts[v]
        if i.op == 'phi' and not result(v):
            if v in family: continue
            family.add(v); work += [w for w, _ in i.x]
        elif i.op == 'select' and not result(v): work += [i.x[1], i.x[2]]
        else: todo.append(v)
    for v in todo:
        if isinstance(v, list): out.add('start' if v[0] in 'ca' else 'other'); continue
        i = f.insts[v]
        if result(v): out.add('last'); continue
        if i.op in ('add', 'sub'):
            a, b = strip(f, i.x[0]), strip(f, i.x[1])
            if i.op == 'add' and b in family: a, b = b, a
            if a in family and result(b): out.add('sum' if i.op == 'add' else 'other'); continue
            if a in family and isinstance(b, list) and b[0] == 'c': out.add('step'); continue
            if a in family: out.add('other'); continue
        out.add('start' if not any(f.insts[p].bb in loop for p in family for loop in around(f, call.bb) if i.bb in loop) else 'other')
    return out, family


def around(f, bb):
    return [l for l in bodies(f) if bb in l]


def bodies(f):
    if not hasattr(f, '_bodies'):
        L = f.loops()
        f._bodies = [set(x) for x in (L.values() if isinstance(L, dict) else [l[1] if isinstance(l, tuple) else l for l in L])]
    return f._bodies


def check(r):
    P = rk.Program()
    for f in P.analysed():
        for i in f.calls(*TRANSFER):
            pa, la = TRANSFER[i.callee]
            if len(i.args) <= la or not around(f, i.bb): continue
            r.count('transfers_in_loops')
            p = strip(f, i.args[pa]); acc = None; stride = 1
            base = p
            while isinstance(base, int) and f.insts[base].op == 'getelementptr':
                for e in f.insts[base].x[1]:
                    if e[0] in 'ip':
                        x = strip(f, e[1])
                        if isinstance(x, int) and f.insts[x].op == 'phi' and any(f.insts[x].bb in l for l in around(f, i.bb)):
                            acc = x; stride = e[2]
                base = f.insts[base].x[0]
            n = strip(f, i.args[la]); rest = None
            if isinstance(n, int) and f.insts[n].op == 'sub':
                x = strip(f, f.insts[n].x[1])
                if isinstance(x, int) and f.insts[x].op == 'phi' and any(f.insts[x].bb in l for l in around(f, i.bb)): rest = x
            where = '%s %s: %s()' % (i.loc(), f.name, i.callee); key = '%s:%s' % (f.name, i.callee)
            if acc is None and rest is None: continue
            ra = recurrence(f, acc, i, ()) if acc is not None else None
            rr = recurrence(f, rest, i, ()) if rest is not None else None
            mine = [q for q in (ra, rr) if q and q[0] & {'sum', 'last', 'step'}]
            if not mine: r.count('not_a_continuation'); r.sample('%s not a continuation %s %s' % (where, ra and ra[0], rr and rr[0])); continue
            r.count('continued_transfers')
            bad = []
            for what, q in (('the place in the buffer', ra), ('the length still to go', rr)):
                if q and 'last' in q[0]: bad.append('%s follows from the last count alone, not from all that was transferred' % what)
                if q and 'step' in q[0] and 'sum' not in q[0] and i.args[la] != ['c', 1, 64]: bad.append('%s moves by a constant whatever was transferred' % what)
            if acc is not None and stride != 1: bad.append('the place in the buffer moves by %d bytes for each byte transferred' % stride)
            if ra and 'sum' in ra[0]:
                h = survives(f, acc, base, ra[1], i)
                if h is not None: bad.append('the position is not set back to the start for the next buffer')
                q = foreign(f, ra[1], i, base)
                if q is not None: bad.append('the position starts at what %s() at line %s put into another buffer' % (q.callee, q.line))
            if acc is None and rr and 'sum' in rr[0] and not moved(f, p, i): bad.append('the next part goes to the start of the buffer again')
            if rest is None and ra and 'sum' in ra[0] and isinstance(n, list): bad.append('the whole length is asked for again')
            for b in bad: r.violation(key + ':' + b.split(' ')[1], '%s: %s' % (where, b))
            if not bad: r.sample('%s continues at the sum of the counts' % where)
    r.need('transfers_in_loops', 8); r.need('continued_transfers', 4)
    r.explanation = ('Every read, write, send and receive call inside a loop whose buffer position or remaining length is carried from one turn to the next: the recurrence of both in the intermediate representation is "previous value + what this call reported", '
                     'the position counts single bytes, and position and remaining length move together.')
    r.assumptions = ['the count a call reported is only added when it is positive (a failed call leaves the loop or is retried)']


def survives(f, acc, base, family, call):
    """an outer loop takes a new buffer on each turn while the position goes on"""
    L = f.loops()
    for h, body in (L.items() if isinstance(L, dict) else []):
        if call.bb not in body: continue
        if not any(f.insts[p].bb == h for p in family): continue
        b = strip(f, base)
        if isinstance(b, int) and f.insts[b].op == 'phi' and f.insts[b].bb == h and b not in family:
            leaves = {v if isinstance(v, int) else str(v) for v in f.phi_leaves(b)}
            if len(leaves) > 1: return h
    return None


def foreign(f, family, call, base):
    """the position of this transfer starts at the count of a transfer into another buffer"""
    root = f.expr(base) if isinstance(base, (int, list)) else None
    for p in family:
        for v, b in f.insts[p].x:
            v = strip(f, v)
            if not isinstance(v, int): continue
            i = f.insts[v]
            if i.op not in ('add',): continue
            for o in (i.x[0], i.x[1]):
                for w in (f.phi_leaves(o) if isinstance(o, int) else []):
                    w = strip(f, w)
                    if isinstance(w, int) and f.insts[w].op == 'call' and f.insts[w].callee in TRANSFER and w != call.idx:
                        c = f.insts[w]; q = strip(f, c.args[TRANSFER[c.callee][0]])
                        while isinstance(q, int) and f.insts[q].op == 'getelementptr' and any(e[0] in 'ip' for e in f.insts[q].x[1]): q = f.insts[q].x[0]
                        if rk.root(f.expr(q)) != rk.root(root) or rk.lastfield(f.expr(q)) != rk.lastfield(root): return c
    return None


def moved(f, p, i):
    """the pointer itself is carried through the loop"""
    return isinstance(p, int) and (f.insts[p].op == 'phi' or f.insts[p].op == 'getelementptr' and isinstance(f.insts[p].x[0], int) and f.insts[f.insts[p].x[0]].op == 'phi' and any(f.insts[f.insts[p].x[0]].bb in l for l in around(f, i.bb)))
