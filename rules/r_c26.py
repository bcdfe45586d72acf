"""C26: a routine that answers commands has set the answer before it returns, the answer agrees with the result, and it is sent once."""
import rk, life

PRINTS = {'sprintf': 1, 'snprintf': 2, 'vsprintf': 1, 'vsnprintf': 2}
COPIES = {'strcpy', 'strncpy', 'memcpy', 'memmove', 'strlcpy'}
SENDS = {'RKOperatorSendCommandResponse': 1}
PACKETS = 'RKOperatorSendPackets'
BUFFERS = {('RKUser', 'commandResponse')}
RESULTLESS = {'RKExecuteCommand'}       # reports whether the command was taken up, not what came of it


def check(r):
    P = rk.Program()
    A = answerers(P)
    F = {k: v for k, v in fillers(P).items() if k not in A}
    r.count('routines_that_answer', len(A))
    kept = set()
    for name, (n, always) in A.items():
        f = P.byname[name][0] if name in P.byname else None
        if f is None: continue
        r.sample('answers: %s (argument %d%s)' % (name, n, '' if always else ', when refused'))
        answered(r, P, f, n, always, A, F)
        fetched(r, f, n, kept)
    for f in P.analysed():
        sent(r, f, A, F)
        for lf, pos in kept: queued(r, f, lf, pos)
    r.need('routines_that_answer', 5); r.need('returns_reached', 30); r.need('answers_sent', 8); r.need('answers_fetched', 3); r.need('answers_queued', 3)
    r.explanation = 'every path of every routine with an answer argument is explored over (answer set, kind of answer, results of the routines it asked); the handler of the command center over (nothing, composed, sent); answers fetched from a device must come from the slot that was free when the command was sent, after it has been filled'
    r.assumptions = ['the routines of user hardware set their answer', 'an answer argument of NULL asks for no answer']


def text(f, i):
    """the constant beginning of what a print writes"""
    k = PRINTS.get(i.callee, 1 if i.callee in COPIES else None)
    if k is None or len(i.args) <= k: return None
    e = f.expr(i.args[k])
    if e[0] != 's': return None
    t = e[1]
    if t == '%s' or t.startswith('%s'):
        a = f.expr(i.args[k + 1]) if len(i.args) > k + 1 else None
        if a and a[0] == 's': t = a[1]
    return t


def leads(f, o):
    """arguments a pointer may be (through choices and offsets), and whether it is the beginning of the buffer"""
    out = set(); start = True
    seen = set(); st = [o]
    while st:
        v = st.pop()
        if isinstance(v, int):
            if v in seen: continue
            seen.add(v)
            i = f.insts[v]
            if i.op == 'phi': st += [x[0] for x in i.x]; continue
            if i.op == 'select': st += i.x[1:3]; continue
            if i.op in rk.CASTS: st.append(i.x[0]); continue
            if i.op == 'getelementptr' and all(p[0] in 'ip' for p in i.x[1]):
                if any(f.const(p[1]) != 0 for p in i.x[1]): start = False
                st.append(i.x[0]); continue
            continue
        if v[0] == 'a': out.add(v[1])
    return out, start


def answerers(P):
    """{function: (argument, always)} of those that write ACK / NAK to an argument"""
    A = {}
    for f in P.analysed():
        kinds = {}
        for i in f.insts:
            if i.op != 'call' or i.callee not in PRINTS and i.callee not in COPIES: continue
            t = text(f, i)
            if not t or t[:3] not in ('ACK', 'NAK'): continue
            for n in leads(f, i.args[0])[0]: kinds.setdefault(n, set()).add(t[:3])
        for n, k in kinds.items(): A[f.name] = (n, 'ACK' in k or any(i.op == 'call' and i.callee in COPIES and n in leads(f, i.args[0])[0] for i in f.insts))
    return A


def fillers(P):
    """{function: arguments it prints or copies to} for helpers that only do that on every path"""
    F = {}
    for f in P.analysed():
        if len(f.blocks) > 12: continue
        ns = set()
        for i in f.insts:
            if i.op == 'call' and (i.callee in PRINTS or i.callee in COPIES):
                for n in leads(f, i.args[0])[0]:
                    if all(f.dominates(i, j) for j in f.insts if j.op == 'ret'): ns.add(n)
        if ns: F[f.name] = ns
    return F


class Values:
    """what is known of a value on a path: results of the routines asked, and choices made by earlier branches"""

    def __init__(self, f, given=None): self.f = f; self.given = given or {}

    def of(self, o, known):
        f = self.f
        for _ in range(10):
            c = f.const(o)
            if c is not None: return c
            if not isinstance(o, int): return None
            k = dict(known)
            if o in k: return k[o]
            i = f.insts[o]
            if i.op in rk.CASTS or i.op == 'freeze': o = i.x[0]; continue
            if i.op == 'add':
                a, b = self.of(i.x[0], known), self.of(i.x[1], known)
                if isinstance(a, int) and isinstance(b, int) and -1 <= a + b <= 1: return a + b
                return 'pos' if all(x == 'pos' or isinstance(x, int) and x > 0 for x in (a, b)) else None
            if i.op == 'icmp':
                a, b = self.of(i.x[1], known), self.of(i.x[2], known)
                if a is None or b is None: return None
                if i.x[0] not in ('eq', 'ne'):
                    if 'nz' in (a, b): return None
                    c = i.x[0][1:]
                    if 'pos' in (a, b):
                        # at least one
                        if b == 'pos' and isinstance(a, int) and a <= 0 and (i.x[0][0] == 's' or a == 0): return int(c in ('lt', 'le'))
                        if a == 'pos' and isinstance(b, int) and b <= 0 and (i.x[0][0] == 's' or b == 0): return int(c in ('gt', 'ge'))
                        return None
                    if a < 0 or b < 0: return None
                    return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[c])
                if not isinstance(a, int) or not isinstance(b, int):
                    if 0 not in (a, b): return None
                    return int(i.x[0] == 'ne')
                return int((a == b) == (i.x[0] == 'eq'))
            if i.op == 'xor' and f.const(i.x[1]) in (1, -1):
                a = self.of(i.x[0], known)
                return None if a not in (0, 1) else 1 - a
            return None
        return None

    def edge(self, bb, pos, known):
        """None: not taken; else what is known in the next block"""
        f = self.f
        t = f.blocks[bb][-1]
        if t.op == 'br' and len(t.x) == 3:
            v = self.of(t.x[0], known)
            if isinstance(v, int) and (v & 1 == 1) != (pos == 0): return None
        if t.op == 'switch':
            v = self.of(t.x[0], known)
            cases = [c[0] for c in t.x[2:]]
            if isinstance(v, int):
                if pos < len(cases) and cases[pos] != v: return None
                if pos >= len(cases) and v in cases: return None
        n = f.succs[bb][pos]
        k = dict(known)
        new = {}
        for i in f.blocks[n]:
            if i.op != 'phi': break
            for o, p in i.x:
                if p == bb:
                    v = self.of(o, known)
                    new[i.idx] = v
        for a, v in new.items():
            if v is None or isinstance(v, int) and abs(v) > 64: k.pop(a, None)
            else: k[a] = v
        return tuple(sorted(k.items(), key=str))


def answered(r, P, f, n, always, A, F):
    V = Values(f)
    bad = {}

    def tr(i, s):
        got, kind, known = s
        if i.op == 'call':
            if i.callee in PRINTS or i.callee in COPIES:
                a, start = leads(f, i.args[0])
                if n in a:
                    if not start: return [(got, kind, known)]
                    t = text(f, i)
                    return [(True, t[:3] if t and t[:3] in ('ACK', 'NAK') else 'any', known)]
                return None
            k = A.get(i.callee)
            if k is not None and len(i.args) > k[0] and n in leads(f, i.args[k[0]])[0]:
                d = dict(known)
                if k[1]: return [(True, 'any', known)]
                d[i.idx] = 0; ok = tuple(sorted(d.items(), key=str))
                d[i.idx] = 'nz'; no = tuple(sorted(d.items(), key=str))
                return [(got, kind, ok), (True, 'NAK', no)]
            if any(len(i.args) > m and n in leads(f, i.args[m])[0] for m in F.get(i.callee, ())): return [(True, 'any', known)]
            if i.callee is None and any(n in leads(f, a)[0] for a in i.args if not f.const(a)): return [(True, 'any', known)]
            return None
        if i.op == 'ret':
            r.count('returns_reached')
            v = V.of(i.x[0], known) if i.x else None
            if not got and (always or v not in (0, None)):
                bad.setdefault('none', i)
            if got and f.name not in RESULTLESS and v is not None:
                if kind == 'NAK' and v == 0: bad.setdefault('refused', i)
                if kind == 'ACK' and v != 0: bad.setdefault('accepted', i)
        return None

    def ed(f, bb, pos, s):
        k, at = rk.atoms(f, bb, pos)
        if k == 'all':
            for a in at:
                if a and a[0] == 'eq' and a[1][0] == 'arg' and a[2] in (('n',), ('c', 0)) and (a[1][1] == n or a[1][1] == 0) and f.argty[a[1][1]] == 'p': return None
        k = V.edge(bb, pos, s[2])
        return None if k is None else (s[0], s[1], k)
    ex = rk.Explorer(f, tr, ed, 200000)
    exits = ex.run((False, '', ()))
    for what, i in bad.items():
        t = {'none': 'returns without having set the answer', 'refused': 'returns success after an answer that refuses the command', 'accepted': 'returns a failure after an answer that accepts the command'}[what]
        p = []
        if what == 'none':
            for t_, s, key in exits:
                if not s[0]: p = ex.path(key); break
        r.violation('%s:%s' % (f.name, what), '%s %s %s%s' % (i.loc(), f.name, t, ' (lines %s)' % ' '.join(map(str, p[-12:])) if p else ''))


def fetched(r, f, n, kept):
    """strcpy(answer, slots[k]): k is the slot that was free when the command was sent, and the position has moved since"""
    for i in f.insts:
        if i.op != 'call' or i.callee not in COPIES or n not in leads(f, i.args[0])[0]: continue
        e = f.expr(i.args[1])
        if e[0] != 'idx' and not (e[0] == 'idx' or any(x[0] == 'idx' for x in rk.subexprs(e))): continue
        r.count('answers_fetched')
        x = e if e[0] == 'idx' else next(x for x in rk.subexprs(e) if x[0] == 'idx')
        k = x[2]
        ld = slot(f, i.args[1])
        sends = [j for j in f.insts if j.op == 'call' and j.callee == 'RKNetworkSendPackets' and f.reaches(j, i)]
        w = None
        if ld is None or not sends: w = 'not a position kept from before the command'
        elif not all(f.dominates(ld, j) for j in sends): w = 'a position read after the command was sent'
        else:
            lf = rk.lastfield(f.expr(ld.x[0]))
            if rk.lastfield(x[1]): kept.add((rk.lastfield(x[1]), lf))
            def other(o): return isinstance(f.val(o), rk.Inst) and f.val(o).op == 'load' and f.val(o) is not ld and rk.lastfield(f.expr(f.val(o).x[0])) == lf
            if not any(fa[0] == 'ne' and (f.val(fa[3]) is ld and other(fa[4]) or f.val(fa[4]) is ld and other(fa[3])) for fa in rk.facts_at(f, i) if len(fa) > 4 and fa[4] is not None): w = 'a slot that may not have been filled yet'
        if w: r.violation('%s:fetched' % f.name, '%s %s takes the answer from %s' % (i.loc(), f.name, w))


def queued(r, f, lf, pos):
    """an answer received is stored before the position says so"""
    fills = [i for i in f.insts if i.op == 'call' and i.callee in COPIES | set(PRINTS) and any(x[0] == 'idx' and rk.lastfield(x[1]) == lf and rk.lastfield(x[1]) for x in rk.subexprs(f.expr(i.args[0])))]
    moves = [i for i in f.insts if i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == pos and f.expr(i.x[0])[0] != 'c']
    if not moves: return
    r.count('answers_queued', len(moves))
    for m in moves:
        if not any(f.dominates(i, m) for i in fills): r.violation('%s:queued' % f.name, '%s %s: the position of the answers moves on before the answer is stored' % (m.loc(), f.name))
        elif any(f.dominates(m, i) for i in fills): r.violation('%s:queued' % f.name, '%s %s: an answer is stored after the position has moved on' % (m.loc(), f.name))


def slot(f, o):
    """the load of the position an element pointer uses"""
    for _ in range(8):
        i = f.val(o)
        if not isinstance(i, rk.Inst) or i.op != 'getelementptr': return None
        for p in i.x[1]:
            if p[0] in 'ip' and f.const(p[1]) is None:
                j = f.val(p[1])
                while isinstance(j, rk.Inst) and j.op in rk.CASTS: j = f.val(j.x[0])
                return j if isinstance(j, rk.Inst) and j.op == 'load' else None
        o = i.x[0]
    return None


def buffer(f, o):
    """the answer buffer a pointer is the beginning of"""
    e = f.expr(o)
    while e[0] == 'idx' and e[2] == ('c', 0): e = e[1]
    return (e[2], e[3]) if e[0] == 'fld' and (e[2], e[3]) in BUFFERS else None


def sent(r, f, A, F):
    sends = [i for i in f.insts if i.op == 'call' and (i.callee in SENDS and buffer(f, i.args[1]) or i.callee == PACKETS and any(buffer(f, a) for a in i.args[1:]))]
    if not sends: return
    r.count('answers_sent', len(sends))
    L = f.loops()
    outer = None
    for h, b in L.items():
        if sends[0].bb in b and (outer is None or len(b) > len(L[outer])): outer = h
    bad = {}

    def composes(i):
        if i.op != 'call': return False
        if i.callee in PRINTS or i.callee in COPIES: return bool(buffer(f, i.args[0]))
        if any(len(i.args) > m and buffer(f, i.args[m]) for m in F.get(i.callee, ())): return True
        k = A.get(i.callee)
        return k is not None and len(i.args) > k[0] and bool(buffer(f, i.args[k[0]]))

    def tr(i, s):
        if outer is not None and i.bb not in L[outer]: return None
        if composes(i):
            if s == 'composed': bad.setdefault('overwritten', i)
            if s == 'sent': bad.setdefault('twice', i)
            return ['composed']
        if i in sends:
            if s == 'none': bad.setdefault('stale', i)
            if s == 'sent': bad.setdefault('twice', i)
            return ['sent']
        if i.op == 'ret' and s == 'composed': bad.setdefault('unsent', i)
        return None

    def ed(f, bb, pos, s):
        n = f.succs[bb][pos]
        if outer is not None and (n == outer or n not in L[outer]):
            if s == 'composed' and bb in L[outer]: bad.setdefault('unsent', f.blocks[bb][-1])
            return 'none'
        return s
    rk.Explorer(f, tr, ed).run('none')
    for what, i in bad.items():
        t = {'overwritten': 'another answer is composed before the last one has been sent', 'twice': 'a second answer is given to the same command', 'stale': 'an answer is sent that was not composed for this command', 'unsent': 'an answer is composed but not sent'}[what]
        r.violation('%s:%s' % (f.name, what), '%s %s: %s' % (i.loc(), f.name, t))
