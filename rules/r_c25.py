"""C25: a routine with a variable argument list receives what it reads.

The routines that walk a va_list are followed with the list of a call: at every va_arg the next argument must exist and be of the class (4-byte, 8-byte,
pointer, double) that is read; a branch on a key, a type or a terminator that the call passes as a constant is taken the way that constant says."""
import rk, bounds
from extent import extent

CLASS = {'i32': 'a 4-byte integer', 'i64': 'an 8-byte integer', 'p': 'a pointer', 'd': 'a double'}
PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b,
        'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'freeze')


class Reader:
    """a function that walks an argument list: which loads are va_arg, and what they decide"""

    def __init__(self, P, f):
        self.f = f
        self.reads = {}
        for i in f.insts:
            if i.op != 'load' or not isinstance(i.x[0], int): continue
            a = f.insts[i.x[0]]
            if a.op == 'phi' and any(self.area(v, 'reg_save_area') for v, _ in a.x) and any(self.area(v, 'overflow_arg_area') for v, _ in a.x): self.reads[i.idx] = i.ty
        ch = True; self.values = set(self.reads)
        while ch:
            ch = False
            for i in f.insts:
                if i.idx in self.values: continue
                ops = [v for v, _ in i.x] if i.op == 'phi' else [i.x[0]] if i.op in CASTS else []
                if any(isinstance(o, int) and o in self.values for o in ops): self.values.add(i.idx); ch = True
        self.lists = set()
        for i in f.calls('llvm.va_start'): self.lists.add(self.root(i.args[0]))
        if not self.lists:
            for i in f.insts:
                if i.op == 'getelementptr' and any(e[0] == 'f' and e[1] == '__va_list_tag' for e in i.x[1]):
                    self.lists.add(self.root(i.x[0]))

    def root(self, o):
        while isinstance(o, int) and self.f.insts[o].op in ('getelementptr', 'bitcast'): o = self.f.insts[o].x[0]
        return tuple(o) if isinstance(o, list) else o

    def area(self, o, name):
        for _ in range(6):
            if not isinstance(o, int): return False
            i = self.f.insts[o]
            if i.op == 'load':
                o2 = i.x[0]
                return isinstance(o2, int) and self.f.insts[o2].op == 'getelementptr' and any(e[0] == 'f' and e[1] == '__va_list_tag' and e[3] == name for e in self.f.insts[o2].x[1])
            if i.op in ('getelementptr', 'bitcast'): o = i.x[0]
            else: return False
        return False


class Walk:
    def __init__(self, P):
        self.P = P; self.readers = {}; self.memo = {}

    def reader(self, name):
        if name not in self.readers:
            f = self.P.f(name, False)
            r = Reader(self.P, f) if f and f.insts else None
            self.readers[name] = r if r and r.lists else None
        return self.readers[name]

    def value(self, f, o, env, params):
        """the constant o stands for: an integer, 'nonnull' or None"""
        if isinstance(o, list):
            if o[0] == 'c': return o[1]
            if o[0] == 'n': return 0
            if o[0] == 'a': return params.get(o[1])
            if o[0] in ('g', 'F', 's'): return 'nonnull'
            return None
        if o in env: return env[o]
        i = f.insts[o]
        if i.op in CASTS: return self.value(f, i.x[0], env, params)
        if i.op in ('alloca',): return 'nonnull'
        if i.op == 'icmp':
            a = self.value(f, i.x[1], env, params); b = self.value(f, i.x[2], env, params)
            if a == 'nonnull' and b == 0 or b == 'nonnull' and a == 0: return {'eq': 0, 'ne': 1}.get(i.x[0])
            if isinstance(a, int) and isinstance(b, int): return int(PRED[i.x[0]](a, b))
        return None

    def depends(self, R, o, depth=0):
        """the integer the walk would have to know to decide o comes from the list or the parameters"""
        f = R.f
        if isinstance(o, list): return o[0] == 'a' and not f.argty[o[1]].startswith('p')
        i = f.insts[o]
        if o in R.values: return i.ty != 'p'
        if depth > 8: return False
        if i.op in CASTS: return self.depends(R, i.x[0], depth + 1)
        if i.op == 'load' and i.ty == 'i8': return any(x[0] == 'arg' for x in rk.subexprs(f.expr(o)))       # e.g. the text of a format
        if i.op == 'icmp': return self.depends(R, i.x[1], depth + 1) or self.depends(R, i.x[2], depth + 1)
        return False

    def run(self, name, params, given, start, depth=0):
        """(problems, ends): problems are (sure, text, position); ends the positions the list can be left at"""
        key = (name, tuple(sorted(params.items())), tuple(given), start)
        if key in self.memo: return self.memo[key]
        R = self.reader(name); f = R.f
        problems = set(); ends = set()

        def transfer(i, s):
            p, env, sure = s
            if i.idx in R.reads:
                want = R.reads[i.idx]
                if p >= len(given):
                    problems.add((sure, 'reads %s past the last argument' % CLASS.get(want, want), p, i.loc())); return []
                have, v = given[p]
                if have != want:
                    problems.add((sure, 'reads %s where %s is passed' % (CLASS.get(want, want), CLASS.get(have, have)), p, i.loc())); return []
                e = dict(env); e[i.idx] = v
                return [(p + 1, frozenset(e.items()), sure)]
            if i.op == 'call' and i.callee and not i.callee.startswith('llvm.') and any(R.root(a) in R.lists for a in i.args if not isinstance(a, list) or a[0] == 'a'):
                g = self.reader(i.callee)
                if g is None or depth > 2: return []          # handed to a routine we do not follow: nothing more is known
                pr = {}
                for n, a in enumerate(i.args):
                    v = self.value(f, a, dict(env), params)
                    if v is not None: pr[n] = v
                sub, es = self.run(i.callee, pr, given, p, depth + 1)
                for q in sub: problems.add((sure and q[0],) + q[1:])
                return [(e, env, sure) for e in es]
            if i.op == 'ret': ends.add(p)
            return None

        reading = {i.bb for i in f.insts if i.idx in R.reads or i.op == 'call' and i.callee and not i.callee.startswith('llvm.') and any(R.root(a) in R.lists for a in i.args if not isinstance(a, list) or a[0] == 'a')}
        reach = f.reach()

        def choice(bb):
            # both ways on from here read the list
            return sum(1 for n in set(f.succs[bb]) if n in reading or reading & set(reach[n])) > 1

        def edge(f, bb, k, s):
            p, env, sure = s
            t = f.blocks[bb][-1]; n = f.succs[bb][k]
            d = dict(env)
            if t.op == 'br' and len(f.succs[bb]) == 2:
                v = self.value(f, t.x[0], d, params)
                if isinstance(v, int):
                    if bool(v) != (k == 0): return None
                elif self.depends(R, t.x[0]) and choice(bb): sure = False
            elif t.op == 'switch':
                v = self.value(f, t.x[0], d, params)
                if isinstance(v, int):
                    tgt = next((b for c, b in t.x[2:] if c == v), t.x[1])
                    if n != tgt: return None
                elif self.depends(R, t.x[0]) and choice(bb): sure = False
            new = {}
            for i in f.blocks[n]:
                if i.op != 'phi': break
                if i.idx not in R.values: continue
                for v, b in i.x:
                    if b == bb:
                        w = self.value(f, v, d, params)
                        if w is not None: new[i.idx] = w
            for i in f.blocks[n]:
                if i.op != 'phi': break
                d.pop(i.idx, None)
            d.update(new)
            return (p, frozenset((a, b) for a, b in d.items() if b is not None), sure)

        # phi nodes of the first block never matter
        ex = rk.Explorer(f, transfer, edge, limit=200000)
        ex.run((start, frozenset(), True))
        self.memo[key] = (problems, ends)
        return self.memo[key]


def operands(P, f, i, first):
    """[(class, constant or None)] of the variable arguments"""
    out = []
    for a in i.args[first:]:
        if isinstance(a, list):
            if a[0] == 'c': out.append(('i%d' % a[2], a[1]))
            elif a[0] == 'd': out.append(('d', None))
            elif a[0] == 'n': out.append(('p', 0))
            elif a[0] == 'a': out.append((f.argty[a[1]], None))
            else: out.append(('p', 'nonnull'))
        else:
            t = f.insts[a].ty
            nn = None
            b = f.insts[a]
            while b.op in ('getelementptr', 'bitcast') and isinstance(b.x[0], int): b = f.insts[b.x[0]]
            if t == 'p' and b.op == 'alloca': nn = 'nonnull'
            out.append((t, nn))
    return out


PACKETS = ('RKNetworkSendPackets', 'RKOperatorSendPackets')


def packets(r, P, f, i, first, B):
    """the size of each packet is not larger than what it points to"""
    a = i.args[first:]
    for n in range(0, len(a) - 1, 2):
        size = f.const(a[n + 1])
        e = extent(P, f, a[n])
        if e is None: continue
        if size is None:
            # a size computed at run time: what it can be at most
            size = B.upper(f, a[n + 1], i)
            r.count('packet_sizes_computed')
            if size is None or size >= bounds.INF: r.count('packet_sizes_open'); r.sample('open: %s %s: %s of %s' % (i.loc(), f.name, rk.show(f.expr(a[n + 1]), f), e.what)); continue
        r.count('packet_sizes')
        left = e.left if e.sym is None else e.size
        if size > left: r.violation('%s:%s:packet%d' % (f.name, i.callee, n // 2), '%s %s: %s is told to send %d bytes of %s, which holds %d' % (i.loc(), f.name, i.callee, size, e.what, left))


def check(r):
    P = rk.Program()
    W = Walk(P); B = bounds.Bounds(P)
    for f in P.analysed():
        if f.va and W.reader(f.name): r.count('variadic_routines')
    callers = {}
    for f in P.analysed():
        for i in f.calls():
            if i.callee: callers.setdefault(i.callee, []).append((f, i))
    for f in P.analysed():
        for i in f.calls():
            g = P.f(i.callee, False) if i.callee else None
            if not g or not g.va or not g.insts: continue
            R = W.reader(i.callee)
            if not R: continue
            first = len(g.argty)
            given = operands(P, f, i, first)
            params = {}; open_ = {}
            for n, a in enumerate(i.args[:first]):
                v = W.value(f, a, {}, {})
                if v is None and g.argty[n] == 'p': v = 'nonnull'            # an object handed over is there
                if v is not None: params[n] = v
                elif isinstance(a, list) and a[0] == 'a': open_[n] = a[1]
            contexts = [({}, '')]
            for g2, j in callers.get(f.rawname, ()) if open_ else ():
                d = {n: W.value(g2, j.args[k], {}, {}) for n, k in open_.items() if k < len(j.args)}
                contexts.append(({n: v for n, v in d.items() if isinstance(v, int)}, ' for the call at ' + j.loc()))
            r.count('calls_followed'); r.count('arguments', len(given))
            seen = set(); unsure = False
            for extra, where in contexts:
                problems, ends = W.run(i.callee, {**params, **extra}, given, 0)
                for sure, text, p, loc in sorted(problems, key=str):
                    if not sure: unsure = True; continue
                    if p in seen: continue
                    seen.add(p)
                    r.violation('%s:%s:%d' % (f.name, i.callee, p), '%s %s: %s (%s) %s%s; argument %d of the variable part' % (i.loc(), f.name, i.callee, loc, text, where, p + 1))
            if unsure and not seen: r.count('not_decided')
            if i.callee in PACKETS: packets(r, P, f, i, first, B)
            r.sample('%s %s -> %s: %d arguments' % (i.loc(), f.name, i.callee, len(given)))
    r.need('variadic_routines', 5); r.need('calls_followed', 60); r.need('packet_sizes', 10)
    r.explanation = ('Each routine with a variable argument list that reads it itself (configuration keys, packets, quoted strings, windows, logs) is followed through its control flow with the list of every call: each va_arg found in the intermediate '
                     'representation must meet an argument of its class (pointer, double, 4 or 8 byte integer), and must not go past the last one; branches on keys, types and terminators are decided by the constants passed. Constant packet sizes are compared with the object sent.')
    r.assumptions = ['text for formats is judged by C01', 'an object handed to a variadic routine is not NULL unless it is the literal NULL']
