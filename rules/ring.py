"""Whether a position lies inside a ring: linear reasoning over the comparisons on the way, the wrapped steps and the positions kept in members."""
import rk

# name of the ring -> (member holding its depth or a number, members that hold the slots, members that hold positions)
RINGS = {
    'pulse': ('pulseBufferDepth', {'pulseBuffer', 'pulses', 'filterGid', 'planIndices'}, {(None, 'pulseIndex'), ('RKPulseEngine', 'doneIndex'), ('RKPulseEngine', 'oldIndex'), ('RKModuloPath', 'origin')}),
    'ray': ('rayBufferDepth', {'rayBuffer', 'rays', 'momentSource'}, {(None, 'rayIndex'), ('RKMomentEngine', 'doneIndex'), ('RKMomentEngine', 'oldIndex')}),
    'position': ('positionBufferDepth', {'positionBuffer', 'positions'}, {(None, 'positionIndex')}),
    'health': ('healthBufferDepth', {'healthBuffer', 'healths'}, {(None, 'healthIndex'), ('RKNodalHealth', 'index')}),
    'config': ('configBufferDepth', {'configBuffer', 'configs'}, {(None, 'configIndex')}),
    'status': ('statusBufferDepth', {('RKRadar', 'status'), ('RKRadarRelay', 'statusBuffer')}, {(None, 'statusIndex')}),
    'clock': (('RKClock', 'size'), {('RKClock', x + 'Buffer') for x in 'txuyz'}, {('RKClock', 'index')}),
    'queue': (('RKCommandQueue', 'depth'), {('RKCommandQueue', 'buffer')}, {('RKCommandQueue', 'head'), ('RKCommandQueue', 'tail')}),
    'files': (('RKFileRemover', 'capacity'), {('RKFileRemover', 'indexedStats')}, {('RKFileRemover', 'index'), ('RKFileRemover', 'count')}),
    'lines': (['statusBuffer', 'pulseStatusBuffer', 'rayStatusBuffer', 'positionStringBuffer'], set(), {(None, 'statusBufferIndex'), (None, 'pulseStatusBufferIndex'), (None, 'rayStatusBufferIndex'), ('RKUser', 'rayStatusIndex'), ('RKUser', 'steerStatusIndex')}),
    'scratch': (['scratchSpaces'], set(), {('RKSweepEngine', 'scratchSpaceIndex'), ('RKUser', 'scratchSpaceIndex')}),
    'action': (['actions'], set(), {('RKSteerEngine', 'actionIndex')}),
}
for _e in ('Pulse', 'Moment', 'PulseRingFilter'):
    RINGS['workers of RK%sEngine' % _e] = (('RK%sEngine' % _e, 'coreCount'), {('RK%sEngine' % _e, 'workers')}, set())
RINGS['filters'] = (('RKPulseEngine', 'filterGroupCount'), set(), {('RKUser', 'transmitWaveIndex')})
RINGS['file workers'] = (('RKFileManager', 'workerCount'), {('RKFileManager', 'workers')}, set())
WORKERS = {('RKPulseWorker', 'id'), ('RKMomentWorker', 'id'), ('RKPulseRingFilterWorker', 'id')}
GETTERS = {'RKGetPulseFromBuffer': (0, 1), 'RKGetRayFromBuffer': (0, 1)}
# functions that are handed a ring: (slots, address of the position, depth)
GIVEN = {'RKConfigAdvance': (0, 1, 2), 'RKConfigAdvanceEllipsis': (0, 1, 2), 'RKGetVacantPulseFromBuffer': (0, 1, 2), 'RKGetVacantRayFromBuffer': (0, 1, 2)}
RINGS['given'] = ('given', set(), set())
# positions of another kind that happen to carry the same name
NOT = {('RKRayHeader', 'positionIndex'), ('RKRayHeaderV1', 'positionIndex'), ('RKPulseHeader', 'positionIndex'), ('RKStatus', 'pulseMonitorLag')}


def tables(f, i):
    """(member, index operand, elements) of the steps a getelementptr makes into arrays that are members"""
    prev = None
    e = f.expr(i.x[0])
    if e[0] == 'fld': prev = rk.lastfield(e)
    for p in i.x[1]:
        if p[0] == 'f': prev = (p[1], p[3])
        else:
            if p[0] == 'i' and prev and p[3]: yield prev, p[1], p[3]
            prev = None


def settle(P):
    """rings that are arrays: as deep as the smallest of them"""
    n = {}
    for f in P.analysed():
        for i in f.insts:
            if i.op != 'getelementptr': continue
            for m, x, c in tables(f, i): n.setdefault(m[1], set()).add(c)
    for k, (d, b, x) in RINGS.items():
        if isinstance(d, list): RINGS[k] = (min((min(n[m]) for m in d if m in n), default=1), set(d), x)


def matches(lf, names):
    return lf and lf not in NOT and (lf in names or (None, lf[1]) in names or lf[1] in names)


def target(a):
    """member a position is kept in, directly or behind a pointer of that name"""
    if a[0] == 'fld': return rk.lastfield(a)
    if a[0] == 'ld' and a[1][0] == 'fld': return rk.lastfield(a[1])
    return None


def ringof(a):
    lf = target(a)
    for n, (d, b, x) in RINGS.items():
        if matches(lf, x): return n
    return None


def slots(e):
    """ring whose slots a base pointer leads to"""
    if e[0] != 'ld': return None
    lf = rk.lastfield(e[1])
    for n, (d, b, x) in RINGS.items():
        if lf and (lf in b or lf[1] in b and lf[0] != 'RKRadarRelay.x'): return n
    return None


def depthof(e):
    if e[0] != 'ld': return None
    lf = rk.lastfield(e[1])
    if not lf: return None
    for n, (d, b, x) in RINGS.items():
        if isinstance(d, str) and lf == ('RKRadarDesc', d) or d == lf: return n
    return None


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r


ONE = 1     # the constant term is kept under the key 1


def block(e):
    while e[0] == 'idx': e = e[1]
    return e if e[0] == 'call' and e[1] in ('malloc', 'calloc') else None


class Ring:
    def __init__(self, f, n, P=None, depth=0):
        self.f = f; self.n = n; self.busy = {}; self.P = P; self.pos = []; self.depth = depth
        d = RINGS[n][0]
        self.S = {ONE: d} if isinstance(d, int) else {('S', n): 1}
        self.g = GIVEN.get(f.name) if n == 'given' else None
        if n == 'given': self.S = {('a', self.g[2]): 1}

        self.cache = {}

    def at(self, i):
        if i.bb not in self.cache: self.cache[i.bb] = self.facts(rk.facts_at(self.f, i))
        return self.cache[i.bb]

    # -------------------------------------------------- linear forms
    def lin(self, o, depth=0):
        f = self.f
        if isinstance(o, list):
            if o[0] == 'c': return {ONE: o[1]} if o[1] else {}
            return {('a', o[1]): 1} if o[0] == 'a' else {('?', str(o)): 1}
        i = f.insts[o]
        if i.op in rk.CASTS or i.op == 'freeze':
            l = self.lin(i.x[0], depth + 1)
            if i.op == 'zext' and l not in self.pos: self.pos.append(l)
            return l
        if depth < 20:
            if i.op in ('add', 'sub'): return add(self.lin(i.x[0], depth + 1), self.lin(i.x[1], depth + 1), 1 if i.op == 'add' else -1)
            if i.op in ('mul', 'shl'):
                a, b = self.lin(i.x[0], depth + 1), self.lin(i.x[1], depth + 1)
                if i.op == 'shl' and set(b) <= {ONE}: b = {ONE: 1 << b.get(ONE, 0)}
                if set(a) <= {ONE}: a, b = b, a
                if set(b) <= {ONE}:
                    if not all(m == ONE or m[0] == 'S' or m[0] == 'm' and ringof(m[1]) for m in a): return {('x', f.expr(o)): 1}
                    return {m: c * b.get(ONE, 0) for m, c in a.items()} if b else {}
        if i.op == 'load':
            e = f.expr(o); n = depthof(e)
            # numbers of workers are steps elsewhere
            if n and n != self.n and not isinstance(RINGS[n][0], str): n = None
            if n: return {('S', n): 1}
            return {('m', e[1]): 1}
        if i.op in ('udiv', 'sdiv', 'lshr', 'ashr'):
            n = self.lin(i.x[0], depth + 1)
            if len(n) == 1 and list(n)[0][0:1] == ('S',) if list(n) and list(n)[0] != ONE else False: return {('part', list(n)[0][1], f.expr(o)): 1}
        if i.op in ('phi', 'select'):
            # the larger of one and a part of the ring
            ls = [self.lin(v, depth + 1) if isinstance(v, list) or f.insts[v].op in ('udiv', 'sdiv', 'lshr', 'ashr') else None for v in f.phi_leaves(o)] if depth < 15 else [None]
            if all(l is not None and (l == {ONE: 1} or len(l) == 1 and list(l)[0] != ONE and list(l)[0][0] == 'part') for l in ls):
                n = [list(l)[0][1] for l in ls if l != {ONE: 1}]
                if n: return {('part', n[0], ('max', str(sorted(map(str, ls))))): 1}
        if i.op in ('phi', 'select', 'call'): return {('v', o): 1}
        return {('x', f.expr(o)): 1}

    # -------------------------------------------------- what is known
    def known(self, facts, atoms):
        """linear forms that are not negative"""
        K = [l for l in self.pos if any(m in atoms for m in l)]; ne = []
        if self.g: K.append(add(self.S, {ONE: 4}, -1))
        # the number of a worker is below the number of workers
        for a in atoms:
            if a != ONE and a[0] == 'm' and rk.lastfield(a[1]) in WORKERS:
                K += [add(add({b: 1}, {ONE: 1}, -1), {a: 1}, -1) for b in atoms if b != ONE and b[0] in 'mx' and (rk.lastfield(b[1]) or ('', ''))[1] == 'coreCount']
        S = self.S
        for a in atoms:
            if a == ONE: continue
            if a[0] == 'S': K.append({a: 1, ONE: -4 if isinstance(RINGS[a[1]][0], str) else -1})
            elif a[0] == 'part': K += [{a: 1}, add({('S', a[1]): 1}, {a: 1}, -1)]
            elif a in self.inside:
                n = self.inside[a]; d = RINGS[n][0]
                D = {ONE: d} if isinstance(d, int) else self.S if n == 'given' else {('S', n): 1}
                K += [{a: 1}, add(add(D, {ONE: 1}, -1), {a: 1}, -1)]
            elif a not in self.plain: pass
            else: K += [{a: 1}, add(S, {a: 1}, -1)]
        for p, x, y in facts:
            d = add(y, x, -1)
            # numbers compared without sign are not negative
            if p in ('ult', 'ule'): K.append(x)
            if p in ('ugt', 'uge'): K.append(y)
            if p in ('ule', 'sle'): K.append(d)
            elif p in ('ult', 'slt'): K.append(add(d, {ONE: 1}, -1))
            elif p in ('uge', 'sge'): K.append(add(x, y, -1))
            elif p in ('ugt', 'sgt'): K.append(add(add(x, y, -1), {ONE: 1}, -1))
            elif p == 'eq': K += [d, add(x, y, -1)]
            elif p == 'ne': ne.append(d)
        for d in ne:
            if self.holds(K, d): K.append(add(d, {ONE: 1}, -1))
            elif self.holds(K, add({}, d, -1)): K.append(add(add({}, d, -1), {ONE: 1}, -1))
        return K

    def holds(self, K, g):
        """g is a sum of up to three known forms and a number that is not negative"""
        def rest(d): return all(m == ONE for m in d) and d.get(ONE, 0) >= 0
        if rest(g): return True
        for a in range(len(K)):
            d = add(g, K[a], -1)
            if rest(d): return True
            for b in range(a, len(K)):
                e = add(d, K[b], -1)
                if rest(e): return True
                for c in range(b, len(K)):
                    if rest(add(e, K[c], -1)): return True
        return False

    def facts(self, fs):
        r = []
        for x in fs:
            if x[0] in ('notin',) or len(x) < 5 or x[4] is None: continue
            if x[0] in rk.NEG: r.append((x[0], self.lin(x[3]), self.lin(x[4])))
        return r

    # -------------------------------------------------- the question
    def inside_of(self, o, fs, at):
        """True, False (it can be outside) or None (not known)"""
        f = self.f
        while isinstance(o, int) and (f.insts[o].op in rk.CASTS or f.insts[o].op == 'freeze'): o = f.insts[o].x[0]
        if isinstance(o, list):
            if o[0] == 'c':
                if o[1] == 0: return True
                return (o[1] < RINGS[self.n][0] and o[1] >= 0) if isinstance(RINGS[self.n][0], int) else None
            return self.prove(o, fs, None)
        i = f.insts[o]
        if o in self.busy: return True
        if i.op == 'urem' or i.op == 'srem':
            d = self.lin(i.x[1])
            if d == self.S: return True
            return False if any(k != ONE and k[0] == 'S' for k in d) else None
        fs = fs + self.at(i)
        if i.op == 'load':
            e = f.expr(i.x[0])
            if e[0] in ('loc', 'arg') and not ringof(e) and not (self.g and e == ('arg', self.g[1])):
                if self.prove(o, fs, True): return True
                return self.memory(e, i)
            b = block(e)
            if b is not None:
                if self.prove(o, fs, True): return True
                return self.kept(b)
        if i.op == 'phi':
            r = self.prove(o, fs, True)
            if r: return True
            self.busy[o] = 1
            res = []
            for v, pb in i.x:
                t = f.blocks[pb][-1]; e = []
                ss = f.succs[pb]
                for pos, s in enumerate(ss):
                    if s == i.bb and ss.count(s) == 1:
                        m, at_ = rk.atoms(f, pb, pos)
                        if m == 'all' or len(at_) == 1: e = at_
                res.append(self.inside_of(v, self.at(t) + self.facts(e), t))
            del self.busy[o]
            # a counter that only its use bounds
            if all(x is True for x in res): return True
            if any(x is None for x in res): return None
            return None if self.limited(o, fs) else False
        if i.op == 'select':
            r = self.prove(o, fs, True)
            if r: return True
            c, a, b = i.x
            res = []
            for v, truth in ((a, True), (b, False)):
                m, at_ = rk.compound(f, c, truth)
                res.append(self.inside_of(v, fs + (self.facts(at_) if m == 'all' or len(at_) == 1 else []), at))
            if all(x is True for x in res): return True
            return None if any(x is None for x in res) else False
        return self.prove(o, fs, None)

    def memory(self, a, at):
        """what was last kept at a local variable, or behind an argument, on every way to the instruction"""
        f = self.f; key = ('mem', a)
        if key in self.busy: return True
        self.busy[key] = 1
        res = []; seen = set(); st = [(at.bb, at.pos)]
        while st:
            bb, pos = st.pop(); hit = False
            for i in reversed(f.blocks[bb][:pos]):
                if i.op == 'store' and f.expr(i.x[1]) == a: res.append(self.inside_of(i.x[0], self.at(i), i)); hit = True; break
                if i.op == 'call' and a[0] == 'loc' and not (i.callee or '').startswith('llvm.'):
                    ks = [k for k, x in enumerate(i.args) if f.expr(x) == a]
                    if ks: res.append(self.given(i, ks[0])); hit = True; break
            if hit: continue
            if bb == 0:
                if a[0] == 'arg': res.append(None)
                continue
            for p in f.preds[bb]:
                if p not in seen: seen.add(p); st.append((p, len(f.blocks[p])))
        del self.busy[key]
        if not res: return None
        if all(x is True for x in res): return True
        return False if all(x is not None for x in res) else None

    def kept(self, b):
        """everything that is ever put into a table of the function"""
        f = self.f; key = ('kept', b)
        if key in self.busy: return True
        self.busy[key] = 1
        res = [self.inside_of(i.x[0], self.at(i), i) for i in f.insts if i.op == 'store' and block(f.expr(i.x[1])) == b]
        del self.busy[key]
        if not res: return None
        if all(x is True for x in res): return True
        return False if all(x is not None for x in res) else None

    def given(self, call, k):
        """what a function leaves behind an argument"""
        g = self.P.f(call.callee, required=False) if self.P and self.depth < 2 and call.callee else None
        if g is None: return None
        st = [i for i in g.insts if i.op == 'store' and g.expr(i.x[1]) == ('arg', k)]
        if not st or any(j.op == 'call' and any(g.expr(x) == ('arg', k) for x in j.args) for j in g.insts): return None
        R = Ring(g, self.n, self.P, self.depth + 1)
        return True if all(R.inside_of(i.x[0], R.at(i), i) is True for i in st) else None

    def counter(self, o):
        """starts from a number that is not negative and only goes up"""
        f = self.f; i = f.insts[o]
        if i.op != 'phi': return False
        for v, pb in i.x:
            while isinstance(v, int) and f.insts[v].op in rk.CASTS: v = f.insts[v].x[0]
            if isinstance(v, list):
                if v[0] == 'c' and v[1] >= 0: continue
                return False
            if v == o: continue
            j = f.insts[v]
            if j.op == 'add' and j.x[0] == o and f.const(j.x[1]) is not None and f.const(j.x[1]) >= 0: continue
            return False
        return True

    def limited(self, o, fs):
        """something on the way bounds the value in a way that is not understood"""
        k = {('v', o): 1}
        for p, x, y in fs:
            for u, w in ((x, y), (y, x)):
                if ('v', o) in u and any(m != ONE and m[0] not in ('S',) for m in w): return True
                if ('v', o) in u and isinstance(RINGS[self.n][0], str) and set(w) <= {ONE} and w.get(ONE, 0) > 0: return True
        return False

    def atmost(self, o, fs):
        """the value is no more than the depth"""
        if self.prove(o, fs, True): return True
        return self.holds(self.last, add(self.S, self.lin(o), -1)) and self.holds(self.last, self.lin(o))

    def prove(self, o, fs, only, deep=0):
        v = o if isinstance(o, dict) else self.lin(o)
        r = self.attempt(v, fs, only)
        if r or only or deep > 2: return r
        # one choice after the other
        for a in v:
            if a == ONE or a[0] != 'v' or a[1] in self.busy: continue
            i = self.f.insts[a[1]]
            if i.op not in ('phi', 'select'): continue
            rest = dict(v); k = rest.pop(a); res = []
            self.busy[a[1]] = 1
            for x, extra in self.arms(i):
                res.append(self.prove(add(rest, self.lin(x), k), fs + extra, None, deep + 1))
            del self.busy[a[1]]
            if all(x is True for x in res): return True
        return r

    def arms(self, i):
        f = self.f
        if i.op == 'select':
            for x, truth in ((i.x[1], True), (i.x[2], False)):
                m, at = rk.compound(f, i.x[0], truth)
                yield x, self.facts(at) if m == 'all' or len(at) == 1 else []
            return
        for x, pb in i.x:
            ss = f.succs[pb]; e = []
            for pos, s in enumerate(ss):
                if s == i.bb and ss.count(s) == 1:
                    m, at = rk.atoms(f, pb, pos)
                    if m == 'all' or len(at) == 1: e = at
            yield x, self.at(f.blocks[pb][-1]) + self.facts(e)

    def attempt(self, v, fs, only):
        # comparisons that have to do with it
        rel = {m for m in v if m != ONE and m[0] != 'S'}; left = list(fs); fs = []
        while True:
            new = [t for t in left if any(m in rel for x in t[1:3] for m in x)]
            if not new: break
            left = [t for t in left if t not in new]
            for t in new:
                if t not in fs: fs.append(t)
                rel |= {m for x in t[1:3] for m in x if m != ONE and m[0] != 'S'}
        atoms = set(v)
        for p, x, y in fs: atoms |= set(x) | set(y)
        # where the values it is made of stand
        self.inside = {}; self.plain = set(); doubt = False; main = False
        mine = {m for m in v if m != ONE}
        stack = []
        save = None
        inside = {}; plain = set()
        for a in atoms:
            if a == ONE or a[0] in ('S', 'part'): continue
            if a[0] == 'm':
                n = 'given' if self.g and a[1] == ('arg', self.g[1]) else ringof(a[1])
                if not n and block(a[1]) is not None and ('kept', block(a[1])) not in self.busy and a in mine and self.kept(block(a[1])): n = self.n
                if n: inside[a] = n; main |= a in mine
                else: plain.add(a)
            elif a[0] == 'v' and a in mine and not only and len(v) + 0 > 1:
                j = self.f.insts[a[1]]
                if j.op in ('phi', 'select'):
                    r = Ring.inside_of(self, a[1], list(fs), None) if a[1] not in self.busy else True
                    if r: inside[a] = self.n; main = True
                    elif r is False: inside[a] = None; main = True; inside.pop(a)
                    else: doubt = True
                else: doubt = True
            elif a[0] == 'x': plain.add(a)
            elif a[0] == 'v':
                if a[1] in self.busy: inside[a] = self.n
                elif a not in mine: plain.add(a)
            elif a[0] == 'a' and a not in mine: plain.add(a)
        self.inside = inside; self.plain = plain
        for a in atoms:
            if a != ONE and a[0] == 'v' and self.counter(a[1]) and {a: 1} not in self.pos: self.pos.append({a: 1})
        K = self.last = self.known(fs, atoms | set(v) | set(self.S))
        lo = self.holds(K, v); hi = self.holds(K, add(add(self.S, {ONE: 1}, -1), v, -1))
        if lo and hi: return True
        if only: return None
        if doubt: return None
        if any(m != ONE and m[0] == 'a' for m in v): return None
        return False if main or any(m != ONE and m[0] == 'S' for m in v) else None
