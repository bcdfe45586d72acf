"""Lock typestate shared by C02, C03, C04: which mutexes are held at each instruction."""
import rk, model

LOCK = {'pthread_mutex_lock', 'pthread_mutex_trylock'}
UNLOCK = {'pthread_mutex_unlock'}


def lockclass(e):
    lf = rk.lastfield(e)
    if lf: return '%s.%s' % lf
    e = rk.root(e)
    if e[0] == 'g': return rk.stem(e[1])
    if e[0] == 'ld': return lockclass(e[1]) if e[1][0] in ('fld', 'idx', 'g') else '*' + rk.show(e)
    return rk.show(e)


class LockFlow:
    """explores one function; state = (tuple of held lock exprs in order, facts)"""

    def __init__(self, P, f, summaries=None):
        self.P = P; self.f = f
        self.sum = summaries or {}
        self.F = rk.Facts(f)
        self.errors = []       # (kind, inst, lock expr)
        self.all_at = {}       # inst idx -> set of frozenset(lock exprs), the empty one included
        self.held_at = {}      # inst idx -> set of frozenset(lock exprs)

    def resolve(self, inst, op):
        """canonical lock expression, through phis with a single meaning"""
        return self.f.expr(op)

    def transfer(self, i, st):
        held, facts = st
        if i.op in ('call', 'load', 'store'): self.all_at.setdefault(i.idx, set()).add(frozenset(held))
        if i.op == 'call':
            c = i.callee
            if held: self.held_at.setdefault(i.idx, set()).add(held)
            if c in LOCK:
                l = self.resolve(i, i.args[0])
                if l in held: self.errors.append(('taken again while held', i, l, held))
                return [(held + ((l,) if l not in held else ()), self.F.kill(self.f, i, facts))]
            if c in UNLOCK:
                l = self.resolve(i, i.args[0])
                if l not in held: self.errors.append(('released although not held on some path', i, l, held))
                return [(tuple(x for x in held if x != l), facts)]
            if c in self.sum:
                # net effect of a lock wrapper, in terms of its arguments
                acq, rel = self.sum[c]
                for (n, path) in acq: held = held + (apply(self.f.expr(i.args[n]), path),)
                for (n, path) in rel:
                    l = apply(self.f.expr(i.args[n]), path)
                    held = tuple(x for x in held if x != l)
                return [(held, self.F.kill(self.f, i, facts))]
        elif held and i.op in ('load', 'store'):
            self.held_at.setdefault(i.idx, set()).add(held)
        k = self.F.kill(self.f, i, facts)
        return None if k is facts else [(held, k)]

    def edge(self, f, bb, pos, st):
        facts = self.F.assume(f, bb, pos, st[1])
        return None if facts is None else (st[0], facts)

    def run(self):
        ex = rk.Explorer(self.f, self.transfer, self.edge)
        self.ex = ex
        self.exits = ex.run(((), frozenset()))
        return self.exits


def apply(base, path):
    e = base
    for s in path: e = ('fld', e, s[0], s[1])
    return e


def lock_functions(P):
    return [f for f in P.analysed() if f.calls(*(LOCK | UNLOCK))]


class Held:
    """must-held lock classes at every instruction, with what all callers of an internal function hold added"""

    def __init__(self, P):
        self.P = P
        self.flows = {}
        for f in lock_functions(P):
            lf = LockFlow(P, f); lf.run(); self.flows[f.rawname] = lf
        taken = P.address_taken()
        fns = {f.rawname: f for f in P.analysed()}
        callers = {}
        for f in fns.values():
            for i in f.calls():
                rc = i.rawcallee
                if rc in fns: callers.setdefault(rc, []).append((f, i))
        TOP = None
        self.entry = {n: (TOP if (n in callers and n not in taken) else frozenset()) for n in fns}
        ch = True
        while ch:
            ch = False
            for n, cs in callers.items():
                if n in taken: continue
                # public API may be called from outside with nothing held, unless it is internal to the kit's own file
                if not fns[n].static: v = frozenset()
                else:
                    vals = [self.at(f, i) for f, i in cs]
                    vals = [x for x in vals if x is not None]
                    if not vals: continue
                    v = frozenset.intersection(*vals)
                if v != self.entry[n]: self.entry[n] = v; ch = True

    def at(self, f, i):
        e = self.entry.get(f.rawname, frozenset())
        lf = self.flows.get(f.rawname)
        if not lf: return e
        hs = lf.all_at.get(i.idx)
        if not hs: return e
        loc = frozenset.intersection(*[frozenset(lockclass(x) for x in h) for h in hs])
        return loc | (e or frozenset())
