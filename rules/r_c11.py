"""C11: what an operation acquires into a local is released, returned or handed over on every way out."""
import rk, own, life, model


class InMember(own.Own):
    """follows a descriptor or file kept in a member that the acquiring function itself releases"""
    mine = {}                # member -> functions that release it

    def tr(self, i, st):
        if st[0] != 'done':
            al, facts = st; f = self.f
            if i.op == 'store' and self.isalias(i.x[0], al):
                a = f.expr(i.x[1])
                if rk.root(a)[0] != 'loc' and f.name in self.mine.get(rk.lastfield(a), ()):
                    return [(al | {('mem', a)}, self.facts.kill(f, i, facts) if facts else facts)]
            if i.op == 'call' and i.callee and i is not self.acq:
                for x in al:
                    if isinstance(x, tuple) and x[0] == 'mem' and self.P.reachable_from([i.callee]) & self.mine.get(rk.lastfield(x[1]), set()): return []
            if i.op == 'call' and i.callee == 'fclose' and self.kind == 'fd':
                # a stream made of this descriptor owns it
                for v in f.phi_leaves(i.args[0]):
                    if isinstance(v, int) and f.insts[v].op == 'call' and f.insts[v].callee == 'fdopen':
                        e = f.expr(f.insts[v].args[0])
                        if e[0] == 'ld' and ('mem', e[1]) in al: return []
            if i.op == 'ret':
                for x in al:
                    if isinstance(x, tuple) and x[0] == 'mem' and self.mine.get(rk.lastfield(x[1]), set()) - {f.name}: return []
        return own.Own.tr(self, i, st)

    def run(self):
        # first only the conditions that decide about a release
        f = self.f; allkeys = self.facts.keys
        rel = own.REL[self.kind] | {'fclose'}
        self.facts.keys = allkeys & {(g[1], g[2]) for i in f.calls() if i.callee in rel for g in rk.guards(f, i) if g[0] != 'notin'}
        leaks = own.Own.run(self)
        if not leaks: return leaks
        ends = dict(self.ends); self.lost = []; self.facts.keys = allkeys
        try: return own.Own.run(self)
        except model.AnalysisError:
            self.ends.clear(); self.ends.update(ends)
            return leaks


def keepers(P):
    """members that hold a descriptor, file or directory -> functions that release them"""
    if hasattr(P, '_keep'): return P._keep
    rel = own.REL['fd'] | own.REL['file'] | own.REL['dir'] | own.REL['pipe'] | own.REL['netcdf']
    res = {}
    for f in P.analysed():
        for i in f.calls():
            if i.callee in rel and i.args:
                for v in f.phi_leaves(i.args[0]):
                    lf = rk.lastfield_of(f.expr(v))
                    if lf: res.setdefault(lf, set()).add(f.name)
    P._keep = res
    return res


class Given(InMember):
    """a thread routine that is the only one to close what it was given must do so on all its ways out"""
    def __init__(self, P, f, addr, kind):
        self.P, self.f, self.kind, self.where, self.fail, self.addr = P, f, kind, 'ret', 'none', addr
        self.acq = None; self.sum = own.summaries(P); self.facts = rk.Facts(f, P); self.lost = []; self.slots = False; self.releaseloops = set()
        self.ends = own.defaultdict(int)

    def run(self):
        ex = rk.Explorer(self.f, self.tr, self.ed)
        self.facts.keys = set()
        return [(t, ex.path(key)) for t, st, key in ex.run((frozenset([('mem', self.addr)]), frozenset())) if t.op == 'ret' and st[0] != 'done' and ('mem', self.addr) in st[0]]


def given(r, P):
    keep = keepers(P)
    for n in sorted({e for t in P.threads() for e in t[3]}):
        for f in P.byname[n]:
            for i in f.calls('close', 'fdopen', 'fclose', 'closedir'):
                e = f.expr(i.args[0]); lf = rk.lastfield_of(e)
                if not lf or rk.root(e[1]) != ('arg', 0) or keep.get(lf, {f.name}) != {f.name}: continue
                if any(j.op == 'store' and rk.lastfield(f.expr(j.x[1])) == lf for j in f.insts): continue
                r.count('given_to_a_thread')
                for t, path in Given(P, f, e[1], 'file' if i.callee == 'fclose' else 'dir' if i.callee == 'closedir' else 'fd').run():
                    r.violation('%s:%s.%s:given' % (f.name, lf[0], lf[1]), '%s %s, the only routine that closes %s.%s, returns at %s without having done so; path through lines %s' % (f.where(), f.name, lf[0], lf[1], t.loc(), path))
                break


def check(r):
    P = rk.Program()
    given(r, P)
    fr = own.fresh_returners(P); outs = own.fresh_outs(P)
    r.count('functions_that_acquire_for_their_caller', len(outs))
    InMember.mine = keepers(P)
    for f in P.analysed():
        # what a program still holds at its end goes with it
        if f.rawname == 'main': continue
        for i in f.calls():
            c = i.callee
            if c in own.ACQ: kind, where, fail = own.ACQ[c]
            elif c in fr: kind, where, fail = fr[c][0], 'ret', fr[c][1]
            elif c in outs: kind, where, fail = 'object', outs[c], 'null'
            else: continue
            if where != 'ret' and rk.root(f.expr(i.args[where]))[0] != 'loc': r.count('into_members'); continue
            r.count('acquisitions_into_locals')
            r.sample('%s %s: %s from %s' % (i.loc(), f.name, kind, c))
            o = (InMember if kind in ('fd', 'file', 'dir', 'pipe', 'netcdf') else own.Own)(P, f, i, kind, where, fail)
            for t, path in o.run():
                if t.op == 'ret': txt = 'is not released on the way to the return at %s; path through lines %s' % (t.loc(), path)
                else: txt = 'is acquired again on the next turn without having been released'
                r.violation('%s:%s%s' % (f.name, c, ''), '%s %s: the %s from %s %s' % (i.loc(), f.name, kind, c, txt))
            for k, v in o.ends.items(): r.count(k.replace(' ', '_'), v)
    r.need('acquisitions_into_locals', 150); r.need('released', 200)
    r.explanation = 'Every call in the analysed units that yields a file, descriptor, directory, netCDF handle, semaphore, heap block or kit object into a local is followed along all paths (correlated branches pruned, failure branches of the acquisition itself excluded) until it is released, returned, stored in a structure or handed to a function that stores or releases it; a path that reaches a return, or the same acquisition again, while holding it is a leak.'
    r.assumptions = ['handing a resource to a function counts as giving it away when that function may store or release it']
