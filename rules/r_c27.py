"""C27: a routine supplied by the user is only called when it was supplied.

Every call through a function pointer kept in a structure is preceded, on every path, by a comparison of that pointer against NULL; or by a
comparison of an object that is only ever created where the routine was known to be there; or the routine has a default from the moment the
structure is created and is never cleared.

The same for what callers may leave out: an argument declared _Nullable, or that the function itself tests for NULL, is only used on paths
where it is known to be there; a member that keeps such an argument is tested by everyone who uses it."""
import os, re
import rk


# routines that have a default and that the user may nevertheless switch off by giving NULL
OPTIONAL = {('RKServer', 't'), ('RKServer', 'w'), ('RKSweepEngine', 'productRecorder')}


class Presence:
    def __init__(self, P):
        self.P = P
        self.st = {}
        for f in P.analysed():
            for i in f.insts:
                if i.op == 'store':
                    lf = rk.lastfield(f.expr(i.x[1]))
                    if lf: self.st.setdefault(lf, []).append((f, i))
        self.open = {}
        self.create = {}
        for f, i, _, es, _ in P.threads():
            for e in es: self.create.setdefault(e, []).append((f, i))
        self.calls = {}
        for f in P.analysed():
            for i in f.calls():
                if i.callee: self.calls.setdefault(i.callee, []).append((f, i))

    def known(self, f, inst):
        """expressions known not to be NULL at inst"""
        res = []
        for fa in rk.facts_at(f, inst):
            if fa[0] == 'ne' and fa[2] == ('c', 0): res.append(fa[1])
            elif fa[0] == 'ne' and fa[1] == ('c', 0): res.append(fa[2])
            elif fa[0] == 'eq' and ('F' in (fa[1][0], fa[2][0])): res.append(fa[2] if fa[1][0] == 'F' else fa[1])
        return res

    def supplied(self, f, inst, e, depth=0):
        """why the routine e (a value) is there when inst runs, or None"""
        if e[0] != 'ld': return None
        lf = rk.lastfield(e[1]); base = e[1][1] if e[1][0] == 'fld' else None
        for k in self.known(f, inst):
            if k == e and not self.cleared(f, lf, inst): return 'compared'
            h = rk.lastfield(k[1]) if k[0] == 'ld' else None
            if h and k[1][0] == 'fld' and k[1][1] == base and self.implies(h, lf): return 'created with %s' % h[1]
        if depth < 2:
            sites = self.create.get(f.name)
            if sites is None and f.static and f.rawname not in self.P.address_taken(): sites = self.calls.get(f.name)
            if sites:
                w = [self.site(g, j, lf, depth) for g, j in sites]
                if all(w): return 'checked where %s is started' % f.name
        return None

    def site(self, g, j, lf, depth):
        for k in self.known(g, j):
            h = rk.lastfield(k[1]) if k[0] == 'ld' else None
            if h == lf or h and h[0] == lf[0] and self.implies(h, lf): return True
        return False

    def cleared(self, f, lf, inst):
        """set to NULL in this function before inst"""
        return any(g is f and f.expr(i.x[0]) == ('c', 0) and (i.bb == inst.bb and i.pos < inst.pos or inst.bb in f.reach()[i.bb]) and not (inst.bb in f.dom()[i.bb] and i.bb != inst.bb)
                   and not f.dominates(inst, i) for g, i in self.st.get(lf, ()))

    def implies(self, h, lf, depth=0):
        """wherever member h is given a value, routine lf is known to be there"""
        k = (h, lf)
        if k in self.open: return self.open[k]
        self.open[k] = False
        ok = bool(self.st.get(h)) and depth < 4
        some = False
        for f, i in self.st.get(h, ()) if ok else ():
            v = f.expr(i.x[0])
            if v in (('c', 0), ('n',), ('null',)) or isinstance(i.x[0], list) and i.x[0][0] == 'n': continue
            some = True
            if any(x[0] == 'ld' and rk.lastfield(x[1]) == lf for x in self.known(f, i)): continue
            v2 = rk.lastfield(v[1]) if v[0] == 'ld' else None
            if v2:
                pairs = [rk.lastfield(f.expr(j.x[0])[1]) for g, j in self.st.get(lf, ()) if g is f and j.bb == i.bb and f.expr(j.x[0])[0] == 'ld']
                if any(p and self.implies(v2, p, depth + 1) for p in pairs): continue
            ok = False; break
        self.open[k] = ok and some
        return self.open[k]

    def default(self, lf):
        """the structure's creator stores a routine before handing it out, nothing clears it"""
        made = False
        for f, i in self.st.get(lf, ()):
            v = f.expr(i.x[0])
            if v[0] in ('c', 'n', 'null') or isinstance(i.x[0], list) and i.x[0][0] == 'n': return None
            if v[0] == 'F' or isinstance(i.x[0], list) and i.x[0][0] == 'F':
                size = self.P.structs.get(lf[0], {}).get('size')
                rt = rk.root(f.expr(i.x[1]))
                if any(c.callee in ('malloc', 'calloc', 'posix_memalign') and size in [f.const(a) for a in c.args] for c in f.calls()):
                    rets = [t for t in f.insts if t.op == 'ret' and t.x]
                    if all(f.dominates(i, f.blocks[self.way(f, t, v)][-1]) if self.way(f, t, v) is not None else True
                           for t in rets for v in self.given(f, t)): made = True
            elif v[0] != 'arg' or f.static: return None
            elif lf in OPTIONAL and not any(x == v for x in self.known(f, i)): return None
        return made

    def given(self, f, t):
        v = t.x[0]
        i = f.insts[v] if isinstance(v, int) else None
        if i is not None and i.op == 'phi': return [(x[0], x[1]) for x in i.x]
        return [(v, t.bb)]

    def way(self, f, t, v):
        o, b = v
        if isinstance(o, list) and o[0] in ('n', 'c'): return None
        return b


def check(r):
    P = rk.Program()
    Q = Presence(P)
    defaults = {}
    for f in P.analysed():
        for i in f.calls():
            if i.callee: continue
            e = f.expr(i.x[0])
            lf = rk.lastfield(e[1]) if e[0] == 'ld' else None
            if lf is None: r.count('calls_of_other_pointers'); continue
            r.count('calls_through_members')
            why = Q.supplied(f, i, e)
            if why is None:
                if lf not in defaults: defaults[lf] = Q.default(lf)
                if defaults[lf]: why = 'set from the start'
            if why:
                r.count('guarded')
                r.sample('%s %s: %s.%s %s' % (i.loc(), f.name, lf[0], lf[1], why))
            else:
                r.violation('%s:%s.%s' % (f.name, *lf), '%s %s: the routine %s.%s is called without a check that it was supplied' % (i.loc(), f.name, *lf))
    omitted(r, P)
    r.need('calls_through_members', 20)
    r.need('guarded', 15)
    r.explanation = 'each call through a function pointer member, with what shows that the pointer is set'
    r.assumptions = ['a routine that replaces a default is a routine', 'optional routines are not exchanged for NULL while the radar is live']


TEXT = {'sprintf', 'snprintf', 'strcpy', 'strncpy', 'strcat', 'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'strstr', 'strchr', 'memcpy', 'memset', 'memmove', 'fclose', 'fprintf', 'fwrite', 'fread', 'atoi', 'atof', 'strdup'}


def declared(P):
    """(function, argument number) pairs declared _Nullable"""
    res = set()
    for d in ('headers', 'source'):
        for root, _, fs in os.walk(os.path.join(P.repo if hasattr(P, 'repo') else os.environ.get('RK_REPO', '/repo'), d)):
            for x in fs:
                if not x.endswith(('.h', '.c')): continue
                s = open(os.path.join(root, x), errors='replace').read()
                if '_Nullable' not in s: continue
                for m in re.finditer(r'(\w+)\(([^(){};]*_Nullable[^(){};]*)\)', s):
                    for n, a in enumerate(m.group(2).split(',')):
                        if '_Nullable' in a: res.add((m.group(1), n))
    return res


def alone(f, n):
    """the function has a branch for this very argument being NULL"""
    for b in range(len(f.blocks)):
        for k in range(len(f.succs[b]) if len(f.succs[b]) > 1 else 0):
            m, at = rk.atoms(f, b, k)
            if len(at) == 1 and at[0][0] == 'eq' and at[0][1] == ('arg', n) and at[0][2] == ('c', 0) and not f.argty[n].startswith('i') and not jointly(f, b, f.succs[b][k], n): return True
    return False


def jointly(f, b, s, n):
    """next, another argument is tested: the two are given or left out together"""
    for x in (b, s):
        for k in range(len(f.succs[x]) if len(f.succs[x]) > 1 else 0):
            if any(fa[1][0] == 'arg' and fa[1] != ('arg', n) and fa[2] == ('c', 0) for fa in rk.atoms(f, x, k)[1]): return True
    return False


def uses(P, D, f, i):
    """operands through which the instruction reaches into memory"""
    if i.op == 'load': return [i.x[0]]
    if i.op == 'store': return [i.x[1]]
    if i.op != 'call': return []
    if i.callee is None or i.callee in TEXT or i.callee.startswith('llvm.mem'): return list(i.args) if i.callee else []
    return [a for n, a in enumerate(i.args) if (i.callee, n) in D]


def reaching(P):
    """(function, argument) pairs the function uses without a test"""
    res = set(); ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.decl: continue
            for i in f.insts:
                for o in uses(P, res, f, i):
                    e = rk.root(f.expr(o))
                    if e[0] != 'arg' or (f.name, e[1]) in res: continue
                    if any(g[0] == 'ne' and g[1] == e and g[2] == ('c', 0) for g in rk.facts_at(f, i)): continue
                    res.add((f.name, e[1])); ch = True
    return res


def unproven(P, D, f, n):
    """uses of the argument on a path where it may be NULL"""
    facts = rk.Facts(f, P); bad = []
    def tr(i, st):
        if st: st2 = facts.kill(f, i, st)
        else: st2 = st
        if any(rk.root(f.expr(o)) == ('arg', n) for o in uses(P, D, f, i)): bad.append(i); return []
        return None if st2 is st else [st2]
    def ed(f, b, k, st):
        sure = facts.outcome(f, b, k, st)
        if sure is None: return None
        if any(fa[0] == 'ne' and fa[1] == ('arg', n) and fa[2] == ('c', 0) for fa in sure): return None
        return facts.assume(f, b, k, st)
    rk.Explorer(f, tr, ed, limit=20000).run(frozenset())
    return bad


def omitted(r, P):
    D = reaching(P)
    dec = declared(P)
    members = {}
    for f in P.analysed():
        for n in range(len(f.argty)):
            d = (f.name, n) in dec
            if not (d or alone(f, n)): continue
            r.count('arguments_that_may_be_left_out')
            for i in unproven(P, D, f, n):
                r.violation('%s:argument%d' % (f.name, n), '%s %s: argument %d, which may be NULL, is used without a check' % (i.loc(), f.name, n + 1)); break
            for i in f.insts:
                if d and i.op == 'store' and f.expr(i.x[0]) == ('arg', n) and rk.lastfield(f.expr(i.x[1])): members[rk.lastfield(f.expr(i.x[1]))] = f.name
        # a constant NULL for an argument that is used without a test
        for i in f.calls():
            for m, a in enumerate(i.args):
                if not (isinstance(a, list) and a and a[0] == 'n'): continue
                r.count('arguments_left_out')
                for g in P.byname.get(i.callee, ()) if (i.callee, m) in D else ():
                    nulls = sum(1 for x in i.args if isinstance(x, list) and x and x[0] == 'n')
                    if nulls == 1 and unproven(P, D, g, m): r.violation('%s:%s:%d' % (f.name, i.callee, m), '%s %s: leaves out argument %d of %s, which uses it without a check' % (i.loc(), f.name, m + 1, i.callee))
    for f in P.analysed():
        for i in f.insts:
            for o in uses(P, D, f, i):
                e = f.expr(o)
                for x in rk.subexprs(e):
                    lf = rk.lastfield(x[1]) if x[0] == 'ld' else None
                    if lf not in members: continue
                    r.count('uses_of_members_that_may_be_absent')
                    if any(g[0] == 'ne' and g[1] == x and g[2] == ('c', 0) for g in rk.facts_at(f, i)): continue
                    r.violation('%s:%s.%s:absent' % (f.name, *lf), '%s %s: %s.%s, which %s allows to be NULL, is used without a check' % (i.loc(), f.name, *lf, members[lf]))
