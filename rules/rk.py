"""Program model classes shared by the rules: functions, CFG, canonical expressions, path exploration."""
import re, sys
from collections import defaultdict, deque
import model as _model

TESTFILES = {'RKTest.c'}          # the test suite compiled into the library: not production code
CASTS = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fpext', 'fptrunc'}


def stem(n):
    return re.sub(r'\.\d+$', '', n)


class Inst:
    __slots__ = ('op', 'ty', 'line', 'file', 'scope', 'x', 'idx', 'bb', 'pos', 'fn')

    def __repr__(self):
        return '%%%d=%s %s %s' % (self.idx, self.op, self.x, self.loc())

    def loc(self):
        return '%s:%d' % (self.file or self.fn.file, self.line)

    # --- calls
    @property
    def callee(self):
        """name of the direct callee, or None"""
        if self.op != 'call':
            return None
        c = self.x[0]
        return stem(c[1]) if isinstance(c, list) and c[0] == 'F' else None

    @property
    def rawcallee(self):
        c = self.x[0]
        return c[1] if isinstance(c, list) and c[0] == 'F' else None

    @property
    def args(self):
        return self.x[1:]


class Function:
    def __init__(self, prog, name, d):
        self.prog = prog
        self.rawname = name
        self.name = stem(name)
        self.decl = bool(d['decl'])
        self.static = bool(d['static'])
        self.inl = d['inl']
        self.va = d['va']
        self.noret = d['noret']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.ret = d['ret']
        self.argty = d['argty']
        self.sig = d.get('sig')
        self.args = d.get('args', [])
        self.blocks = []
        self.insts = []
        self.vars = {}
        self._e = {}
        if self.decl:
            return
        self.vars = {int(k): v for k, v in d['vars'].items()}
        n = 0
        for bi, b in enumerate(d['blocks']):
            lst = []
            for pi, r in enumerate(b):
                i = Inst()
                i.op, i.ty, i.line, i.file, i.scope, i.x = r
                i.idx = n; i.bb = bi; i.pos = pi; i.fn = self
                n += 1
                lst.append(i)
                self.insts.append(i)
            self.blocks.append(lst)
        self.succs = []
        for b in self.blocks:
            t = b[-1]
            if t.op == 'br':
                s = [t.x[0]] if len(t.x) == 1 else [t.x[1], t.x[2]]
            elif t.op == 'switch':
                s = [c[1] for c in t.x[2:]] + [t.x[1]]
            else:
                s = []
            self.succs.append(s)
        self.preds = [[] for _ in self.blocks]
        for i, s in enumerate(self.succs):
            for j in set(s):
                self.preds[j].append(i)
        self._dom = self._pdom = self._reach = None
        self._users = None

    def __repr__(self):
        return self.name

    def where(self):
        return '%s:%d:%s' % (self.file, self.line, self.name)

    def calls(self, *names):
        return [i for i in self.insts if i.op == 'call' and (not names or i.callee in names)]

    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for i in self.insts:
                for o in operands(i):
                    if isinstance(o, int):
                        u[o].append(i)
            self._users = u
        return self._users

    # --- dominance
    def dom(self):
        if self._dom is None:
            self._dom = _domsets(len(self.blocks), [0], self.preds)
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.pos < b.pos
        return a.bb in self.dom()[b.bb]

    def reach(self):
        """block -> set of blocks reachable by one or more edges"""
        if self._reach is None:
            r = []
            for i in range(len(self.blocks)):
                seen = set(); st = list(self.succs[i])
                while st:
                    j = st.pop()
                    if j in seen: continue
                    seen.add(j); st.extend(self.succs[j])
                r.append(seen)
            self._reach = r
        return self._reach

    def reaches(self, a, b):
        if a.bb == b.bb and a.pos < b.pos:
            return True
        return b.bb in self.reach()[a.bb]

    def loops(self):
        """strongly connected components with at least one edge inside, as sets of blocks (outermost), plus natural loops"""
        dom = self.dom()
        res = defaultdict(set)
        for i, ss in enumerate(self.succs):
            for h in ss:
                if h in dom[i]:
                    body = {h, i}; st = [i] if i != h else []
                    while st:
                        b = st.pop()
                        for p in self.preds[b]:
                            if p not in body:
                                body.add(p); st.append(p)
                    res[h] |= body
        return dict(res)

    # --- expressions
    def expr(self, o, depth=0):
        """canonical expression of an operand: nested tuples, integer casts removed"""
        if isinstance(o, list):
            k = o[0]
            if k == 'c': return ('c', o[1])
            if k == 'a': return ('arg', o[1])
            if k == 'F': return ('F', stem(o[1]))
            if k == 'g': return ('g', o[1])
            if k == 's': return ('s', o[1])
            if k == 'n': return ('c', 0)
            if k == 'G': return self._gep(self.expr(o[1], depth + 1), o[2], depth)
            if k == 'E':
                if len(o) == 3: return self.expr(o[2], depth + 1)
                return ('op', o[1]) + tuple(self.expr(x, depth + 1) for x in o[2:])
            if k == 'd': return ('d', o[1])
            return (k,)
        if o in self._e:
            return self._e[o]
        i = self.insts[o]
        if depth > 40:
            return ('v', o)
        if i.op in CASTS:
            r = self.expr(i.x[0], depth + 1)
        elif i.op == 'load':
            r = ('ld', self.expr(i.x[0], depth + 1))
        elif i.op == 'getelementptr':
            r = self._gep(self.expr(i.x[0], depth + 1), i.x[1], depth)
        elif i.op == 'alloca':
            r = ('loc', o, self.vars.get(o, ['?'])[0])
        elif i.op == 'call':
            r = ('call', i.callee, o)
        elif i.op == 'phi':
            r = ('phi', o)
        elif i.op in ('icmp', 'fcmp'):
            r = ('cmp', i.x[0], self.expr(i.x[1], depth + 1), self.expr(i.x[2], depth + 1))
        elif i.op in ('store', 'br', 'ret'):
            r = ('v', o)
        else:
            r = ('op', i.op) + tuple(self.expr(x, depth + 1) for x in i.x)
        self._e[o] = r
        return r

    def _gep(self, base, path, depth):
        r = base
        for e in path:
            if e[0] == 'f':
                r = ('fld', r, e[1], e[3])
            elif e[0] == 'i':
                r = ('idx', r, self.expr(e[1], depth + 1))
            else:
                r = ('idx', r, self.expr(e[1], depth + 1))
        return r

    def val(self, o):
        """strip casts: returns instruction or operand list"""
        while isinstance(o, int) and self.insts[o].op in CASTS:
            o = self.insts[o].x[0]
        return self.insts[o] if isinstance(o, int) else o

    def phi_leaves(self, o):
        """all non-phi values (operands) an operand may take through phis/selects/casts"""
        res = []; seen = set(); st = [o]
        while st:
            v = st.pop()
            if isinstance(v, int):
                if v in seen: continue
                seen.add(v)
                i = self.insts[v]
                if i.op == 'phi': st.extend(x[0] for x in i.x); continue
                if i.op == 'select': st.extend(i.x[1:3]); continue
                if i.op in CASTS: st.append(i.x[0]); continue
            res.append(v)
        return res

    def show(self, e):
        return show(e, self)

    def const(self, o):
        v = self.val(o)
        if isinstance(v, list) and v[0] == 'c':
            return v[1]
        return None


def operands(i):
    if i.op == 'phi':
        return [x[0] for x in i.x]
    if i.op == 'br':
        return [i.x[0]] if len(i.x) == 3 else []
    if i.op == 'switch':
        return [i.x[0]]
    if i.op in ('icmp', 'fcmp'):
        return i.x[1:3]
    if i.op == 'store':
        return i.x[:2]
    if i.op == 'alloca':
        return [i.x[0]]
    if i.op == 'getelementptr':
        return [i.x[0]] + [e[1] for e in i.x[1] if e[0] in 'ip'] + _gops(i.x[0])
    return list(i.x)


def _gops(o):
    return []


def show(e, fn=None):
    if not isinstance(e, tuple): return str(e)
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'arg':
        return fn.args[e[1]] if fn and e[1] < len(fn.args) and fn.args[e[1]] else 'arg%d' % e[1]
    if k == 'fld': return '%s->%s' % (show(e[1], fn), e[3])
    if k == 'ld': return show(e[1], fn) if e[1][0] in ('fld', 'idx', 'g', 'loc') else '*' + show(e[1], fn)
    if k == 'idx': return '%s[%s]' % (show(e[1], fn), show(e[2], fn))
    if k == 'g': return e[1]
    if k == 's': return '"%s"' % e[1][:30]
    if k == 'F': return e[1]
    if k == 'loc': return e[2]
    if k == 'call': return '%s(..)' % e[1]
    if k == 'phi':
        return (fn.vars.get(e[1], ['phi'])[0] if fn else 'phi')
    if k == 'v': return (fn.vars.get(e[1], ['v'])[0] if fn else 'v')
    if k == 'cmp': return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    if k == 'op': return '%s(%s)' % (e[1], ', '.join(show(x, fn) for x in e[2:]))
    return str(e)


def subexprs(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def root(e):
    """base of an address expression"""
    while e[0] in ('fld', 'idx'):
        e = e[1]
    return e


def fields(e):
    """(struct, field) members along an address expression, outermost object first, including through loads"""
    r = []
    while True:
        if e[0] == 'fld': r.append((e[2], e[3])); e = e[1]
        elif e[0] in ('idx', 'ld'): e = e[1]
        else: break
    return r[::-1]


def lastfield(e):
    """(struct, field) an address expression ends in, ignoring trailing indices"""
    while e[0] == 'idx': e = e[1]
    if e[0] == 'fld': return (e[2], e[3])
    return None


def _domsets(n, roots, preds):
    full = set(range(n))
    dom = [full] * n
    for r in roots: dom[r] = {r}
    # order: simple iteration in RPO would be faster; sizes are small
    ch = True
    # reachable order
    while ch:
        ch = False
        for i in range(n):
            if i in roots: continue
            ps = [dom[p] for p in preds[i]]
            d = set.intersection(*ps) | {i} if ps else {i}
            if d != dom[i]:
                dom[i] = d; ch = True
    return dom


class Program:
    def __init__(self, variant='plain'):
        m = _model.load(variant)
        self.m = m
        self.structs = m['structs']
        self.ditypes = m['ditypes']
        self.globals = m['globals']
        self.units = m['units']
        self.fns = {}
        for n, d in m['functions'].items():
            self.fns[n] = Function(self, n, d)
        self.byname = defaultdict(list)
        for f in self.fns.values():
            self.byname[f.name].append(f)
        self._addr = None
        self.known = set(open(_model.VERIF + '/rules/known_functions.txt').read().split())

    def f(self, name, required=True):
        l = [x for x in self.byname.get(name, []) if not x.decl]
        if not l:
            if required: raise _model.AnalysisError('anchor function %s not found' % name)
            return None
        return l[0]

    def production(self):
        """defined functions of the system itself; functions that were inlined into all their callers are looked at there"""
        res = []
        for f in self.fns.values():
            if f.decl or f.file in TESTFILES: continue
            res.append(f)
        return res

    def analysed(self):
        """production functions minus new helpers that were inlined into every caller"""
        taken = self.address_taken()
        out = []
        for f in self.production():
            if f.name not in self.known and f.inl and f.rawname not in taken: continue
            out.append(f)
        return out

    def address_taken(self):
        if self._addr is None:
            s = defaultdict(list)
            for f in self.fns.values():
                for i in f.insts:
                    ops = operands(i)
                    if i.op == 'call': ops = ops[1:]
                    for o in ops:
                        if isinstance(o, list) and o and o[0] == 'F': s[o[1]].append((f, i))
            def walk(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == 'F': s[x[1]].append((None, None))
                    else:
                        for y in x: walk(y)
            for g in self.globals.values(): walk(g['init'])
            self._addr = s
        return self._addr

    # --- indirect calls: functions stored into the same struct member (directly or through a setter's argument)
    def slots(self):
        """(struct, field) -> set of function names that may be stored there"""
        if hasattr(self, '_slots'): return self._slots
        sl = defaultdict(set)
        setter = defaultdict(set)     # (fn, argno) -> slots
        stores = []
        for f in self.fns.values():
            for i in f.insts:
                if i.op == 'store':
                    lf = lastfield(f.expr(i.x[1]))
                    if not lf: continue
                    for v in f.phi_leaves(i.x[0]):
                        e = f.expr(v)
                        if e[0] == 'F': sl[lf].add(e[1])
                        elif e[0] == 'arg': setter[(f.name, e[1])].add(lf)
                        elif e[0] == 'ld':
                            l2 = lastfield(e[1])
                            if l2: stores.append((l2, lf))
        ch = True
        while ch:
            ch = False
            for f in self.fns.values():
                for i in f.calls():
                    c = i.callee
                    if not c: continue
                    for n, a in enumerate(i.args):
                        if (c, n) in setter:
                            for v in f.phi_leaves(a):
                                e = f.expr(v)
                                for lf in list(setter[(c, n)]):
                                    if e[0] == 'F' and e[1] not in sl[lf]: sl[lf].add(e[1]); ch = True
                                    elif e[0] == 'arg' and lf not in setter[(f.name, e[1])]: setter[(f.name, e[1])].add(lf); ch = True
                                    elif e[0] == 'ld':
                                        l2 = lastfield(e[1])
                                        if l2 and (l2, lf) not in stores: stores.append((l2, lf)); ch = True
            for a, b in stores:
                if sl[a] - sl[b]: sl[b] |= sl[a]; ch = True
        # struct copies share slots: same field name in nested copies is keyed by struct already
        self._slots = sl
        return sl

    def targets(self, f, i):
        """functions (names) a call may reach; direct, or by slot; empty if unknown"""
        c = i.callee
        if c: return {c}
        r = set()
        for v in f.phi_leaves(i.x[0]):
            e = f.expr(v)
            if e[0] == 'ld':
                lf = lastfield(e[1])
                if lf: r |= self.slots().get(lf, set())
            elif e[0] == 'F': r.add(e[1])
        return r

    def threads(self):
        """all pthread_create calls of production code: (fn, inst, tid address expr, entry functions, argument operand)"""
        res = []
        for f in self.production():
            for i in f.calls('pthread_create'):
                ents = []
                for v in f.phi_leaves(i.args[2]):
                    e = f.expr(v)
                    if e[0] == 'F': ents.append(e[1])
                res.append((f, i, f.expr(i.args[0]), ents, i.args[3]))
        return res

    def callgraph(self, indirect=True):
        if not hasattr(self, '_cg'):
            g = {}
            for f in self.fns.values():
                s = set()
                for i in f.calls():
                    s |= self.targets(f, i)
                g.setdefault(f.name, set()).update(s)
            self._cg = g
        return self._cg

    def stored_by(self, name):
        """members stored to by a function or by those it calls"""
        if not hasattr(self, '_sb'): self._sb = {}; self._own_st = {}
        if name not in self._sb:
            s = set()
            for n in self.reachable_from([name]):
                for f in self.byname.get(n, ()):
                    if f not in self._own_st:
                        self._own_st[f] = {lastfield(f.expr(i.x[1])) for i in f.insts if i.op == 'store'} - {None}
                    s |= self._own_st[f]
            self._sb[name] = s
        return self._sb[name]

    def reachable_from(self, names):
        g = self.callgraph(); seen = set(); st = list(names)
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n); st.extend(g.get(n, ()))
        return seen


# ------------------------------------------------------------------ branch conditions

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def edge_fact(f, bb, succ_pos):
    """the comparison known true when leaving block bb by its succ_pos-th successor: (pred, lhs expr, rhs expr, lhs operand, rhs operand), or None"""
    t = f.blocks[bb][-1]
    if t.op == 'br' and len(t.x) == 3:
        return cond_fact(f, t.x[0], succ_pos == 0)
    if t.op == 'switch':
        e = f.expr(t.x[0])
        cases = t.x[2:]
        if succ_pos < len(cases):
            return ('eq', e, ('c', cases[succ_pos][0]), t.x[0], ['c', cases[succ_pos][0], 32])
        return ('notin', e, tuple(c[0] for c in cases), t.x[0], None)
    return None


def cond_fact(f, o, truth):
    while isinstance(o, int) and f.insts[o].op in ('freeze', 'zext', 'trunc', 'sext'):
        i = f.insts[o]
        if i.op == 'trunc':
            # a comparison kept in a bool
            j = f.insts[i.x[0]] if isinstance(i.x[0], int) else None
            if j is None or j.op != 'zext' or not isinstance(j.x[0], int) or f.insts[j.x[0]].ty != 'i1': break
            o = j.x[0]; continue
        o = i.x[0]
    if not isinstance(o, int): return None
    i = f.insts[o]
    if i.op == 'icmp':
        p, a, b = i.x
        # (x != 0) of a comparison: unfold
        if p in ('ne', 'eq') and f.const(b) == 0 and isinstance(a, int):
            v = f.val(a)
            if isinstance(v, Inst) and v.op == 'icmp':
                return cond_fact(f, v.idx, truth == (p == 'ne'))
            if isinstance(v, Inst) and v.op == 'xor' and v.ty == 'i1':
                return cond_fact(f, v.idx, truth == (p == 'ne'))
        if not truth: p = NEG.get(p, p)
        return (p, f.expr(a), f.expr(b), a, b)
    if i.op == 'xor' and f.const(i.x[1]) in (1, -1):
        return cond_fact(f, i.x[0], not truth)
    if i.op == 'trunc' or i.ty == 'i1':
        return ('ne' if truth else 'eq', f.expr(o), ('c', 0), o, ['c', 0, 1])
    return None


def atoms(f, bb, pos):
    """('all' | 'any', comparisons): those of a compound condition that all, or at least one of which, hold when leaving a block by an edge"""
    t = f.blocks[bb][-1]
    if t.op == 'br' and len(t.x) == 3: return compound(f, t.x[0], pos == 0)
    fa = edge_fact(f, bb, pos)
    return 'all', [fa] if fa else []


def compound(f, o, truth, depth=0):
    i = f.insts[o] if isinstance(o, int) else None
    while i is not None and i.op in ('freeze', 'zext', 'sext'):
        o = i.x[0]; i = f.insts[o] if isinstance(o, int) else None
    if i is not None and i.op == 'trunc' and i.ty == 'i1' and isinstance(i.x[0], int):
        j = f.insts[i.x[0]]
        if j.op == 'zext' and isinstance(j.x[0], int) and f.insts[j.x[0]].ty == 'i1': return compound(f, j.x[0], truth, depth + 1)
    if i is None or depth > 6: return 'all', []
    if i.op == 'icmp' and i.x[0] in ('eq', 'ne') and f.const(i.x[2]) == 0 and isinstance(i.x[1], int):
        v = f.val(i.x[1])
        if isinstance(v, Inst) and v.ty == 'i1' and v.op in ('select', 'and', 'or', 'xor', 'icmp'): return compound(f, v.idx, truth == (i.x[0] == 'ne'), depth + 1)
    if i.op == 'xor' and f.const(i.x[1]) in (1, -1): return compound(f, i.x[0], not truth, depth + 1)
    parts = None
    if i.ty == 'i1' and i.op == 'select':
        c, x, y = i.x
        if f.const(y) == 0: parts = ('and', c, x)
        elif f.const(x) in (1, -1): parts = ('or', c, y)
    elif i.ty == 'i1' and i.op in ('and', 'or'): parts = (i.op, i.x[0], i.x[1])
    if parts:
        want = 'all' if (parts[0] == 'and') == truth else 'any'
        res = []; whole = True
        for x in parts[1:]:
            m, at = compound(f, x, truth, depth + 1)
            if m == want or len(at) == 1: res += at
            else: whole = False
        # an alternative that could not be taken apart makes the list of alternatives useless
        if want == 'any' and not whole: return 'all', []
        if any(not compound(f, x, truth, depth + 1)[1] for x in parts[1:]) and want == 'any': return 'all', []
        return want, res
    fa = cond_fact(f, o, truth)
    return 'all', [fa] if fa else []


def guards(f, inst):
    """facts that hold whenever inst executes, from dominating branch edges (conditions are not re-validated for stores in between)"""
    res = []
    dom = f.dom()
    for b in dom[inst.bb]:
        ss = f.succs[b]
        if len(ss) < 2: continue
        for pos, s in enumerate(ss):
            if ss.count(s) > 1: continue
            # edge b->s dominates inst.bb iff s dominates it and s's only pred outside its own dominated region is b
            if s in dom[inst.bb] and all(p == b or s in dom[p] for p in f.preds[s]):
                fa = edge_fact(f, b, pos)
                if fa: res.append(fa + (b,))
        # a select-type 'and' of conditions was turned into control flow by the pass pipeline
    return res


def facts_at(f, inst):
    """comparisons that hold whenever inst executes, compound conditions taken apart"""
    res = []
    dom = f.dom()
    for b in dom[inst.bb]:
        ss = f.succs[b]
        if len(ss) < 2: continue
        for pos, s in enumerate(ss):
            if ss.count(s) > 1: continue
            if s in dom[inst.bb] and all(p == b or s in dom[p] for p in f.preds[s]):
                m, at = atoms(f, b, pos)
                if m == 'all' or len(at) == 1: res += [fa + (b,) for fa in at]
    return res


# ------------------------------------------------------------------ typestate exploration

class Explorer:
    """Forward exploration of (block, state) pairs. transfer(inst, state) -> list of states (or None for unchanged);
    edge(fn, bb, succpos, state) -> state or None (infeasible). Keeps a predecessor for each pair for path reports."""

    def __init__(self, f, transfer, edge=None, limit=60000):
        self.f = f; self.transfer = transfer; self.edge = edge; self.limit = limit
        self.pred = {}
        self.n = 0

    def run(self, start, start_bb=0, start_pos=0):
        f = self.f
        work = deque()
        key = (start_bb, start_pos, start)
        self.pred[key] = None
        work.append(key)
        exits = []
        while work:
            key = work.popleft()
            bb, pos, st = key
            self.key = key
            self.n += 1
            if self.n > self.limit:
                raise _model.AnalysisError('path exploration limit in %s' % f.name)
            states = [st]
            blk = f.blocks[bb]
            for p in range(pos, len(blk)):
                i = blk[p]
                new = []
                for s in states:
                    r = self.transfer(i, s)
                    if r is None: new.append(s)
                    else: new.extend(r)
                states = list(dict.fromkeys(new))
                if not states: break
            for s in states:
                t = blk[-1]
                if not f.succs[bb]:
                    exits.append((t, s, key))
                    continue
                for k, n in enumerate(f.succs[bb]):
                    s2 = self.edge(f, bb, k, s) if self.edge else s
                    if s2 is None: continue
                    nk = (n, 0, s2)
                    if nk not in self.pred:
                        self.pred[nk] = key
                        work.append(nk)
        return exits

    def path(self, key):
        out = []
        while key is not None:
            bb = key[0]
            l = [i.line for i in self.f.blocks[bb] if i.line]
            if l and (not out or out[-1] != l[0]): out.append(l[0])
            key = self.pred[key]
        return out[::-1]


def mentions_store(e, lf):
    return any(x[0] == 'fld' and (x[2], x[3]) == lf for x in subexprs(e))


class Facts:
    """Correlated branches: remembers outcomes of conditions that are tested more than once in a function, so that
    'if (x) lock(); ... if (x) unlock();' is one path each. A fact on memory dies when that member is stored to."""

    def __init__(self, f, P=None):
        cnt = defaultdict(int)
        self.P = P
        for bb in range(len(f.blocks)):
            t = f.blocks[bb][-1]
            if (t.op == 'br' and len(t.x) == 3):
                m, at = atoms(f, bb, 0)
                for fa in at: cnt[(fa[1], fa[2])] += 1
        self.keys = {k for k, n in cnt.items() if n > 1}

    def outcome(self, f, bb, pos, facts):
        """facts certain on this edge given those already known; None when the edge cannot be taken"""
        m, at = atoms(f, bb, pos)
        known = [fa for fa in at if fa[0] != 'notin']
        def contra(fa): return any((l, r) == (fa[1], fa[2]) and contradict(q, fa[0]) for l, r, q in facts)
        if m == 'all':
            return None if any(contra(fa) for fa in known) else at
        left = [fa for fa in at if fa[0] == 'notin' or not contra(fa)]
        if not left and at: return None
        return left if len(left) == 1 else []

    def assume(self, f, bb, pos, facts):
        """facts: frozenset of (lhs, rhs, pred). Returns new facts or None when contradictory."""
        sure = self.outcome(f, bb, pos, facts)
        if sure is None: return None
        return facts | {(fa[1], fa[2], fa[0]) for fa in sure if fa[0] != 'notin' and (fa[1], fa[2]) in self.keys}

    def kill(self, f, i, facts):
        if not facts: return facts
        if i.op == 'store':
            lf = lastfield(f.expr(i.x[1]))
            a = f.expr(i.x[1])
            return frozenset(x for x in facts if not ((lf and (mentions_store(x[0], lf) or mentions_store(x[1], lf))) or (not lf and any(y == a for y in subexprs(x[0])))))
        if i.op == 'phi':
            return frozenset(x for x in facts if not any(y == ('phi', i.idx) for y in subexprs(x[0])))
        if i.op == 'call' and i.callee and not i.callee.startswith('llvm.') and any(any(y[0] == 'ld' for y in subexprs(x[0])) for x in facts):
            # calls may change memory: keep facts on values, and on memory only for calls known not to matter
            if i.callee in PURE_CALLS: return facts
            if self.P:
                # what the called function and those it calls store to
                w = self.P.stored_by(i.callee)
                return frozenset(x for x in facts if not any(y[0] == 'ld' and (lastfield(y[1]) is None or lastfield(y[1]) in w) for y in subexprs(x[0])))
            return frozenset(x for x in facts if not any(y[0] == 'ld' for y in subexprs(x[0])))
        if i.op in ('call',) and i.callee is None:
            return frozenset(x for x in facts if not any(y[0] == 'ld' for y in subexprs(x[0])))
        return facts


PURE_CALLS = {'RKLog', 'usleep', 'printf', 'fprintf', 'snprintf', 'sprintf', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'gettimeofday', 'memcpy', 'memset',
              'pthread_join', 'pthread_create', 'free', 'malloc', 'fclose', 'strerror', 'RKTimevalDiff', 'time', 'fflush', 'sem_post', 'sem_wait'}


def contradict(p, q):
    ok = {'eq': {'eq', 'sle', 'sge', 'ule', 'uge'}, 'ne': {'ne', 'slt', 'sgt', 'sle', 'sge', 'ult', 'ugt', 'ule', 'uge'},
          'slt': {'slt', 'sle', 'ne'}, 'sgt': {'sgt', 'sge', 'ne'}, 'sle': {'sle', 'slt', 'eq', 'ne', 'sge'}, 'sge': {'sge', 'sgt', 'eq', 'ne', 'sle'},
          'ult': {'ult', 'ule', 'ne'}, 'ugt': {'ugt', 'uge', 'ne'}, 'ule': {'ule', 'ult', 'eq', 'ne', 'uge'}, 'uge': {'uge', 'ugt', 'eq', 'ne', 'ule'}}
    if p not in ok or q not in ok: return False
    return q not in ok[p]


def lastfield_of(e):
    """member a loaded value was read from"""
    return lastfield(e[1]) if e[0] == 'ld' else None
