"""Sizes and lengths in the same terms: polynomials over the values of a function, and what they say about a block allocated in it."""
import rk


F = []     # the function at hand (lengths of texts are named by the text)


def poly(e, depth=0):
    """{monomial (sorted tuple of value expressions): coefficient}, or None"""
    if e[0] == 'c': return {(): e[1]} if e[1] else {}
    if e[0] == 'op' and depth < 25:
        if e[1] in ('add', 'sub', 'mul'):
            a, b = poly(e[2], depth + 1), poly(e[3], depth + 1)
            if a is None or b is None: return None
            if e[1] == 'add': return add(a, b)
            if e[1] == 'sub': return add(a, b, -1)
            return mul(a, b)
        if e[1] == 'shl' and e[3][0] == 'c' and 0 <= e[3][1] < 40:
            a = poly(e[2], depth + 1)
            return None if a is None else {m: c << e[3][1] for m, c in a.items()}
    if e[0] == 'd': return None
    if e[0] == 'call' and e[1] == 'strlen' and F: e = ('strlen', F[-1].expr(F[-1].insts[e[2]].args[0]))
    return {(e,): 1}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=str))
            if len(k) > 4: return None
            r[k] = r.get(k, 0) + c * d
            if not r[k]: del r[k]
    return r


def show(f, p):
    return ' + '.join('%s%s' % (c if c != 1 or not m else '', ('*' if c != 1 else '') + '*'.join(rk.show(x, f) for x in m) if m else '') for m, c in sorted(p.items(), key=str)) or '0'


def larger(a, b):
    """a is more than b whatever the (not negative) values are: every coefficient of the difference, and one is in terms of b or constant"""
    d = add(a, b, -1)
    if not d or any(c < 0 for c in d.values()): return False
    return any(m in b or m == () for m in d)


ALLOCS = {'malloc': (0,), 'fftwf_malloc': (0,), 'calloc': (0, 1)}


def sizeof(f, call):
    if call.callee == 'posix_memalign': a = [call.args[2]]
    elif call.callee in ALLOCS: a = [call.args[k] for k in ALLOCS[call.callee]]
    elif call.callee == 'realloc': a = [call.args[1]]
    elif call.callee == 'aligned_alloc': a = [call.args[1]]
    else: return None
    p = {(): 1}
    for x in a:
        q = poly(f.expr(x))
        p = None if q is None or p is None else mul(p, q)
    return p


def assigned(f):
    """address expression -> the allocations of this function kept there (None: something else is kept there too)"""
    if hasattr(f, '_assigned'): return f._assigned
    t = {}
    for i in f.insts:
        if i.op == 'store' and i.x[2] == 8:
            a = f.expr(i.x[1])
            for v in f.phi_leaves(i.x[0]):
                e = f.expr(v)
                if e == ('c', 0) or e[0] == 'n': continue
                j = f.insts[v] if isinstance(v, int) else None
                if j is not None and j.op == 'call' and sizeof(f, j): t.setdefault(a, []).append((j, i))
                elif a in t or j is None or j.op != 'call' or True: t.setdefault(a, []).append(None)
        elif i.op == 'call' and i.callee == 'posix_memalign':
            t.setdefault(f.expr(i.args[0]), []).append((i, i))
    f._assigned = t
    return t


def subst(e, a, b):
    if e == a: return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in e) if isinstance(e, tuple) else e


def members(P):
    """(struct, member) -> the size that every block ever kept there has, in terms of the other members of the same object (('self',))"""
    if hasattr(P, '_memberblocks'): return P._memberblocks
    res = {}
    for f in P.analysed():
        F[:] = [f]
        for a, l in assigned(f).items():
            lf = rk.lastfield(a)
            if not lf: continue
            for x in l:
                if x is None or a[0] != 'fld': res[lf] = None; continue
                z = sizeof(f, x[0])
                if z is None: res[lf] = None; continue
                q = {}
                for m, c in z.items():
                    k = tuple(sorted((subst(v, a[1], ('self',)) for v in m), key=str))
                    q[k] = q.get(k, 0) + c
                own = all(v[0] == 'ld' and v[1][0] == 'fld' and v[1][1] == ('self',) for m in q for v in m)
                # the size was computed from what is stored in a member of the object: that member
                if not own: q = renamed(f, a, z, x[0])
                if q is None or lf in res and res[lf] != q: res[lf] = None
                elif lf not in res: res[lf] = q
    F[:] = []
    # where another pointer is put into the member, nothing is known
    P._memberblocks = {k: v for k, v in res.items() if v}
    return P._memberblocks


def renamed(f, a, z, call):
    """a size computed from values that are stored in members of the same object at the same time"""
    name = {}
    for i in f.insts:
        if i.op == 'store' and i.x[2] in (2, 4, 8):
            b = f.expr(i.x[1])
            if b[0] == 'fld' and b[1] == a[1]: name.setdefault(f.expr(i.x[0]), ('ld', ('fld', ('self',), b[2], b[3])))
    q = {}
    for m, c in z.items():
        k = []
        for v in m:
            s = subst(v, a[1], ('self',))
            if not (s[0] == 'ld' and s[1][0] == 'fld' and s[1][1] == ('self',)): s = name.get(v)
            if s is None: return None
            k.append(s)
        k = tuple(sorted(k, key=str)); q[k] = q.get(k, 0) + c
    return q


def block(f, o, at, P=None):
    """(offset in bytes, size in bytes) as polynomials, of an operand that points into a block this function has allocated"""
    off = {}
    n = 0
    while isinstance(o, int) and n < 30:
        n += 1
        i = f.insts[o]
        if i.op in rk.CASTS: o = i.x[0]
        elif i.op == 'getelementptr':
            for p in i.x[1]:
                if p[0] == 'f':
                    if p[4]: off = add(off, {(): p[4]})
                else:
                    q = poly(f.expr(p[1]))
                    if q is None: return None
                    off = add(off, mul(q, {(): p[2]}) or {})
            o = i.x[0]
        else: break
    if not isinstance(o, int): return None
    i = f.insts[o]
    if i.op == 'call': return (off, sizeof(f, i), i.callee, i) if sizeof(f, i) and i.callee != 'posix_memalign' else None
    if i.op == 'load':
        a = f.expr(i.x[0])
        s = assigned(f).get(a)
        if not s and P is not None and a[0] == 'fld':
            q = members(P).get(rk.lastfield(a))
            if not q: return None
            z = {}
            for m, c in q.items():
                k = tuple(sorted((subst(v, ('self',), a[1]) for v in m), key=str)); z[k] = z.get(k, 0) + c
            return (off, z, rk.show(a, f), i)
        if not s or None in s or len(s) != 1: return None
        call, st = s[0]
        if not f.dominates(st, i): return None
        z = sizeof(f, call)
        return (off, z, rk.show(a, f), call) if z else None
    return None


def most(f, e, at):
    """the largest values that the comparisons dominating an instruction leave for a value"""
    res = []
    for fa in rk.facts_at(f, at):
        if fa[0] == 'notin': continue
        for p, x, y in ((fa[0], fa[1], fa[2]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[1])):
            if x != e or not isinstance(y, tuple): continue
            q = poly(y)
            if q is None: continue
            if p == 'ne' and q.keys() - {()}: return []
            if p in ('slt', 'ult'): res.append(add(q, {(): 1}, -1))
            elif p in ('sle', 'ule'): res.append(q)
    return res


def ceiling(f, p, known, at):
    """polynomials not below p at an instruction: its values replaced by their largest, one way for each comparison; values in 'known' stay"""
    out = [p]
    for _ in range(4):
        nxt = []; again = False
        for q in out:
            v = next((x for m in q for x in m if x not in known and x[0] in ('phi', 'ld') and not (x[0] == 'ld' and not most(f, x, at))), None)
            if v is None: nxt.append(q); continue
            tops = most(f, v, at)
            if not tops: return []
            for t in tops:
                r = {}
                for m, c in q.items():
                    k = m.count(v)
                    u = {tuple(x for x in m if x != v): c}
                    for _ in range(k): u = mul(u, t) if u is not None else None
                    if u is None: return []
                    r = add(r, u)
                nxt.append(r)
            again = True
        out = nxt[:16]
        if not again: return out
    return []


def values(p):
    return {x for m in p for x in m}
