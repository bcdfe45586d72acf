"""C34: a text that lacks what is looked for, or ends early, is noticed.

(a) What a search in a text or a table answers (strchr, strstr, getenv, RKGetValueOfKey and every other kit function whose answer some caller
compares with NULL) is not used on a path where it may be NULL. (b) A loop that steps through a text until it meets certain characters also
ends at the terminator. (c) After the terminator has been met, nothing behind it is read or handed on."""
import rk, own, model
from r_c13 import Checked

SEARCHES = set('strchr strrchr strstr strcasestr strtok strtok_r strpbrk strsep memchr getenv fgets'.split())
KIT = {'RKGetValueOfKey', 'RKGetNextKeyValue', 'RKPreferenceFindKeyword', 'RKConfigWithId', 'RKExtractJSON', 'RKGetLatestRayIndex', 'RKCommandQueuePop', 'RKSweepEngineGetVacantProduct'}


def compared(f, i):
    """the result of the call is compared with NULL"""
    for u in f.users().get(i.idx, ()):
        u = f.insts[u] if isinstance(u, int) else u
        if u.op == 'icmp' and (f.const(u.x[2]) == 0 or f.const(u.x[1]) == 0 or isinstance(u.x[2], list) and u.x[2][0] == 'n'): return True
        if u.op == 'phi' and any(v.op == 'icmp' and f.expr(v.x[2]) == ('c', 0) for v in (f.insts[x] if isinstance(x, int) else x for x in f.users().get(u.idx, ()))): return True
    return False


def answers(P):
    """kit functions that may answer NULL, and are known to by someone who asks"""
    fresh = own.fresh_returners(P)
    called = {}
    for f in P.analysed():
        for i in f.calls():
            if i.callee: called.setdefault(i.callee, []).append((f, i))
    res = set()
    for f in P.fns.values():
        if f.decl or f.name in fresh or f.ret not in ('p', 'ptr'): continue
        if not any(i.op == 'ret' and i.x and any(f.expr(v) == ('c', 0) for v in f.phi_leaves(i.x[0])) for i in f.insts): continue
        if f.name in KIT or any(compared(g, i) for g, i in called.get(f.name, ())): res.add(f.name)
    return res


class Missing(Checked):
    """the C library's searches read what they are given"""
    def uses(self, i, c, n):
        if c in ('strtok', 'strtok_r') and n == 0: return False
        if c in ('strtol', 'strtoul', 'strtoull', 'strtouq', 'strtof', 'strtod') and n == 1: return False
        if c in ('realpath', 'time', 'setlocale'): return False
        return super().uses(i, c, n)


def literal(P, f, i):
    """the text searched is one written in the source that has the character"""
    o = i.args[0] if i.args else None
    e = f.expr(o) if o is not None else ('?',)
    want = f.const(i.args[1]) if len(i.args) > 1 else None
    root = rk.root(e)
    if e[0] == 's': return want is not None and chr(want) in e[1]
    if root[0] != 'loc': return False
    src = [j for j in f.calls() if (j.callee or '').startswith('llvm.memcpy') and rk.root(f.expr(j.args[0])) == root]
    wr = [j for j in f.insts if j.op == 'store' and rk.root(f.expr(j.x[1])) == root and f.dominates(j, i)]
    return len(src) == 1 and not wr and f.dominates(src[0], i) and f.expr(src[0].args[1])[0] in ('s', 'g')


# ------------------------------------------------------------------ stepping through a text

TRUE = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b, 'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b,
        'ult': lambda a, b: a < b, 'ugt': lambda a, b: a > b, 'ule': lambda a, b: a <= b, 'uge': lambda a, b: a >= b}


def character(f, o):
    """the load of one byte behind an operand, or None"""
    for _ in range(4):
        if not isinstance(o, int): return None
        i = f.insts[o]
        if i.op == 'load': return i if i.ty == 'i8' else None
        if i.op not in rk.CASTS: return None
        o = i.x[0]
    return None


def holds(fa, v):
    """is the comparison true of the character v?"""
    if fa[0] == 'notin': return v not in fa[2]
    b = fa[2]
    if b[0] != 'c' or fa[0] not in TRUE: return None
    c = b[1]
    if fa[0][0] == 'u' and c < 0: c &= 255
    return TRUE[fa[0]](v, c)


def offset(f, o):
    """(operand, constant) such that the value is that many bytes further"""
    k = 0
    while isinstance(o, int) and f.insts[o].op == 'getelementptr':
        i = f.insts[o]; p = i.x[1]
        if len(p) != 1 or p[0][0] not in ('p', 'i'): break
        c = f.const(p[0][1])
        if c is None: break
        k += c * p[0][2]; o = i.x[0]
    return o, k


def steps(f, h, body, ld):
    """the address of the character moves with the loop"""
    o, _ = offset(f, ld.x[0])
    if isinstance(o, int) and f.insts[o].op == 'phi' and f.insts[o].bb in body:
        for v, p in f.insts[o].x:
            if p in body:
                w, k = offset(f, v)
                if w == o and k: return True
        return False
    if isinstance(o, int) and f.insts[o].op == 'getelementptr':
        return any(x[0] == 'phi' and f.insts[x[1]].bb in body for x in rk.subexprs(f.expr(o)))
    return False


def scans(r, P):
    for f in P.analysed():
        for h, body in f.loops().items():
            out = [(b, k) for b in body for k, s in enumerate(f.succs[b]) if s not in body]
            chars = 0; ends = False; other = False; where = None; moving = False
            for b, k in out:
                m, at = rk.atoms(f, b, k)
                if not at: other = True
                vs = []
                for fa in at:
                    ld = character(f, fa[3]) if fa[3] is not None else None
                    v = holds(fa, 0) if ld is not None and ld.bb in body else None
                    if v is None: other = True; continue
                    chars += 1; where = where or ld; vs.append(v)
                    if steps(f, h, body, ld): moving = True
                if vs and (m == 'all' and all(vs) and len(vs) == len(at) or m == 'any' and any(vs)): ends = True
            if not chars or other or not moving: continue
            r.count('loops_through_a_text')
            # a branch inside the loop may leave it at the terminator by a chain of tests; the exits were judged one by one
            if not ends and not before(f, body, where): r.violation('%s:scan' % f.name, '%s %s: the loop steps through a text until it meets certain characters, and does not stop at its end' % (where.loc(), f.name))


def before(f, body, ld):
    """the text is one that was written in the source"""
    o, _ = offset(f, ld.x[0])
    es = [f.expr(v) for v in f.phi_leaves(o)] if isinstance(o, int) else []
    return bool(es) and all(e[0] == 's' for e in es)


class Past:
    """nothing behind the terminator is looked at"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.bad = []

    def where(self, o, al):
        q, k = offset(self.f, o)
        for x, d in al:
            if x == q: return k - d
        return None

    def tr(self, i, al):
        os = [i.x[0]] if i.op == 'load' else [i.x[1]] if i.op == 'store' else list(i.args) if i.op == 'call' and not (i.callee or '').startswith('llvm.dbg') else []
        for o in os:
            d = self.where(o, al)
            if d is None: continue
            if i.op == 'load' and d >= 1 or i.op == 'call' and d >= 1 and i.callee not in ('free',) and i.op != 'store': self.bad.append((i, d)); return []
            if i.op == 'store' and d == 0 or i.op == 'call' and d == 0 and i.callee in WRITERS: return []
            if i.op == 'store' and d >= 1: return []
        if i.op == 'call' and i.callee in WRITERS and i.args:
            # another text may be put where this one was
            e = rk.root(self.f.expr(i.args[0]))
            if any(isinstance(x, int) and rk.root(self.f.expr(x)) == e or x == i.args[0] for x, _ in al): return []
        return None

    def ed(self, f, b, k, al):
        m, at = rk.atoms(f, b, k)
        if m == 'all' or len(at) == 1:
            for fa in at:
                ld = character(f, fa[3]) if fa[3] is not None else None
                if ld is not None and self.where(ld.x[0], al) == 0 and holds(fa, 0) is False: return None
                # two pointers into the text compared
                if fa[0] != 'notin' and isinstance(fa[3], int) and isinstance(fa[4], int) and f.insts[fa[3]].ty == 'p' and (self.where(fa[3], al) is not None or self.where(fa[4], al) is not None): return None
        n = f.succs[b][k]; add = set(); rem = set()
        for i in f.blocks[n]:
            if i.op != 'phi': break
            for v, p in i.x:
                if p == b:
                    d = self.where(v, al)
                    if d is not None: add.add((i.idx, -d))
            rem |= {x for x in al if x[0] == i.idx}
        al = (al - rem) | add
        return frozenset(al) if al else None


WRITERS = {'strcpy', 'strncpy', 'sprintf', 'snprintf', 'strcat', 'memcpy', 'memmove', 'memset', 'read', 'recv', 'fgets', 'fread', 'strftime', 'vsnprintf', 'vsprintf'}


def past(r, P):
    for f in P.analysed():
        for b in range(len(f.blocks)):
            if len(f.succs[b]) < 2: continue
            for k, s in enumerate(f.succs[b]):
                m, at = rk.atoms(f, b, k)
                for fa in at:
                    if fa[0] != 'eq' or fa[2] != ('c', 0) or m != 'all' and len(at) > 1 and not all(character(f, x[3]) is not None for x in at if x[3] is not None): continue
                    ld = character(f, fa[3])
                    if ld is None: continue
                    p, k0 = offset(f, ld.x[0])
                    if not isinstance(p, (int, list)) or isinstance(p, list) and p[0] != 'a': continue
                    p = p if isinstance(p, int) else tuple(p)
                    if not isinstance(p, int): continue
                    r.count('terminators_met')
                    o = Past(P, f)
                    st = o.ed(f, b, k, frozenset([(p, k0)]))
                    if st is None: continue
                    try: rk.Explorer(f, o.tr, o.ed, limit=8000).run(st, s, 0)
                    except model.AnalysisError: r.count('too_many_paths'); continue
                    for i, d in o.bad:
                        r.violation('%s:past' % f.name, '%s %s: what follows the end of the text, found at %s, is %s' % (i.loc(), f.name, ld.loc(), 'read' if i.op == 'load' else 'handed to %s' % (i.callee or 'a function')))


def check(r):
    P = rk.Program()
    table = SEARCHES | answers(P)
    for f in P.analysed():
        for i in f.calls():
            if i.callee not in table: continue
            r.count('searches')
            if i.callee in SEARCHES and literal(P, f, i): r.count('in_constant_texts'); continue
            for t, how in Missing(P, f, i, 'text', 'ret', 'null').run():
                r.violation('%s:%s' % (f.name, i.callee), '%s %s: what %s answers, which is NULL when there is nothing, %s at %s' % (i.loc(), f.name, i.callee, how, t.loc()))
    scans(r, P)
    past(r, P)
    r.need('searches', 80); r.need('loops_through_a_text', 20); r.need('terminators_met', 40)
    r.explanation = 'Every search in a text or table whose answer may be NULL: the paths not behind a comparison that excludes NULL must not use the answer, nor hand it to a function that does. Every loop all of whose exits look at the character it has come to: one of them is taken at the terminator. Every branch that finds the terminator: on the paths behind it the places after the terminator are neither read nor handed on.'
    r.assumptions = ['gmtime and localtime answer for every time the radar meets', 'formatters answer NULL only when they are being shut down', 'loops that also have an exit of another kind are bounded by it']
