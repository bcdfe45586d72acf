"""What a function uses behind a pointer argument, in terms of its other arguments, against what every caller passes."""
import rk, poly
from extent import extent

TYPED = {'RKGetComplexDataFromPulse': 8, 'RKGetSplitComplexDataFromPulse': 4, 'RKGetInt16CDataFromPulse': 4, 'RKGetUInt8DataFromRay': 1, 'RKGetInt16DataFromRay': 2, 'RKGetFloatDataFromRay': 4}


def base(f, o):
    """(operand the pointer derives from by steps, offset in bytes)"""
    off = {}
    for _ in range(30):
        if not isinstance(o, int): break
        i = f.insts[o]
        if i.op in rk.CASTS: o = i.x[0]
        elif i.op == 'getelementptr':
            for p in i.x[1]:
                if p[0] == 'f':
                    if p[4]: off = poly.add(off, {(): p[4]})
                else:
                    q = poly.poly(f.expr(p[1]))
                    if q is None: return None
                    q = poly.mul(q, {(): p[2]})
                    if q is None: return None
                    off = poly.add(off, q)
            o = i.x[0]
        else: break
    return o, off


def accesses(f, WRITES):
    """(instruction, pointer operand, length as polynomial, word)"""
    for i in f.insts:
        if i.op == 'call' and i.callee in WRITES:
            d, pos, s = WRITES[i.callee]
            n = {(): 1}
            for p in pos:
                q = poly.poly(f.expr(i.args[p]))
                n = None if q is None or n is None else poly.mul(n, q)
            if n is None: continue
            w = i.callee.split('.')[1] if i.callee.startswith('llvm') else i.callee
            if d is not None: yield i, i.args[d], n, w
            # a text copied at a bounded length need not be that long
            if s is not None and i.callee != 'strncpy': yield i, i.args[s], n, w
        elif i.op in ('load', 'store'):
            o = i.x[0] if i.op == 'load' else i.x[1]
            if isinstance(o, int) and f.insts[o].op == 'getelementptr':
                yield i, o, {(): i.x[2] if i.op == 'store' else width(i)}, 'access'


def width(i):
    return {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'p': 8, 'ptr': 8}.get(i.ty, 1)


def isarg(o): return isinstance(o, list) and len(o) == 2 and o[0] == 'a'


def arguments(p): return all(v[0] == 'arg' for v in poly.values(p))


def conditions(f, i):
    """comparisons between arguments and constants that hold where the access is made"""
    return [fa for fa in rk.facts_at(f, i) if fa[0] != 'notin' and fa[1][0] == 'arg' and fa[2][0] == 'c']


def needs(P, WRITES):
    """function name -> {(argument, polynomials over the arguments, conditions): text}"""
    res = {}
    for f in P.fns.values():
        if f.decl or not f.argty: continue
        poly.F[:] = [f]
        for i, o, n, w in accesses(f, WRITES):
            b = base(f, o)
            if b is None or not isarg(b[0]): continue
            end = poly.add(b[1], n)
            known = {('arg', k) for k in range(len(f.argty))}
            tops = poly.ceiling(f, end, known, i)
            tops = [t for t in tops if arguments(t)]
            if not tops: continue
            add(res, f.name, b[0][1], tops, [fa[:3] for fa in conditions(f, i)], '%s at %s' % (w, i.loc()))
    poly.F[:] = []
    return res


def key(t): return tuple(sorted(t.items(), key=str))


def add(res, name, n, tops, conds, text):
    k = (n, frozenset(key(t) for t in tops), tuple(conds))
    t = res.setdefault(name, {})
    if k in t or len(t) > 60: return False
    t[k] = text
    return True


def substitute(p, vals):
    """a polynomial over arguments with the caller's values in their place"""
    r = {}
    for m, c in p.items():
        q = {(): c}
        for v in m:
            x = vals[v[1]] if v[1] < len(vals) else None
            if x is None or q is None: return None
            q = poly.mul(q, x)
        if q is None: return None
        r = poly.add(r, q)
    return r


def impossible(conds, vals):
    for p, a, b in conds:
        x = vals[a[1]] if a[1] < len(vals) else None
        if x is None or x.keys() - {()}: continue
        v = x.get((), 0); c = b[1]
        ok = {'eq': v == c, 'ne': v != c, 'slt': v < c, 'sgt': v > c, 'sle': v <= c, 'sge': v >= c, 'ult': v < c, 'ugt': v > c, 'ule': v <= c, 'uge': v >= c}.get(p, True)
        if not ok: return True
    return False


def check(r, P, WRITES, steady, prefix=''):
    N = needs(P, WRITES)
    calls = {}
    for f in P.analysed():
        for i in f.calls():
            if i.callee: calls.setdefault(i.callee, []).append((f, i))
    work = [(n, k) for n, t in N.items() for k in t]
    done = set()
    r.count('needs_in_terms_of_arguments', len(work))
    while work:
        n, k = work.pop()
        arg, tops, conds = k
        for f, i in calls.get(n, ()):
            if arg >= len(i.args) or (f.rawname, i.idx, k) in done: continue
            done.add((f.rawname, i.idx, k))
            poly.F[:] = [f]
            vals = [poly.poly(f.expr(a)) for a in i.args]
            if impossible(conds, vals): continue
            b = base(f, i.args[arg])
            if b is None: continue
            ts = []
            for t in tops:
                t = substitute(dict(t), vals)
                if t is not None: ts.append(poly.add(t, b[1]))
            if len(ts) < len(tops): continue
            r.count('arguments_in_terms')
            how = N[n][k]
            if isarg(b[0]) and all(arguments(t) for t in ts):
                if add(N, f.name, b[0][1], ts, [], how): work.append((f.name, next(x for x in N[f.name] if x[0] == b[0][1] and x[1] == frozenset(key(t) for t in ts))))
                continue
            bl = poly.block(f, i.args[arg], i, P)
            if bl and bl[1] is not None:
                size, what = bl[1], bl[2]
            else:
                e = extent(P, f, i.args[arg])
                if e is None or e.sym is not None: continue
                size, what = {(): e.left}, e.what
                ts = [poly.add(t, b[1], -1) for t in ts]
            known = poly.values(size)
            out = []
            for t in ts: out += poly.ceiling(f, t, known, i) or []
            if not out or not steady(f, known | set().union(*[poly.values(t) for t in ts])): continue
            if all(poly.larger(t, size) for t in out):
                r.violation('%s%s:%s:%d' % (prefix, f.name, n, arg), '%s %s: %s uses %s bytes of %s (%s), which has %s' % (i.loc(), f.name, n, poly.show(f, out[0]), what, how, poly.show(f, size)))
    # data of pulses and rays: elements of a known size
    for f in P.analysed():
        poly.F[:] = [f]
        for i in f.calls():
            todo = []
            if i.callee in WRITES:
                d, pos, s = WRITES[i.callee]
                q = {(): 1}
                for p in pos:
                    x = poly.poly(f.expr(i.args[p])); q = poly.mul(q, x) if x is not None and q is not None else None
                todo = [(a, [q]) for a in (d, s) if a is not None and q]
            elif i.callee in N:
                vals = [poly.poly(f.expr(a)) for a in i.args]
                for arg, tops, conds in N[i.callee]:
                    ts = [substitute(dict(t), vals) for t in tops]
                    if arg < len(i.args) and all(t is not None for t in ts): todo.append((arg, ts))
            for a, ts in todo:
                b = base(f, i.args[a])
                if b is None or not isinstance(b[0], int): continue
                c = f.insts[b[0]]
                if c.op != 'call' or c.callee not in TYPED: continue
                r.count('transfers_of_elements')
                if all(any(m and k > TYPED[c.callee] for m, k in t.items()) for t in ts) and ts:
                    r.violation('%s%s:%s:elements' % (prefix, f.name, c.callee), '%s %s: %s is told there are %s bytes behind the answer of %s, whose elements have %d' % (i.loc(), f.name, i.callee, poly.show(f, ts[0]), c.callee, TYPED[c.callee]))
    poly.F[:] = []
