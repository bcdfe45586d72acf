"""C15: no table of fixed size is indexed outside its bounds.

Every index into an array whose size the type fixes (members, locals, globals) is bounded from the comparisons that dominate the
access, the bounds kept by every store to the members it comes from, the arguments of every call, and loop limits (rules/bounds.py).
An index is reported when its derivation is complete and leaves room for a value outside of the array."""
import sys
import rk, bounds, extent, poly, handed, r_c14

sys.setrecursionlimit(20000)
LIM = 1 << 40


def what(f, i, n):
    """name of the array indexed by path entry n of a getelementptr"""
    e = f.expr(i.idx)
    while e[0] == 'idx':
        base = e[1]
        if base[0] != 'idx': break
        e = base
    lf = rk.lastfield(e)
    if lf: return '%s.%s' % lf
    r = rk.root(e)
    return r[2] if r[0] == 'loc' else str(r[1]) if r[0] == 'g' else rk.show(e, f)


def sites(P):
    for f in P.analysed():
        for i in f.insts:
            if i.op != 'getelementptr': continue
            for n, p in enumerate(i.x[1]):
                if p[0] == 'i' and p[3] > 1 and f.expr(p[1])[0] != 'c': yield f, i, n, p[1], p[3]
                elif p[0] == 'p' and n == 0 and p[2] and f.expr(p[1])[0] != 'c' and accessed(f, i):
                    # a block whose size is fixed where it is acquired
                    x = block(P, f, i.x[0])
                    if x and x // p[2] > 1: yield f, i, n, p[1], x // p[2]


def accessed(f, i):
    """something is read or written at the element itself"""
    if not hasattr(f, '_accessed'):
        f._accessed = {j.x[0] if j.op == 'load' else j.x[1] for j in f.insts if j.op in ('load', 'store') and isinstance(j.x[0] if j.op == 'load' else j.x[1], int)}
        f._accessed |= {a for j in f.calls() if j.callee and not j.callee.startswith(('llvm.dbg', 'llvm.lifetime')) for a in j.args if isinstance(a, int)}
        for j in reversed(f.insts):
            if j.op == 'getelementptr' and j.idx in f._accessed and isinstance(j.x[0], int): f._accessed.add(j.x[0])
    return i.idx in f._accessed


def block(P, f, o):
    """bytes of the block acquired with a constant size that an operand points to the start of"""
    if not isinstance(o, int): return None
    i = f.insts[o]
    if not (i.op in ('load', 'phi', 'select') or i.op == 'call' and i.callee in ('malloc', 'calloc')): return None
    e = extent.extent(P, f, o)
    if e is None and i.op == 'load':
        q = poly.members(P).get(rk.lastfield(f.expr(i.x[0])))
        if q and not q.keys() - {()}: return q[()]
    return e.left if e and not e.sym else None


def show(v): return 'unlimited' if v is None or abs(v) > LIM else str(v)


def check(r):
    P = rk.Program()
    B, S = bounds.Bounds(P), bounds.Bounds(P, True)
    done = set()
    for f, i, n, o, size in sites(P):
        name = what(f, i, n)
        if name.endswith('fds_bits'): continue
        r.count('indices')
        up, lo = B.upper(f, o, i), B.lower(f, o, i)
        if up is not None and lo is not None and up < size and lo >= 0:
            r.count('proven_inside')
            r.sample('%s %s: %s of %d, index %d to %d' % (i.loc(), f.name, name, size, lo, up))
            continue
        up, lo = S.upper(f, o, i), S.lower(f, o, i)
        if up is not None and lo is not None and up < size and lo >= 0: r.count('proven_inside'); continue
        if up is not None and up >= size or lo is not None and lo < 0:
            r.count('outside')
            k = (f.name, name)
            if k in done: continue
            done.add(k)
            r.violation('%s:%s' % k, '%s %s: %s has %d elements, its index %s may be %s' % (i.loc(), f.name, name, size, rk.show(f.expr(o), f),
                        ('up to ' + show(up)) if up is not None and up >= size else ('as low as ' + ('any negative value' if lo < -LIM else str(lo)))))
        elif any((c := f.const(v)) is not None and size <= c < LIM for v in f.phi_leaves(o)) and accessed(f, i):
            r.count('outside')
            r.violation('%s:%s' % (f.name, name), '%s %s: %s has %d elements, its index may be %d' % (i.loc(), f.name, name, size, max(c for v in f.phi_leaves(o) if (c := f.const(v)) is not None)))
        else:
            r.count('not_decided')
            r.sample('not decided: %s %s: %s[%s]' % (i.loc(), f.name, name, rk.show(f.expr(o), f)[:60]))
    handed.check(r, P, r_c14.WRITES, r_c14.steady)
    r.need('indices', 800)
    r.need('proven_inside', 700)
    r.explanation = 'each index into an array of fixed size, with the interval derived for it'
    r.assumptions = ['threads other than the one running do not change a counter between the comparison and the access',
                     'a parameter of a function that is not static, and text converted to a number, may have any value',
                     'an index whose origin is not understood (not_decided) is not reported', 'bits of descriptor sets (FD_SET) are not judged']
