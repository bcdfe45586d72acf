"""How many bytes there are at a pointer: from types of locals, members, globals and constant allocations."""
import re
import rk

class Ext:
    """remaining bytes at a pointer. size: of the member or array pointed into; off: constant offset into it, or (constant, expr) when symbolic"""
    __slots__ = ('size', 'off', 'sym', 'what', 'outer')

    def __init__(self, size, off=0, sym=None, what='', outer=None):
        self.size, self.off, self.sym, self.what, self.outer = size, off, sym, what, outer

    @property
    def left(self): return self.size - self.off


def extent(P, f, o, depth=0):
    """Ext of a pointer operand, or None"""
    if depth > 20: return None
    if isinstance(o, list):
        if o[0] == 'g':
            g = P.globals.get(o[1])
            return Ext(g['size'], 0, None, o[1]) if g and 'size' in g else None
        if o[0] == 's': return Ext(len(o[1]) + 1, 0, None, 'text')
        if o[0] == 'G': return walk(P, f, extent(P, f, o[1], depth + 1), o[2])
        if o[0] == 'E' and len(o) == 3: return extent(P, f, o[2], depth + 1)
        return None
    i = f.insts[o]
    if i.op == 'alloca':
        s = allocasize(P, f, i)
        return Ext(s, 0, None, f.vars.get(i.idx, ['?'])[0]) if s else None
    if i.op in rk.CASTS: return extent(P, f, i.x[0], depth + 1)
    if i.op == 'getelementptr':
        return walk(P, f, extent(P, f, i.x[0], depth + 1), i.x[1])
    if i.op == 'call' and i.callee in ('malloc', 'calloc'):
        s = f.const(i.args[0])
        if i.callee == 'calloc':
            t = f.const(i.args[1])
            s = s * t if s is not None and t is not None else None
        return Ext(s, 0, None, i.callee) if s else None
    if i.op == 'load':
        # a local that holds one block for good
        n = held(f, i)
        return Ext(n, 0, None, f.expr(i.x[0])[2]) if n else None
    if i.op in ('phi', 'select'):
        es = [extent(P, f, v, depth + 1) for v in f.phi_leaves(o) if not (isinstance(v, list) and v[0] in ('n', 'c'))]
        # a pointer that walks through a buffer has no fixed place in it
        if any(e is None for e in es) or not es: return None
        if any(derives(f, v, o) for v in f.phi_leaves(o)): return None
        return min(es, key=lambda e: e.left)
    return None


def held(f, i):
    """bytes of the block that posix_memalign has put into the local loaded by i, when nothing else is ever put there"""
    a = f.expr(i.x[0])
    if a[0] != 'loc': return None
    if not hasattr(f, '_held'): f._held = {}
    if a not in f._held:
        n = None
        for j in f.insts:
            if j.op == 'store' and f.expr(j.x[1]) == a: n = None; break
            if j.op == 'call' and any(f.expr(x) == a for x in j.args):
                if j.callee != 'posix_memalign' or f.expr(j.args[0]) != a:
                    if (j.callee or '').startswith('llvm.lifetime'): continue
                    n = None; break
                c = f.const(j.args[2])
                if c is None or n is not None and n != c: n = None; break
                n = c
        f._held[a] = n
    return f._held[a]


def derives(f, v, o, depth=0):
    while isinstance(v, int) and depth < 20:
        if v == o: return True
        i = f.insts[v]
        if i.op == 'getelementptr' or i.op in rk.CASTS: v = i.x[0]
        else: return False
        depth += 1
    return False


def allocasize(P, f, i):
    n = f.const(i.x[0])
    return i.x[1] * n if n is not None else None


def walk(P, f, e, path):
    for k, p in enumerate(path):
        if p[0] == 'f':
            # a member of a structure: from here on the member is the object
            size = p[5]
            # what is left of the enclosing object from this member on
            outer = (p[1], p[3])
            e = Ext(size, 0, None, '%s.%s' % (p[1], p[3]), outer)
        elif p[0] == 'i':
            # element of an array: p = ['i', index, element size, number of elements]
            c = f.const(p[1])
            elem, total = p[2], p[2] * p[3]
            if e is None or e.size != total or e.off or e.sym: e = Ext(total, 0, None, e.what if e else 'array', e.outer if e else None)
            if c is not None: e = Ext(total, c * elem, None, e.what, e.outer)
            elif elem > 1 and k + 1 < len(path): e = Ext(elem, 0, None, e.what + '[]', None)
            else: e = Ext(total, 0, (elem, f.expr(p[1])), e.what, e.outer)
        elif p[0] == 'p':
            # pointer arithmetic: ['p', index, element size]
            if e is None: return None if k + 1 >= len(path) else (None or _rest(P, f, path[k + 1:]))
            c = f.const(p[1])
            if c is not None: e = Ext(e.size, e.off + c * p[2], e.sym, e.what, e.outer)
            elif e.sym: return None
            else: e = Ext(e.size, e.off, (p[2], f.expr(p[1])), e.what, e.outer)
    return e


def _rest(P, f, path):
    return walk(P, f, None, path)
