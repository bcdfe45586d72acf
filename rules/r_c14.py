"""C14: copies, clears, prints and reads of a length fixed by the program fit the object they go to (and come from)."""
import re
import rk, poly, handed, r_c10
from extent import extent, Ext
from collections import defaultdict

# function: (destination, length argument or tuple to multiply, source or None)
WRITES = {'llvm.memcpy.p0.p0.i64': (0, (2,), 1), 'llvm.memmove.p0.p0.i64': (0, (2,), 1), 'llvm.memset.p0.i64': (0, (2,), None), 'memcpy': (0, (2,), 1), 'memmove': (0, (2,), 1), 'memset': (0, (2,), None),
          'strncpy': (0, (2,), None), 'snprintf': (0, (1,), None), 'vsnprintf': (0, (1,), None), 'fgets': (0, (1,), None), 'fread': (0, (1, 2), None), 'read': (1, (2,), None), 'recv': (1, (2,), None),
          'recvfrom': (1, (2,), None), 'strftime': (0, (1,), None), 'gethostname': (0, (1,), None), 'getcwd': (0, (1,), None), 'inet_ntop': (2, (3,), None), 'readlink': (1, (2,), None),
          'SSL_read': (1, (2,), None), 'fwrite': (None, (1, 2), 0), 'write': (None, (2,), 1), 'send': (None, (2,), 1), 'sendto': (None, (2,), 1), 'bzero': (0, (1,), None)}


def length(f, i, pos):
    """('const', n) or ('sub', n, expr) for n - expr"""
    n = 1
    if len(pos) == 1:
        e = f.expr(i.args[pos[0]])
        if e[0] == 'c': return ('const', e[1])
        if e[0] == 'op' and e[1] == 'sub' and e[2][0] == 'c': return ('sub', e[2][1], e[3])
        if e[0] == 'op' and e[1] == 'add' and e[3][0] == 'c' and e[2][0] == 'op' and e[2][1] == 'sub' and e[2][2][0] == 'c': return ('sub', e[2][2][1] + e[3][1], e[2][3])
        return None
    for p in pos:
        c = f.const(i.args[p])
        if c is None: return None
        n *= c
    return ('const', n)


def run_of_members(P, e, n):
    """the names and sizes of the members from the one pointed to on, as far as they cover n bytes exactly; None otherwise"""
    if e.off or e.sym or not e.outer: return None
    s = P.structs.get(e.outer[0])
    if not s: return None
    out = []; on = False; b = 0
    for name, off, size, ty, dn in s['fields']:
        if name == e.outer[1]: on = True; b = off
        if not on: continue
        if off - b >= n: break
        if off - b + size > n: return None
        out.append((off - b, size, name, ty))
    return tuple(out) if on and out and out[-1][0] + out[-1][1] == n else None


class Pointer:
    """a pointer argument of a function and the bytes it is used for"""


def check(r):
    P = rk.Program()
    needs = {}            # (function, argument, offset) -> (bytes, text)
    for f in P.analysed():
        for i in f.calls():
            c = i.callee
            if c in WRITES: bounded(r, P, f, i, c, needs)
            elif c in ('strcpy', 'strcat', 'sprintf'): text(r, P, f, i, c, needs)
        indices(r, P, f)
        terms(r, P, f)
    handed.check(r, P, WRITES, steady)
    # what a function needs behind a pointer argument, every caller must supply
    ch = True; done = set()
    while ch:
        ch = False
        for f in P.analysed():
            for i in f.calls():
                for n, a in enumerate(i.args):
                    q = needs.get((i.callee, n))
                    if q is None or (f.rawname, i.idx, n, q[0]) in done: continue
                    done.add((f.rawname, i.idx, n, q[0]))
                    e = extent(P, f, a)
                    r.count('arguments_checked')
                    if e is None:
                        x = f.expr(a)
                        if x[0] == 'arg' and needs.get((f.name, x[1]), (0, ''))[0] < q[0]: needs[(f.name, x[1])] = q; ch = True
                        continue
                    if q[0] > (e.left if e.sym is None else e.size):
                        r.violation('%s:%s:%d' % (f.name, i.callee, n), '%s %s: %s is given %s, which holds %d bytes; it uses %d bytes of it (%s)' % (i.loc(), f.name, i.callee, e.what, e.left, q[0], q[1]))
    r.need('checked_dest', 250); r.need('checked_relative', 25); r.need('indexed_in_loops', 100); r.need('arguments_checked', 5); r.need('text_constants', 50)
    r.explanation = ('Every copy, clear, bounded print, read and write call in the analysed units whose length is a constant or "size minus offset": the length against the bytes from the destination (and source) pointer to the end of the local, array, global, constant '
                     'allocation or structure member it points into, taken from the debug types; string constants and fixed-size text fields copied with strcpy/strcat; strncpy that fills the whole field without a terminator; every array index that is a constant or runs in a loop with constant bounds; '
                     'and, at every call of a function that does one of these to its pointer argument, what the caller passes.')
    r.assumptions = ['text in a fixed-size character array is terminated within it', 'heap objects of a size computed at run time are judged only where length and size are written in the same terms, none of which is negative']


def bounded(r, P, f, i, c, needs):
    d, pos, s = WRITES[c]
    ln = length(f, i, pos)
    if ln is None: r.count('lengths_not_fixed'); return
    for what, a in (('dest', d), ('src', s)):
        if a is None: continue
        e = extent(P, f, i.args[a])
        if e is None:
            x = f.expr(i.args[a])
            if x[0] == 'arg' and ln[0] == 'const':
                k = (f.name, x[1])
                # a text copied at a bounded length need not be that long
                if what == 'src' and c == 'strncpy': continue
                if needs.get(k, (0, ''))[0] < ln[1]: needs[k] = (ln[1], '%s at %s' % (c.split('.')[1] if c.startswith('llvm') else c, i.loc()))
                r.count('needs_of_arguments')
            else: r.count('unknown_' + what)
            continue
        r.count('checked_' + what)
        cn = c.split('.')[1] if c.startswith('llvm') else c
        word = 'goes to' if what == 'dest' else 'comes from'
        if ln[0] == 'const':
            have = e.left if e.sym is None else e.size
            if ln[1] > have:
                # several members at once: the same run of members on both sides
                if s is not None and d is not None:
                    ed, es = extent(P, f, i.args[d]), extent(P, f, i.args[s])
                    if ed and es:
                        a1, a2 = run_of_members(P, ed, ln[1]), run_of_members(P, es, ln[1])
                        if a1 and a2 and [x[:2] + x[3:] for x in a1] == [x[:2] + x[3:] for x in a2]: r.count('runs_of_members'); continue
                elif s is None and run_of_members(P, e, ln[1]): r.count('runs_of_members'); continue
                r.violation('%s:%s:%s' % (f.name, cn, e.what), '%s %s: %s of %d bytes %s %s, which has %d' % (i.loc(), f.name, cn, ln[1], word, e.what, have))
            elif c == 'strncpy' and e.sym is None and ln[1] >= e.left and what == 'dest': terminated(r, P, f, i, e, ln[1])
        elif e.sym is not None and e.sym[0] == 1 and e.sym[1] == ln[2]:
            r.count('checked_relative')
            if ln[1] + e.off > e.size: r.violation('%s:%s:%s' % (f.name, cn, e.what), '%s %s: %s is told there are %d bytes less the offset, but %s has only %d' % (i.loc(), f.name, cn, ln[1] + e.off, e.what, e.size))


def terms(r, P, f):
    """lengths and positions in a block this function has allocated, in the same terms as its size"""
    poly.F[:] = [f]
    for i in f.insts:
        if i.op == 'call' and i.callee == 'strcpy':
            b = poly.block(f, i.args[0], i, P)
            if b and b[1] is not None: tell(r, f, i, b, poly.add(poly.poly(('strlen', f.expr(i.args[1]))), {(): 1}), 'strcpy')
        elif i.op == 'call' and i.callee in WRITES:
            d, pos, s = WRITES[i.callee]
            n = {(): 1}
            for p in pos:
                q = poly.poly(f.expr(i.args[p]))
                n = None if q is None or n is None else poly.mul(n, q)
            if n is None: continue
            for a in (d, s):
                if a is None: continue
                b = poly.block(f, i.args[a], i, P)
                if b is None or b[1] is None: continue
                tell(r, f, i, b, n, i.callee.split('.')[1] if i.callee.startswith('llvm') else i.callee)
        elif i.op in ('load', 'store') or i.op == 'call' and i.callee == 'posix_memalign':
            o = i.args[0] if i.op == 'call' else i.x[0] if i.op == 'load' else i.x[1]
            if not isinstance(o, int) or f.insts[o].op != 'getelementptr': continue
            b = poly.block(f, o, i, P)
            if b is None or b[1] is None: continue
            tell(r, f, i, b, {(): i.x[2] if i.op == 'store' else 8 if i.op == 'call' else 1}, 'access')


def stored(f):
    """address -> instructions that may change what is there"""
    if not hasattr(f, '_stored'):
        f._stored = {}
        for j in f.insts:
            if j.op == 'store': f._stored.setdefault(f.expr(j.x[1]), []).append(j)
            elif j.op == 'call':
                for x in j.args:
                    e = f.expr(x)
                    if e[0] in ('loc', 'fld', 'idx'): f._stored.setdefault(e, []).append(j)
    return f._stored


def steady(f, values):
    """nothing changes the values read from memory once they have been read"""
    for v in values:
        for x in rk.subexprs(v):
            if x[0] == 'ld' and any(l.op == 'load' and f.expr(l.x[0]) == x[1] and any(f.reaches(l, j) for j in stored(f).get(x[1], ())) for l in f.insts): return False
    return True


def tell(r, f, i, b, n, what):
    off, size = b[0], b[1]
    end = poly.add(off, n)
    r.count('in_terms_of_the_size')
    known = poly.values(size)
    if not steady(f, known | poly.values(end)): return
    tops = poly.ceiling(f, end, known, i)
    if tops and all(poly.larger(t, size) for t in tops):
        r.violation('%s:%s:%s:terms' % (f.name, what, b[2]), '%s %s: %s up to byte %s of %s, which has %s' % (i.loc(), f.name, what, poly.show(f, tops[0]), b[2], poly.show(f, size)))


def terminated(r, P, f, i, e, n):
    """strncpy over the whole field: the source is known to be shorter, or a terminator is stored afterwards"""
    r.count('strncpy_over_the_whole_field')
    es = extent(P, f, i.args[1])
    if es is not None and es.sym is None and es.left <= n: return
    if es is not None and es.sym is not None and es.size <= n: return
    a = f.expr(i.args[0])
    base = a[1] if a[0] == 'idx' and a[2] == ('c', 0) else a
    for j in f.insts:
        if j.op == 'store' and f.const(j.x[0]) == 0 and f.dominates(i, j):
            b = f.expr(j.x[1])
            if b[0] == 'idx' and (b[1] == base or b[1] == a): return
    r.violation('%s:strncpy:%s:unterminated' % (f.name, e.what), '%s %s: strncpy may fill all %d bytes of %s and leave no room for the terminator' % (i.loc(), f.name, n, e.what))


def text(r, P, f, i, c, needs):
    """a string constant, or the contents of a fixed-size field, copied without a length"""
    src = i.args[1]
    if c == 'sprintf':
        v = f.val(src)
        if not (isinstance(v, list) and v[0] == 's') or '%' in v[1].replace('%%', ''): return
    es = []
    for v in f.phi_leaves(src):
        e = extent(P, f, v)
        if e is None: return
        lit = isinstance(v, list) and v[0] == 's'
        es.append((e, lit))
    if not es: return
    e = extent(P, f, i.args[0])
    for x, lit in es:
        r.count('text_constants' if lit else 'text_fields')
        if e is None:
            a = f.expr(i.args[0])
            if a[0] == 'arg' and lit and c != 'strcat' and needs.get((f.name, a[1]), (0, ''))[0] < x.left: needs[(f.name, a[1])] = (x.left, '%s at %s' % (c, i.loc()))
            continue
        have = e.left if e.sym is None else e.size
        if lit and x.left > have: r.violation('%s:%s:%s' % (f.name, c, e.what), '%s %s: a text of %d bytes is copied to %s, which has %d' % (i.loc(), f.name, x.left, e.what, have))
        if not lit and c == 'strcpy' and x.sym is None and x.left > have and not measured(f, i, src, have):
            r.violation('%s:%s:%s:%s' % (f.name, c, x.what, e.what), '%s %s: the text in %s, up to %d bytes, is copied to %s, which has %d' % (i.loc(), f.name, x.what, x.left, e.what, have))


def measured(f, i, src, have):
    """the length of the text was compared before"""
    a = f.expr(src)
    for fa in rk.facts_at(f, i):
        if fa[0] == 'notin': continue
        for x, y, p in ((fa[1], fa[2], fa[0]), (fa[2], fa[1], rk.SWAP.get(fa[0], fa[0]))):
            if x[0] == 'call' and x[1] == 'strlen' and f.expr(f.insts[x[2]].args[0]) == a and y[0] == 'c':
                top = y[1] if p in ('eq', 'ule', 'sle') else y[1] - 1 if p in ('ult', 'slt') else None
                if top is not None and top < have: return True
    return False


def indices(r, P, f):
    for i in f.insts:
        if i.op != 'getelementptr': continue
        for p in i.x[1]:
            if p[0] != 'i': continue
            n = p[3]
            if n <= 1: continue
            e = f.expr(p[1])
            if e[0] == 'c':
                # the address just past the end may be formed, not used
                if e[1] > n or e[1] == n and used(f, i): r.violation('%s:index:%d' % (f.name, e[1]), '%s %s: element %d of an array of %d' % (i.loc(), f.name, e[1], n))
                r.count('constant_indices'); continue
            if e[0] == 'phi':
                s = r_c10.span(f, e)
                if s and isinstance(s[1], int) and isinstance(s[0], int):
                    r.count('indexed_in_loops')
                    if s[1] > n and used(f, i): r.violation('%s:loop:%s' % (f.name, rk.show(f.expr(i.idx), f)), '%s %s: a loop runs to %d over an array of %d elements' % (i.loc(), f.name, s[1], n))


def used(f, i):
    return any(u.op in ('load', 'store', 'call') for u in f.users().get(i.idx, ()))
