"""C22: the letters that select streams.

Readers are found in the code: a switch over a character whose cases put a stream bit into a 64-bit selection. Writers: a one-letter text written
under a test of a stream bit. Every reader keeps what the letters before have selected (only the exclusive status field is replaced); every letter
written is read back as the stream it was written for; every stream a letter selects is written; no two letters written are the same."""
import rk, r_c28


def strip(f, o):
    while isinstance(o, int) and f.insts[o].op in ('zext', 'sext', 'trunc'): o = f.insts[o].x[0]
    return o


class Letters:
    def __init__(self, P, r):
        self.P = P; self.r = r
        self.v = r_c28.enumerators(['RKStream'], [])
        self.exclusive = self.v['RKStreamStatusMask'] & 0xffffffffffffffff
        self.name = {}
        for n, x in self.v.items():
            x &= 0xffffffffffffffff
            if x & (x - 1) == 0 and x > self.exclusive or 0 < x < self.exclusive: self.name.setdefault(x, n)

    def show(self, x): return self.name.get(x, hex(x))

    # ---- reading
    def contribution(self, f, o, acc, depth=0):
        """(kept mask, added bits) of a 64-bit value relative to the selection so far, or None"""
        if depth > 8: return None
        if isinstance(o, list):
            return (0, o[1] & 0xffffffffffffffff) if o[0] == 'c' else None
        if o == acc: return 0xffffffffffffffff, 0
        i = f.insts[o]
        if i.op in ('or', 'and', 'xor'):
            a = self.contribution(f, i.x[0], acc, depth + 1); b = self.contribution(f, i.x[1], acc, depth + 1)
            if a is None or b is None: return None
            if b[0] and not a[0]: a, b = b, a
            if b[0]: return None
            c = b[1]
            if i.op == 'or': return a[0] & ~c & 0xffffffffffffffff | a[0] & c, a[1] | c
            if i.op == 'and': return a[0] & c, a[1] & c
            return None
        return None

    def reads(self, f):
        out = {}
        for sw in f.insts:
            if sw.op != 'switch' or len(sw.x) < 7: continue
            c = strip(f, sw.x[0])
            if not (isinstance(c, int) and f.insts[c].ty == 'i8' and f.insts[c].op == 'load'): continue
            phis = [i for i in f.insts if i.op == 'phi' and i.ty == 'i64']
            for value, target in sw.x[2:]:
                if not 32 < value < 127: continue
                for ph in phis:
                    # the merged selection: the value that comes in from this case
                    for v, b in ph.x:
                        if not (b == target or b == sw.bb and ph.bb == target): continue
                        acc = self.accumulator(f, ph)
                        if acc is None: continue
                        m = self.contribution(f, v, acc)
                        if m is None or m == (0xffffffffffffffff, 0) and b != target: continue
                        out.setdefault(chr(value), []).append((m, f.insts[v] if isinstance(v, int) else f.blocks[b][-1]))
        return out

    def accumulator(self, f, ph):
        """the selection before the letter: a phi of a loop that the merged value goes back to"""
        for u in f.users().get(ph.idx, ()):
            if u.op == 'phi' and any(v == ph.idx for v, _ in u.x) and u.bb in f.loops() and ph.bb in f.loops()[u.bb]: return u.idx
        if ph.bb in f.loops(): return ph.idx
        return None

    # ---- writing
    def writes(self, f):
        out = []
        for i in f.insts:
            s = None
            if i.op == 'call' and i.callee in ('sprintf', 'snprintf', 'strcat', 'strcpy'):
                for a in i.args[1:]:
                    e = f.expr(a)
                    if e[0] == 's' and len(e[1]) == 1 and e[1] != '%': s = e[1]
            elif i.op == 'store' and len(i.x) > 3 and i.x[3] == 'i8' and isinstance(i.x[0], list) and i.x[0][0] == 'c' and 32 < i.x[0][1] < 127: s = chr(i.x[0][1])
            if not s: continue
            t = []
            for fa in rk.facts_at(f, i):
                for a, b in ((fa[1], fa[2]), (fa[2], fa[1])):
                    if b[0] != 'c' or a[0] != 'op' or a[1] != 'and': continue
                    for x, m in ((a[2], a[3]), (a[3], a[2])):
                        if m[0] != 'c': continue
                        k = m[1] & 0xffffffffffffffff
                        if fa[0] == 'ne' and b[1] == 0: t.append((x, k, 'some'))
                        if fa[0] == 'eq' and b[1] & 0xffffffffffffffff: t.append((x, b[1] & 0xffffffffffffffff, 'is' if k == self.exclusive else 'some'))
            t = [q for q in t if q[0] == ('arg', 1) or q[0][0] in ('arg', 'ld')]
            if t: out.append((s, t[-1], i))
        return out


def check(r):
    P = rk.Program()
    L = Letters(P, r)
    readers = {}; writers = {}
    for f in P.analysed():
        if 'RKStream' not in f.name and not any(t in ('i64',) for t in f.argty) and f.name not in P.byname: continue
        m = L.reads(f)
        if sum(1 for l in m.values() for (k, add), _ in l if add in L.name) >= 10: readers[f.name] = (f, m)
        w = L.writes(f)
        if sum(1 for _, (x, b, how), _ in w if b in L.name and b >> 32) >= 5: writers[f.name] = (f, w)
    for n, (f, m) in readers.items():
        for c, l in m.items():
            for (keep, add), i in l:
                if not add: continue
                r.count('letters_read')
                if add & (add - 1) and not add < L.exclusive:
                    r.violation('%s:several:%s' % (n, c), '%s %s: the letter %s selects %#x, more than one stream' % (i.loc(), n, c, add))
                lost = ~keep & 0xffffffffffffffff & ~add
                if add < L.exclusive: lost &= ~L.exclusive; kind = 'exclusive'
                else: kind = 'other'
                if lost:
                    r.violation('%s:drops:%s' % (n, c), '%s %s: the letter %s adds %s and throws away what was selected before (it keeps only %#x)' % (i.loc(), n, c, L.show(add), keep & 0xffffffffffffffff))
                elif add < L.exclusive and keep & L.exclusive & ~add:
                    r.violation('%s:mixes:%s' % (n, c), '%s %s: the letter %s sets the exclusive status %s without clearing the one selected before' % (i.loc(), n, c, L.show(add)))
                else: r.sample('%s %s: %s selects %s' % (i.loc(), n, c, L.show(add)))
        back = {}
        for c, l in m.items():
            for (keep, add), i in l:
                if add: back.setdefault(add, []).append(c)
        for a, cs in back.items():
            if len(cs) > 1: r.violation('%s:twice:%s' % (n, L.show(a)), '%s: %s is selected by %s, and some other stream is not' % (n, L.show(a), ' and '.join(cs)))
        for w, (g, ws) in writers.items():
            written = {}
            for s, (x, b, how), i in ws:
                r.count('letters_written')
                if b < L.exclusive and how == 'some' :
                    r.violation('%s:exclusive:%s' % (w, s), '%s %s: %s is a value of the exclusive status field, but it is looked for as a bit' % (i.loc(), w, L.show(b)))
                written.setdefault(b, []).append(s)
                got = {add for (keep, add), _ in m.get(s, ())}
                if b not in got:
                    r.violation('%s:letter:%s' % (w, L.show(b)), '%s %s: for %s the letter %s is written, which selects %s when it is read' % (i.loc(), w, L.show(b), s, ', '.join(L.show(x) for x in got) or 'nothing'))
            for a, cs in back.items():
                if a not in written and a != L.v.get('RKStreamStatusTerminalChange', 0) & 0xffffffffffffffff:
                    r.violation('%s:missing:%s' % (w, L.show(a)), '%s: the stream %s, which the letter %s selects, is not written' % (w, L.show(a), cs[0]))
    r.explanation = ('The analysis interprets every case of the readers of stream letters over the bits of the selection so far, and pairs them with the letters written under tests of those bits. '
                     'It found %d readers and %d writers.' % (len(readers), len(writers)))
    r.assumptions = ['The letter that changes the terminal (RKStreamStatusTerminalChange) is an action, not a stream; it need not be written.']
