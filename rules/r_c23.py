"""C23: a product's bit, index, name and data belong together.

The meaning (Z, V, W, ...) of every product bit, product index and stream bit comes from the names of the enumerators in the headers. Wherever
the code acts on one of them under a test of another one, both must have the same meaning."""
import rk, r_c28
import re

GET = {'RKGetFloatDataFromRay': 'RKBaseProductListFloat', 'RKGetUInt8DataFromRay': 'RKBaseProductListUInt8'}


def meanings():
    v = r_c28.enumerators(['RKBaseProductIndex', 'RKBaseProductList', 'RKStreamProduct', 'RKStreamDisplay', 'RKStreamSweep'], [])
    letters = {n[len('RKBaseProductIndex'):] for n in v if n.startswith('RKBaseProductIndex')} - {'Count'}
    out = {}
    for n, x in v.items():
        for p in ('RKBaseProductIndex', 'RKBaseProductListFloat', 'RKBaseProductListUInt8', 'RKStreamProduct', 'RKStreamDisplay', 'RKStreamSweep'):
            if n.startswith(p) and n[len(p):] in letters: out.setdefault(p, {})[x] = n[len(p):]
    return out


def single(v): return v > 0 and v & (v - 1) == 0


def tested(facts):
    """[(expression tested, bit)] of the single bits known to be set"""
    res = []
    for fa in facts:
        if fa[0] == 'ne' and fa[2] == ('c', 0) and fa[1][0] == 'op' and fa[1][1] == 'and':
            for a, b in ((fa[1][2], fa[1][3]), (fa[1][3], fa[1][2])):
                if b[0] == 'c': res.append((a, b[1]))
        if fa[0] == 'eq' and fa[1][0] == 'op' and fa[1][1] == 'and' and fa[2][0] == 'c' and fa[2] in (fa[1][2], fa[1][3]):
            res.append((fa[1][2] if fa[1][3] == fa[2] else fa[1][3], fa[2][1]))
    return [(a, b & 0xffffffffffffffff) for a, b in res if single(b & 0xffffffffffffffff) or single(b & 0xffffffff)]


def named(facts):
    """strings known to be equal to something"""
    out = []
    for fa in facts:
        for a, b in ((fa[1], fa[2]), (fa[2], fa[1])):
            if fa[0] == 'eq' and b == ('c', 0) and a[0] == 'call' and a[1] in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'): out.append(a[2])
    return out


class Products:
    def __init__(self, P, r):
        self.P = P; self.r = r; self.M = meanings()
        self.lists = {}
        for p in GET.values(): self.lists.update(self.M[p])
        self.streams = {}
        for p in ('RKStreamProduct', 'RKStreamDisplay', 'RKStreamSweep'): self.streams.update(self.M[p])
        self.name = {}

    def letter(self, v, wide):
        return (self.streams if wide else self.lists).get(v & (0xffffffffffffffff if wide else 0xffffffff))

    def walk(self, f):
        r = self.r
        uses = {}            # list -> {bit: place}
        taken = {}
        for i in f.insts:
            if i.op == 'call' and i.callee in GET:
                for c, facts in self.constants(f, i.args[1], i):
                    M = self.M[GET[i.callee]]; want = [b for b, l in M.items() if l == self.M['RKBaseProductIndex'].get(c)]
                    t = [(x, b & 0xffffffff) for x, b in tested(facts) if (b & 0xffffffff) in M and self.islist(f, x)]
                    if not t: continue
                    r.count('deliveries')
                    for x, b in t: uses.setdefault(x, {})[b] = i
                    if not any(b in want for x, b in t):
                        r.violation('%s:%s:%s' % (f.name, i.callee, M[t[-1][1]]), '%s %s: the list is tested for product %s, but the data delivered are those of %s' % (i.loc(), f.name, M[t[-1][1]], self.M['RKBaseProductIndex'].get(c, c)))
                    else: r.sample('%s %s: %s tested and delivered' % (i.loc(), f.name, M[t[-1][1]]))
            if i.op in ('xor', 'and') and i.ty == 'i32':
                for a, b in ((i.x[0], i.x[1]), (i.x[1], i.x[0])):
                    if not (isinstance(b, list) and b[0] == 'c'): continue
                    v = b[1] & 0xffffffff
                    if i.op == 'and': v ^= 0xffffffff
                    if not single(v): continue
                    x = f.expr(a)
                    t = [bit & 0xffffffff for y, bit in tested(rk.facts_at(f, i)) if y == x]
                    if not t or not self.islist(f, x): continue
                    if not any(q in self.lists for q in t): continue
                    r.count('marked_done')
                    for q in t: taken.setdefault(x, {})[q] = i
                    if v not in t: r.violation('%s:done:%s' % (f.name, self.lists.get(t[-1])), '%s %s: the list is tested for product %s, but product %s is marked as done' % (i.loc(), f.name, self.lists.get(t[-1]), self.lists.get(v, hex(v))))
            if i.op == 'or' and i.ty in ('i32', 'i64'):
                for a, b in ((i.x[0], i.x[1]), (i.x[1], i.x[0])):
                    for c, facts in self.constants(f, b, i):
                        self.added(f, i, a, c, facts)
        self.announced(f)
        for x, m in uses.items():
            if len(taken.get(x, ())) < 3: continue
            for b, i in m.items():
                if b not in taken[x]: r.violation('%s:kept:%s' % (f.name, self.lists.get(b)), '%s %s: product %s is delivered and stays on the list' % (i.loc(), f.name, self.lists.get(b)))
            for mask, where in self.masks(f, x) or self.whole(f, x, m):
                for k in range(32):
                    if mask >> k & 1 and 1 << k in self.lists and 1 << k not in m and self.same_family(1 << k, m):
                        r.violation('%s:missing:%s' % (f.name, self.lists[1 << k]), '%s %s: product %s is counted among the products to deliver, but there is no delivery for it' % (where, f.name, self.lists[1 << k]))

    def common(self):
        """bits of the products that have a stream"""
        out = set()
        for lists, stream in (('RKBaseProductListFloat', 'RKStreamProduct'), ('RKBaseProductListUInt8', 'RKStreamDisplay')):
            out |= {b for b, l in self.M[lists].items() if l in self.M[stream].values()}
        return out

    def same_family(self, b, m):
        return all((b >= 1 << 16) == (q >= 1 << 16) for q in m)

    def masks(self, f, x):
        """constants the list was limited to before the walk"""
        if x[0] != 'phi': return []
        out = []
        seen = set(); work = [x[1]]
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            for v, _ in f.insts[n].x:
                while isinstance(v, int) and f.insts[v].op in ('zext', 'trunc'): v = f.insts[v].x[0]
                if not isinstance(v, int): continue
                i = f.insts[v]
                if i.op == 'phi': work.append(v)
                elif i.op == 'and' and isinstance(i.x[1], list) and i.x[1][0] == 'c' and not single(i.x[1][1] & 0xffffffff):
                    m = i.x[1][1] & 0xffffffff
                    if not single(~m & 0xffffffff): out.append((m, i.loc()))
        return out

    def whole(self, f, x, m):
        """nothing limits the list: the products of the kind handled whose number is counted"""
        if x[0] != 'phi': return []
        roots = {f.expr(v) for n in self.phis(f, x[1]) for v, _ in f.insts[n].x}
        for i in f.calls('llvm.ctpop.i32', 'llvm.ctpop.i64'):
            e = f.expr(i.args[0])
            if e in roots and not (e[0] == 'op' and e[1] == 'and'):
                delivered = {b for b in self.lists if self.same_family(b, m)} & self.everyone
                return [(sum(delivered), i.loc())]
        return []

    def phis(self, f, n):
        seen = set(); work = [n]
        while work:
            k = work.pop()
            if k in seen: continue
            seen.add(k)
            work += [v for v, _ in f.insts[k].x if isinstance(v, int) and f.insts[v].op == 'phi']
        return seen

    def announced(self, f):
        """a list that is sent says what follows: what is left out of it before the data are sent is left out of the one sent"""
        sent = []
        for i in f.insts:
            if i.op == 'call' and i.callee in SENDERS: sent += [(i, a) for a in i.args]
        for i in f.insts:
            if i.op != 'and' or not (isinstance(i.x[1], list) and i.x[1][0] == 'c'): continue
            m = i.x[1][1] & 0xffffffff
            if single(m) or single(~m & 0xffffffff) or not any(m >> k & 1 and 1 << k in self.lists for k in range(32)): continue
            e = f.expr(i.x[0])
            if e[0] != 'ld' or rk.lastfield(e[1]) is None or 'roductList' not in rk.lastfield(e[1])[1]: continue
            base = rk.root(e[1])
            if base[0] != 'loc' or not any(rk.root(f.expr(a)) == base for _, a in sent): continue
            if self.stored_back(f, i, e[1]): continue
            if not any(u.op == 'call' and 'ctpop' in (u.callee or '') for u in f.users().get(i.idx, ())): continue
            self.r.count('lists_announced')
            bits = 0
            for s in f.insts:
                if s.op == 'store' and f.expr(s.x[1]) == e[1]:
                    v = s.x[0]
                    while isinstance(v, int) and f.insts[v].op in ('or', 'zext', 'select', 'phi'):
                        k = f.insts[v]
                        if k.op == 'or' and isinstance(k.x[1], list) and k.x[1][0] == 'c': bits |= k.x[1][1]
                        break
            bits &= sum(b for b in self.lists if (b >= 1 << 16) == (m >= 1 << 16))
            left = bits & ~m & 0xffffffff
            if left:
                self.r.violation('%s:announced:%s:%#x' % (f.name, rk.show(e[1]), left), '%s %s: %s is sent with product %s in it, which is left out when the data are sent' % (i.loc(), f.name, rk.show(e[1]), ', '.join(self.lists[1 << k] for k in range(32) if left >> k & 1 and 1 << k in self.lists)))

    def stored_back(self, f, i, addr):
        return any(u.op == 'store' and u.x[0] == i.idx and f.expr(u.x[1]) == addr for u in f.users().get(i.idx, ()))

    def islist(self, f, x):
        return not any(s[0] == 'fld' and not re.search(r'(?i)product|moment', s[3] or '') and s[3] in ('streams', 'streamsInProgress', 'marker', 's', 'state') for s in rk.subexprs(x))

    def constants(self, f, o, inst, depth=0):
        """[(constant, facts)] an operand may be"""
        if isinstance(o, list):
            return [(o[1], rk.facts_at(f, inst))] if o[0] == 'c' else []
        i = f.insts[o]
        if depth > 3: return []
        if i.op in ('zext', 'sext', 'trunc'): return self.constants(f, i.x[0], inst, depth + 1)
        if i.op == 'phi':
            out = []
            for v, b in i.x:
                if isinstance(v, list) and v[0] == 'c': out.append((v[1], self.leaving(f, b, i.bb)))
                elif isinstance(v, int) and f.insts[v].op in ('select', 'zext', 'sext', 'trunc'): out += self.constants(f, v, f.blocks[b][-1], depth + 1)
            return out
        if i.op == 'select':
            out = []
            for v, truth in ((i.x[1], True), (i.x[2], False)):
                if isinstance(v, list) and v[0] == 'c':
                    m, at = rk.compound(f, i.x[0], truth)
                    out.append((v[1], rk.facts_at(f, i) + ([fa for fa in at] if m == 'all' or len(at) == 1 else [])))
            return out
        return []

    def leaving(self, f, b, n):
        res = rk.facts_at(f, f.blocks[b][-1])
        ss = f.succs[b]
        for pos, s in enumerate(ss):
            if s == n and ss.count(s) == 1 and len(ss) > 1:
                m, at = rk.atoms(f, b, pos)
                if m == 'all' or len(at) == 1: res = res + list(at)
        return res

    def added(self, f, i, a, c, facts):
        wide = i.ty == 'i64'
        if not single(c & (0xffffffffffffffff if wide else 0xffffffff)): return
        l = self.letter(c, wide)
        if not l: return
        # under a test of a stream or of another list
        t = []
        for x, b in tested(facts):
            w = any(s[0] == 'fld' and 'streams' in (s[3] or '') for s in rk.subexprs(x))
            if w: m = self.letter(b, True)
            else: m = self.letter(b, False) if any(s[0] == 'fld' and 'roductList' in (s[3] or '') for s in rk.subexprs(x)) else None
            if m: t.append(m)
        if not t: return
        x = f.expr(a)
        if wide and not any(s[0] == 'fld' and 'streams' in (s[3] or '') for s in rk.subexprs(x)): return
        if not wide and not self.productlist(f, i): return
        self.r.count('selections')
        if any(m != l for m in t):
            self.r.violation('%s:add:%s' % (f.name, l), '%s %s: product %s is put on the list where product %s was asked for' % (i.loc(), f.name, l, [m for m in t if m != l][0]))

    def productlist(self, f, i):
        """the value becomes a list of products: it is stored in one, or merged with the value of one"""
        seen = set(); work = [i.idx]
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            for u in f.users().get(n, ()):
                if u.op == 'store' and u.x[0] == n:
                    lf = rk.lastfield(f.expr(u.x[1]))
                    if lf and 'roductList' in lf[1]: return True
                elif u.op in ('phi', 'select', 'or', 'and'): work.append(u.idx)
        return False


    # ---- names compared, then an index chosen
    def chosen(self, f):
        for i in f.insts:
            if i.op == 'call' and i.callee in GET:
                got = {}
                for c, facts in self.constants(f, i.args[1], i):
                    letter = self.M['RKBaseProductIndex'].get(c)
                    for n in named(facts):
                        for a in f.insts[n].args[:2]:
                            e = f.expr(a)
                            if e[0] == 's' and e[1].lower() in self.bylower:
                                self.r.count('names_compared')
                                got[e[1]] = c
                                if letter is None or letter.lower() != e[1].lower():
                                    self.r.violation('%s:name:%s' % (f.name, e[1]), '%s %s: for the product named %s the data of %s are used' % (f.insts[n].loc(), f.name, e[1], letter or c))

    # ---- constant tables
    def tables(self, f):
        local = {}
        for i in f.insts:
            if i.op == 'call' and (i.callee or '').startswith('llvm.memcpy') and isinstance(i.args[0], int) and isinstance(i.args[1], list) and i.args[1][0] in 'gs':
                n = i.args[1][1] if i.args[1][0] == 'g' else i.args[1][2]
                g = self.P.globals.get(n)
                if g and g.get('const') and f.insts[i.args[0]].op == 'alloca': local[i.args[0]] = (n, g)
        use = {}
        for i in f.insts:
            if i.op != 'getelementptr': continue
            b = i.x[0]
            t = None
            if isinstance(b, int): t = local.get(b)
            elif b[0] == 'g' and (self.P.globals.get(b[1]) or {}).get('const'): t = (b[1], self.P.globals[b[1]])
            if t is None: continue
            steps = [p for p in i.x[1] if p[0] in 'ip']
            if not steps: continue
            st = steps[-1] if steps[-1][0] == 'i' else steps[0]
            if isinstance(st[1], list): continue
            use.setdefault(f.expr(st[1]), {}).setdefault(t[0], (t[1], i))
        return use

    def elements(self, g):
        """[meaning or None], kind"""
        x = g.get('init')
        if not x: return None, None
        if x[0] == 's':
            v = [ord(c) for c in x[1]]
            return (v, 'i8') if re.fullmatch(r'\[\d+xi8\]', g['ty']) else (None, None)
        if x[0] != 'L': return None, None
        if all(e[0] == 's' for e in x[1:]): return [e[1].split('\0')[0] for e in x[1:]], 'text'
        if all(e[0] == 'c' for e in x[1:]): return [e[1] for e in x[1:]], 'i%d' % x[1][2]
        return None, None

    def parallel(self, f):
        for key, ts in self.tables(f).items():
            cols = {}
            for n, (g, i) in ts.items():
                v, kind = self.elements(g)
                if v is None or len(v) < 3: continue
                short = n.split('.')[-1]
                if kind == 'i32':
                    m = [self.lists.get(x & 0xffffffff) for x in v]
                elif kind == 'i8':
                    m = [self.M['RKBaseProductIndex'].get(x) for x in v]
                elif kind == 'text':
                    m = [self.bylower.get(x.lower()) for x in v]
                    if sum(x is not None for x in m) * 2 < len(m) and len(set(v)) == len(v): self.names.setdefault(f.name, []).append((key, short, v, i))
                else: continue
                if sum(x is not None for x in m) * 2 >= len(m): cols[short] = (m, v, kind, i)
            if not any(k != 'i8' for _, _, k, _ in cols.values()): continue
            want = {}
            if key[0] == 'phi':
                o = f.insts[key[1]]
                for v, b in o.x:
                    if isinstance(v, list) and v[0] == 'c' and v[1] >= 0:
                        for x, bit in tested(self.leaving(f, b, o.bb)):
                            if bit & 0xffffffff in self.lists: want[v[1]] = self.lists[bit & 0xffffffff]
            size = max(len(m) for m, _, _, _ in cols.values())
            for k in range(size):
                seen = []
                if k in want: seen.append(('the bit tested', want[k]))
                for n, (m, v, kind, i) in cols.items():
                    if k < len(m) and not (m[k] is None and all(x is None for x in m[k:])): seen.append((n, m[k]))
                if k == size - 1 and len({l for _, l in seen}) > 1 and any(m[k] is None for m, _, kind, _ in cols.values() if k < len(m)): continue    # the terminator
                if len(seen) < 2: continue
                self.r.count('rows')
                if len({l for _, l in seen}) > 1:
                    where = next(i for _, _, _, i in cols.values())
                    self.r.violation('%s:table:%d' % (f.name, k), '%s %s: row %d of the tables means different products: %s' % (where.loc(), f.name, k, ', '.join('%s says %s' % s for s in seen)))
                else: self.meaning.setdefault((f.name, key), {})[k] = seen[0][1]

    def agree(self):
        first = {}
        for fn, l in self.names.items():
            for key, short, v, i in l:
                m = self.meaning.get((fn, key))
                if not m: continue
                for k, s in enumerate(v):
                    if k not in m or len(s) < 2: continue
                    if s in first and first[s][0] != m[k]:
                        self.r.violation('%s:%s:%s' % (fn, short, s), '%s %s: %s is the name of product %s here, and of product %s in %s' % (i.loc(), fn, s, m[k], first[s][0], first[s][1]))
                    elif s in first and first[s][1] != fn: self.r.count('names_agree')
                    first.setdefault(s, (m[k], fn))

    # ---- data moved gate by gate between scratch space and ray
    def origin(self, f, ptr):
        """('product', family, index) / ('slot', text) where a pointer walking through an array started; with the phi if it walks"""
        seen = set(); out = set(); walk = set(); work = [ptr]
        while work:
            o = work.pop()
            if not isinstance(o, int):
                out.add(None); continue
            if o in seen: continue
            seen.add(o)
            i = f.insts[o]
            if i.op == 'phi':
                walk.add(o); work += [v for v, _ in i.x]
            elif i.op == 'getelementptr' and all(p[0] in 'pi' for p in i.x[1]) and (len(i.x[1]) == 1): work.append(i.x[0])
            elif i.op == 'call' and i.callee in MOVED: 
                a = i.args[1]
                out.add(('product', i.callee, a[1]) if isinstance(a, list) and a[0] == 'c' else None)
            elif i.op == 'load':
                e = f.expr(i.x[0])
                out.add(('slot', self.slot(e)) if self.slot(e) else None)
            else: out.add(None)
        if len(out) == 1: return out.pop(), walk
        return None, walk

    def slot(self, e):
        t = []
        while e[0] in ('idx', 'fld'):
            if e[0] == 'idx':
                if e[2][0] != 'c': return None
                t.append('[%d]' % e[2][1])
            else:
                t.append(('.' if t else '') + e[3])
                if e[2] == 'RKMomentScratch': return ''.join(reversed(t)).replace('..', '.').lstrip('.')
            e = e[1]
        return None

    def sources(self, f, o):
        """origins of the data a value is computed from"""
        seen = set(); out = []; work = [o]
        while work:
            n = work.pop()
            if not isinstance(n, int) or n in seen: continue
            seen.add(n); i = f.insts[n]
            if i.op == 'load':
                t, w = self.origin(f, i.x[0])
                if t: out.append((t, w, i))
            elif i.op == 'call': work += [a for a in i.args if isinstance(a, int)]
            elif i.op == 'phi': work += [v for v, _ in i.x]
            elif i.op == 'select': work += list(i.x[1:])
            elif i.op in ('getelementptr', 'alloca', 'icmp', 'fcmp'): pass
            else: work += [a for a in i.x if isinstance(a, int)]
        return out

    def advance(self, f, n, loop):
        """how far the walking pointer moves in one turn of the loop: set of element counts"""
        out = set()
        def go(o, d, seen):
            if o == n: out.add(d); return
            if not isinstance(o, int) or o in seen: out.add(None); return
            i = f.insts[o]
            if i.op == 'getelementptr' and len(i.x[1]) == 1 and isinstance(i.x[1][0][1], list): go(i.x[0], d + i.x[1][0][1][1], seen | {o})
            elif i.op == 'phi' and i.bb in loop:
                for v, _ in i.x: go(v, d, seen | {o})
            else: out.add(None)
        for v, b in f.insts[n].x:
            if b in loop: go(v, 0, frozenset())
        return out

    def moves(self, f):
        if not any(f.calls(n) for n in MOVED): return
        pairs = {}; loops = f.loops()
        for i in f.insts:
            if i.op != 'store': continue
            d, wd = self.origin(f, i.x[1])
            if d is None: continue
            for s, ws, l in self.sources(f, i.x[0]):
                if s[0] == d[0]: continue
                p, q = (s, d) if s[0] == 'product' else (d, s)
                self.r.count('moves')
                pairs.setdefault((p[1] in GET, p[2]), {}).setdefault(q[1], []).append(i)
                inner = None
                for h, body in loops.items():
                    if i.bb in body and (inner is None or len(body) < len(loops[inner])): inner = h
                if inner is None: continue
                a = {x for n in wd if f.insts[n].bb == inner for x in self.advance(f, n, loops[inner])}
                b = {x for n in ws if f.insts[n].bb == inner for x in self.advance(f, n, loops[inner])}
                if a and b and None not in a and None not in b:
                    self.r.count('walked_together')
                    if a != b or len(a) > 1:
                        self.r.violation('%s:step:%s' % (f.name, self.show(p)), '%s %s: the data of %s move by %s in one place and %s in the other for each gate' % (i.loc(), f.name, self.show(p), sorted(b), sorted(a)))
        home = {}
        for (base, ix), m in sorted(pairs.items()):
            name = (self.M['RKBaseProductIndex'] if base else self.moment).get(ix, ix)
            best = max(m, key=lambda k: len(m[k]))
            for slot, l in m.items():
                if slot != best:
                    self.r.violation('%s:slot:%s' % (f.name, name), '%s %s: product %s is exchanged with %s here and with %s elsewhere in the function' % (l[0].loc(), f.name, name, slot, best))
            if (base, best) in home:
                self.r.violation('%s:shared:%s' % (f.name, name), '%s %s: %s and %s are both made from %s' % (m[best][0].loc(), f.name, home[base, best], name, best))
            home[base, best] = name
            self.r.sample('%s: %s <-> %s (%d moves)' % (f.name, name, best, len(m[best])))

    def show(self, p):
        return str((self.M['RKBaseProductIndex'] if p[1] in GET else self.moment).get(p[2], p[2]))


SENDERS = ('RKOperatorSendPackets', 'RKNetworkSendPackets', 'RKOperatorSendDelimitedString')
MOVED = list(GET) + ['RKGetInt16DataFromRay']


def check(r):
    P = rk.Program()
    W = Products(P, r)
    W.bylower = {l.lower(): l for l in W.M['RKBaseProductIndex'].values()}
    W.everyone = W.common()
    W.names = {}; W.meaning = {}
    W.moment = {x: n[len('RKMomentIndex'):] for n, x in r_c28.enumerators(['RKMomentIndex'], []).items() if not n.endswith('Count')}
    for f in P.analysed():
        W.walk(f); W.chosen(f); W.parallel(f); W.moves(f)
    W.agree()
    r.need('deliveries', 15); r.need('marked_done', 15); r.need('selections', 15)
    r.explanation = ('The meaning of every product bit, product index and stream bit is the suffix of its enumerator. Under each test of a single bit, the bit marked as done, '
                     'the index whose data is fetched, the stream bit announced or forwarded, the moment delivered and the name compared must have the same meaning; lists walked together must have the same order.')
