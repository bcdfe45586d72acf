"""Upper and lower bounds of integer values: constants, widths, dominating comparisons, members kept within a bound by every
store to them, arguments at every call, and results of kit functions."""
import re, glob, os
from collections import defaultdict
import rk, model

INF = 1 << 70
INPUT = {'sscanf', '__isoc99_sscanf', '__isoc23_sscanf', 'fscanf', '__isoc99_fscanf', '__isoc23_fscanf', 'fread', 'read', 'recv', 'recvfrom'}
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
EXAMPLES = {os.path.basename(x) for x in glob.glob(model.REPO + '/examples/*.c')}


class Bounds:
    def __init__(self, P, strict=False):
        self.P = P; self.strict = strict     # strict: a type's width says nothing about a value of unknown origin
        self.open = {}          # members / arguments / results under evaluation: optimistic value
        self.memo = {}          # value, and the assumptions it rests on
        self.pure = {}
        self.deps = [set()]
        self.trail = []; self.marks = []
        self._st = self._calls = self._raw = None
        self.entry = {e for _, _, _, es, _ in P.threads() for e in es}

    # ---- program-wide tables
    def stores(self):
        if self._st is None:
            self._st = defaultdict(list)
            for f in self.P.analysed():
                if f.file in EXAMPLES: continue         # what an example puts into the kit's structures is not the kit's doing
                for i in f.insts:
                    if i.op == 'store':
                        a = f.expr(i.x[1]); lf = rk.lastfield(a)
                        if lf: self._st[lf].append((f, i))
                        elif a[0] == 'g': self._st[('', a[1])].append((f, i))
        return self._st

    def calls(self):
        if self._calls is None:
            self._calls = defaultdict(list)
            for f in self.P.analysed():
                for i in f.calls():
                    if i.callee: self._calls[i.callee].append((f, i))
        return self._calls

    # ---- facts
    def facts(self, f, inst, edge=None):
        k = ('facts', f.rawname, inst.bb)
        if k not in self.pure: self.pure[k] = self.before(f, inst)
        fs = self.pure[k]
        if edge is not None:
            ss = f.succs[edge[0]]
            for pos, s in enumerate(ss):
                if s == edge[1] and ss.count(s) == 1:
                    m, at = rk.atoms(f, edge[0], pos)
                    if m == 'all' or len(at) == 1:
                        new = [fa + (edge[0],) for fa in at]
                        fs = fs + new + self.only(f, edge[0], new)
        return fs

    def before(self, f, inst):
        res = []
        dom = f.dom()
        for b in dom[inst.bb]:
            ss = f.succs[b]
            if len(ss) < 2: continue
            for pos, s in enumerate(ss):
                if ss.count(s) > 1: continue
                if s in dom[inst.bb] and all(p == b or s in dom[p] for p in f.preds[s]):
                    m, at = rk.atoms(f, b, pos)
                    if m == 'all' or len(at) == 1:
                        new = [fa + (b,) for fa in at]
                        res += new + self.only(f, b, new)
        return res

    def only(self, f, b, facts, depth=0):
        """what is known besides when leaving block b with these facts: the ways into b that contradict them are not taken"""
        if depth > 3 or len(f.preds[b]) < 2: return []
        ways = []
        for p in f.preds[b]:
            ss = f.succs[p]; new = []
            if ss.count(b) == 1 and len(ss) > 1:
                m, at = rk.atoms(f, p, ss.index(b))
                if m == 'all' or len(at) == 1: new = [fa + (p,) for fa in at]
            if any(x[0] != 'notin' and y[0] != 'notin' and x[1:3] == y[1:3] and rk.contradict(x[0], y[0]) for x in new for y in facts): continue
            ways.append((p, new))
        if len(ways) != 1: return []
        return ways[0][1] + self.only(f, ways[0][0], facts + ways[0][1], depth + 1)

    def stale(self, f, e, blk, inst):
        """memory mentioned in e may be written between the end of block blk and inst"""
        return self.written(f, e, f.blocks[blk][-1], inst)

    def written(self, f, e, src, inst):
        """memory mentioned in e may be written between src and inst, without passing src again"""
        lfs = [rk.lastfield(x[1]) or x[1] for x in rk.subexprs(e) if x[0] == 'ld']
        if not lfs: return False
        key = ('stale', f.rawname, e, src.idx, inst.idx)
        if key in self.pure: return self.pure[key]
        res = False
        blk = src.bb
        for j in f.insts:
            if j.op == 'store':
                a = f.expr(j.x[1]); l = rk.lastfield(a) or a
                if l not in lfs: continue
            elif j.op == 'call' and j.callee and not j.callee.startswith('llvm.') and j.callee not in rk.PURE_CALLS:
                w = self.P.stored_by(j.callee)
                if not any(isinstance(l, tuple) and len(l) == 2 and l in w for l in lfs): continue
            else: continue
            if j is inst or j is src: continue
            if j.bb == blk and j.pos > src.pos:
                if inst.bb == blk and src.pos < inst.pos:
                    if j.pos < inst.pos: res = True; break
                    continue
                aft = True
            elif j.bb == blk: continue          # before src: passes src again
            else:
                if inst.bb == blk and src.pos < inst.pos: continue
                aft = any(s == j.bb or self.between(f, s, j.bb, blk) for s in f.succs[blk])
            if not aft: continue
            if j.bb == inst.bb and j.pos < inst.pos: res = True; break
            if j.bb == inst.bb and j.bb != blk:
                if any(self.between(f, s, inst.bb, blk) for s in f.succs[j.bb]): res = True; break
                continue
            if any(s == inst.bb or self.between(f, s, inst.bb, blk) for s in f.succs[j.bb]): res = True; break
        self.pure[key] = res
        return res

    def moved(self, f, o, l, ol, blk, at):
        """the memory l was compared at the end of blk may not hold the value o stands for when used at 'at'"""
        if self.same_value(f, o, ol): return False
        r = self.read_at(f, o, at)
        t = f.blocks[blk][-1]
        if r is not at and r.bb != blk and r.bb in f.dom()[blk] or r.bb == blk and r is not at:
            rl = self.read_at(f, ol, t) if ol is not None else t
            if rl is r: return False
            return self.written(f, l, r, rl if rl.bb != r.bb or rl.pos > r.pos else t)
        return self.stale(f, l, blk, r)

    def between(self, f, a, b, avoid):
        if a == avoid: return False
        seen = {a}; st = [a]
        while st:
            x = st.pop()
            if x == b: return True
            for s in f.succs[x]:
                if s not in seen and s != avoid: seen.add(s); st.append(s)
        return False

    # ---- bounds of an operand at an instruction
    def upper(self, f, o, at, edge=None, depth=0):
        return self.bound(f, o, at, edge, depth, True)

    def lower(self, f, o, at, edge=None, depth=0):
        return self.bound(f, o, at, edge, depth, False)

    def bound(self, f, o, at, edge, depth, up):
        if isinstance(o, list):
            if o[0] == 'c': return o[1]
            if o[0] == 'n': return 0
        if depth > 14: self.deps[-1].add('depth'); return None
        key = (f.rawname, o if isinstance(o, int) else repr(o), at.idx, edge, up, depth == 0)
        if key in self.memo: return self.known(key)
        if key in self.open: return self.assumed(key, f, o, up)
        self.begin(key)
        b = self.value(f, o, at, edge, depth, up)
        # comparisons on the way here
        e = f.expr(o); ce = self.canon(f, e)
        best = b; murky = False; notc = set()
        for fa in self.facts(f, at, edge):
            p, x, y, ox, oy, blk = fa[0], fa[1], fa[2], fa[3], fa[4], fa[5]
            if p == 'notin': continue
            for (q, l, r, orr, ol) in ((p, x, y, oy, ox), (rk.SWAP.get(p, p), y, x, ox, oy)):
                d = None
                if l == e or (l[0] == ce[0] == 'op' or l[0] == 'phi') and self.canon(f, l) == ce: d = 0
                elif l[0] == 'op' and l[1] == 'add' and l[3][0] == 'c' and l[2] == e: d = -l[3][1]      # e + c ? r
                elif e[0] == 'op' and e[1] == 'add' and e[3][0] == 'c' and e[2] == l: d = e[3][1]       # l ? r, e = l + c
                elif up and l[0] == 'op' and l[1] in ('sdiv', 'udiv') and l[3][0] == 'c' and l[3][1] > 0 and self.canon(f, l[2]) == ce:      # e / c ? r
                    u = r[1] if r[0] == 'c' else None
                    if u is None or u < 0 or q not in ('slt', 'ult', 'sle', 'ule', 'eq') or self.stale(f, l, blk, self.read_at(f, o, at)): continue
                    u = (u - (q in ('slt', 'ult'))) * l[3][1] + l[3][1] - 1
                    if best is None or u < best: best = u
                    continue
                if d is None and l[0] == 'op' and l[1] == 'select' and l[2][0] == 'cmp' and {l[2][2], l[2][3]} == {l[3], l[4]} and e in l[3:5]:
                    # min(e, ..) > r, max(e, ..) < r
                    first = l[2][2] == l[3]
                    least = (l[2][1] in ('slt', 'ult', 'sle', 'ule')) == first
                    if least and q in ('sgt', 'ugt', 'sge', 'uge') or not least and q in ('slt', 'ult', 'sle', 'ule'): d = 0
                if d is None or l[0] == 'c': continue
                if self.moved(f, o, l, ol, blk, at): continue
                if q == 'ne' and r[0] == 'c': notc.add(r[1] + d)
                if up and q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                    u = self.bound(f, orr, f.blocks[blk][-1], None, depth + 1, True)
                    if u is None: murky = True; continue
                    if u >= INF: continue
                    u = u + d - (1 if q in ('slt', 'ult') else 0)
                    if best is None or u < best: best = u
                if not up and q in ('sgt', 'ugt', 'sge', 'uge', 'eq'):
                    u = self.bound(f, orr, f.blocks[blk][-1], None, depth + 1, False)
                    if u is None: murky = True; continue
                    if u <= -INF: continue
                    u = u + d + (1 if q in ('sgt', 'ugt') else 0)
                    if best is None or u > best: best = u
                # an unsigned comparison with a small bound also excludes negative values
                if not up and q in ('ult', 'ule') and d == 0:
                    u = self.bound(f, orr, f.blocks[blk][-1], None, depth + 1, True)
                    if u is not None and u < 1 << 31 and (best is None or best < 0): best = 0
        st = self.stride(f, o)
        if st and best is not None and abs(best) < INF:
            i0, sp = st
            if up and sp > 0 and best >= i0: best = i0 + (best - i0) // sp * sp
        for _ in range(3):
            if best in notc: best += -1 if up else 1
        if murky and best is not None and abs(best) >= INF: best = None
        if edge is None and (best is None or abs(best) >= INF or depth == 0): best = self.joined(f, o, at, depth, up, best)
        return self.end(key, best)

    def assumed(self, key, f, o, up):
        """under evaluation further out: what is assumed of it there"""
        k = ('p', f.rawname, up, o)
        if k in self.open: self.deps[-1].add(k); return self.open[k]
        if isinstance(o, int) and f.insts[o].op == 'load':
            lf = rk.lastfield(f.expr(o)[1])
            if lf and ('m', lf, up) in self.open: self.deps[-1].add(('m', lf, up)); return self.open[('m', lf, up)]
        self.deps[-1].add(key)
        return None

    # ---- evaluation: a value is kept together with the assumptions it was derived from
    def known(self, key):
        v, d = self.memo[key]
        self.deps[-1] |= d
        return v

    def begin(self, key, guess=None):
        self.open[key] = guess
        self.deps.append(set()); self.marks.append(len(self.trail))

    def drop(self, key, mark):
        """values derived since, which rest on what was assumed of this one"""
        gone = {k for k in self.trail[mark:] if k in self.memo and key in self.memo[k][1]}
        for k in gone: del self.memo[k]
        if gone: self.trail[mark:] = [k for k in self.trail[mark:] if k not in gone]

    def end(self, key, v):
        del self.open[key]
        d = self.deps.pop(); d.discard(key)
        self.drop(key, self.marks.pop())
        if v is not None or 'depth' not in d: self.memo[key] = (v, frozenset(d)); self.trail.append(key)
        self.deps[-1] |= d
        return v

    def joined(self, f, o, at, depth, up, best):
        """each way into the block may bound the value differently"""
        ps = f.preds[at.bb]
        if not isinstance(o, int) or not 1 < len(ps) < 5: return best
        if f.insts[o].bb == at.bb or any(at.bb in f.dom()[p] for p in ps): return best
        if depth > 3: self.deps[-1].add('depth'); return None if best is not None and abs(best) >= INF else best
        res = None
        for p in ps:
            b = self.bound(f, o, f.blocks[p][-1], (p, at.bb), depth + 1, up)
            if b is None or abs(b) >= INF: return best
            res = b if res is None else max(res, b) if up else min(res, b)
        if best is None: return res
        return min(best, res) if up else max(best, res)

    def read_at(self, f, o, at):
        """where the memory a value stands for was read: later writes do not change it"""
        while isinstance(o, int) and f.insts[o].op in ('zext', 'sext', 'trunc', 'freeze'): o = f.insts[o].x[0]
        return f.insts[o] if isinstance(o, int) and f.insts[o].op == 'load' else at

    def canon(self, f, e, depth=0):
        """a value chosen between two by a branch, written the same way each time"""
        if not isinstance(e, tuple) or depth > 8: return e
        if e[0] == 'phi':
            k = ('canon', f.rawname, e)
            if k in self.pure: return self.pure[k]
            self.pure[k] = e
            i = f.insts[e[1]] if isinstance(e[1], int) else None
            r = e
            if i is not None and len(i.x) == 2:
                dom = f.dom()
                common = [b for b in dom[i.bb] if b != i.bb and all(b in dom[x[1]] for x in i.x)]
                if common:
                    b = max(common, key=lambda b: len(dom[b]))
                    t = f.blocks[b][-1]
                    if t.op == 'br' and len(t.x) == 3 and not any(i.bb in dom[x[1]] for x in i.x):
                        vs = {}
                        for v, pb in [(x[0], x[1]) for x in i.x]:
                            for pos, sx in enumerate(f.succs[b]):
                                if sx == pb and f.preds[pb] == [b] or (pb == b and sx == i.bb): vs[pos] = self.canon(f, f.expr(v), depth + 1)
                        if len(vs) == 2: r = ('op', 'select', self.canon(f, f.expr(t.x[0]), depth + 1), vs[0], vs[1])
            self.pure[k] = r
            return r
        return tuple(self.canon(f, x, depth + 1) if isinstance(x, tuple) else x for x in e)

    def stride(self, f, o):
        if not isinstance(o, int): return None
        i = f.val(o)
        if not isinstance(i, rk.Inst) or i.op != 'phi' or len(i.x) != 2: return None
        c = st = None
        for v, _ in [(x[0], x[1]) for x in i.x]:
            e = f.expr(v)
            if e[0] == 'c': c = e[1]
            elif e[0] == 'op' and e[1] == 'add' and e[2] == ('phi', i.idx) and e[3][0] == 'c': st = e[3][1]
        return (c, st) if c is not None and st and abs(st) > 1 else None

    def same_value(self, f, o, ol):
        a, b = f.val(o), f.val(ol)
        return a is b if isinstance(a, rk.Inst) else a == b

    def value(self, f, o, at, edge, depth, up):
        B = lambda x, u=up: self.bound(f, x, at, edge, depth + 1, u)
        S = 1 if up else -1
        if isinstance(o, list):
            if o[0] == 'a': return self.argument(f, o[1], up, depth)
            return None
        i = f.insts[o]
        if i.op == 'zext':
            w = self.ty(f, i.x[0]); top = (1 << w) - 1 if w else INF
            if not up:
                b = B(i.x[0], False)
                if b is None and self.strict: return None
                return b if b is not None and b >= 0 else 0
            b = B(i.x[0])
            if b is None: return top if w and w <= 8 and not self.strict else None
            if b > top: return top
            if b < 0: return top
            lo = B(i.x[0], False)
            return top if lo is not None and lo < 0 else b
        if i.op == 'sext':
            w = self.ty(f, i.x[0])
            b = B(i.x[0])
            if w:
                lim = (1 << (w - 1)) - 1 if up else -(1 << (w - 1))
                if b is None: return lim if w <= 8 and not self.strict else None
                return min(b, lim) if up else max(b, lim)
            return b
        if i.op == 'trunc':
            b = B(i.x[0]); w = BITS.get(i.ty)
            if b is None: return None
            if w:
                if up and b > (1 << w) - 1: return (1 << w) - 1
                if not up and b < -(1 << (w - 1)): return -(1 << (w - 1))
            return b
        if i.op in ('freeze', 'bitcast'): return B(i.x[0])
        if i.op == 'load': return self.memory(f, i, up, depth)
        if i.op == 'phi':
            return self.solve(('p', f.rawname, up, o), lambda: self.incoming(f, i, o, up, depth), self.near(f, i), start=None)
        if i.op == 'select':
            rs = []
            for v, truth in ((i.x[1], True), (i.x[2], False)):
                b = B(v)
                m, ats = rk.compound(f, i.x[0], truth)
                if m == 'all' or len(ats) == 1:
                    e = f.expr(v)
                    for fa in ats:
                        if fa[0] == 'notin': continue
                        for q, l, r, orr in ((fa[0], fa[1], fa[2], fa[4]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[1], fa[3])):
                            if orr is None: continue
                            d = 0 if l == e else e[3][1] if e[0] == 'op' and e[1] == 'add' and e[3][0] == 'c' and e[2] == l else None
                            if d is None: continue
                            if q == 'ne' and r[0] == 'c' and b == r[1] + d: b -= S
                            u = self.bound(f, orr, at, edge, depth + 1, up)
                            if u is None: continue
                            if up and q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                                u += d - (q in ('slt', 'ult')); b = u if b is None else min(b, u)
                            if not up and q in ('sgt', 'ugt', 'sge', 'uge', 'eq'):
                                u += d + (q in ('sgt', 'ugt')); b = u if b is None else max(b, u)
                if b is None: return None
                rs.append(b)
            return max(rs) if up else min(rs)
        if i.op == 'add':
            a, b = B(i.x[0]), B(i.x[1])
            if not up and a == 0 and b is not None and b < 0: a = self.stored(f, i.x[0], depth)
            return sat(a + b) if a is not None and b is not None else None
        if i.op == 'sub':
            a, b = B(i.x[0]), B(i.x[1], not up)
            if not up and a == 0 and b is not None and b > 0: a = self.stored(f, i.x[0], depth)
            return sat(a - b) if a is not None and b is not None else None
        if i.op == 'mul':
            a, b = B(i.x[0]), B(i.x[1])
            if a is None or b is None: return None
            la, lb = (B(i.x[0], False), B(i.x[1], False)) if up else (a, b)
            if la is None or lb is None or la < 0 or lb < 0: return None
            return sat(a * b)
        if i.op == 'and':
            c = [x for x in (f.const(x) for x in i.x) if x is not None and x >= 0]
            return (c[0] if up else 0) if c else None
        if i.op in ('urem', 'srem'):
            b = self.bound(f, i.x[1], at, edge, depth + 1, True)
            if up: return None if b is None else INF if b >= INF else b - 1
            if i.op == 'urem': return 0
            a = B(i.x[0], False)
            return 0 if a is not None and a >= 0 else (1 - b if b is not None and b < INF else None)
        if i.op in ('udiv', 'sdiv'):
            c = f.const(i.x[1]); a = B(i.x[0])
            if c and c > 0 and a is not None: return a if abs(a) >= INF else int(a / c) if a < 0 else a // c
            if i.op == 'udiv' and not up: return 0
            return a if up and a is not None and a >= 0 and i.op == 'udiv' else None
        if i.op in ('lshr', 'ashr'):
            c = f.const(i.x[1]); a = B(i.x[0])
            if c is not None and a is not None and a >= 0: return a if a >= INF else a >> c
            return 0 if i.op == 'lshr' and not up else None
        if i.op == 'shl':
            c = f.const(i.x[1]); a = B(i.x[0])
            return sat(a << c) if c is not None and a is not None and a >= 0 else None
        if i.op in ('icmp', 'fcmp'): return 1 if up else 0
        if i.op == 'call': return self.result(f, i, up, depth)
        return None

    def stored(self, f, o, depth):
        """the least value of a count: the zero it has before it is set for the first time does not count"""
        while isinstance(o, int) and f.insts[o].op in ('zext', 'sext', 'trunc', 'freeze'): o = f.insts[o].x[0]
        lf = rk.lastfield(f.expr(o)[1]) if isinstance(o, int) and f.insts[o].op == 'load' else None
        if not lf or rk.root(f.expr(o)[1])[0] == 'loc' or not self.stores().get(lf): return 0
        res = None
        for g, i in self.stores()[lf]:
            b = self.bound(g, i.x[0], i, None, depth + 1, False)
            if b is None: return None
            res = b if res is None else min(res, b)
        return max(res, 0) if res is not None else 0

    def incoming(self, f, i, o, up, depth):
        res = None
        for v, pb in [(x[0], x[1]) for x in i.x]:
            if isinstance(v, int) and f.val(v) is i: continue
            b = self.bound(f, v, f.blocks[pb][-1], (pb, i.bb), depth + 1, up)
            if b is None: return None
            res = b if res is None else max(res, b) if up else min(res, b)
        return res

    def near(self, f, i):
        """constants a loop variable may stop at"""
        return self.consts(f)

    def consts(self, f):
        k = ('k', f.rawname)
        if k not in self.pure:
            s = set()
            for j in f.insts:
                if j.op == 'icmp':
                    for x in j.x[1:3]:
                        c = f.const(x)
                        if c is not None and -2 <= c < 1 << 31: s |= {c - 1, c, c + 1}
                elif j.op == 'switch': s |= {c[0] for c in j.x[2:]}
            self.pure[k] = s
        return self.pure[k]

    def ty(self, f, o):
        if isinstance(o, int): return BITS.get(f.insts[o].ty)
        if o[0] == 'a': return BITS.get(f.argty[o[1]])
        return None

    def unsigned(self, f, o): return False

    # ---- members, arguments, results
    def memory(self, f, i, up, depth):
        e = f.expr(i.idx)[1]
        lf = rk.lastfield(e)
        w = BITS.get(i.ty)
        small = None
        if lf is None and e[0] == 'g': lf = ('', e[1])
        if w and w <= 8: small = ((1 << w) - 1 if self.uns(lf) or lf is None else (1 << (w - 1)) - 1) if up else (0 if self.uns(lf) else -(1 << (w - 1)))
        if rk.root(e)[0] == 'loc' and not any(x[0] == 'idx' for x in self.chain(e)):
            b = self.local(f, i, e, lf, up, depth)
            if b is not None and small is not None: b = min(b, small) if up else max(b, small)
            if b is not None or lf is None: return b if b is not None or self.strict else small
            return small if not self.strict else None
        if lf is None: return small if not self.strict else None
        b = self.member(lf, up, depth)
        h = self.here(f, i, e, lf, up, depth) if b is None or abs(b) >= INF else None
        if h is not None: b = h if b is None or abs(b) >= INF else min(b, h) if up else max(b, h)
        if b is None: return small if not self.strict else None
        if small is not None: b = min(b, small) if up else max(b, small)
        if w and up and b >= INF and self.uns(lf): b = (1 << w) - 1
        return b

    def here(self, f, i, e, lf, up, depth):
        """value of a member put there earlier in the same function, with nothing in between that writes such a member"""
        defs = {}; ss = []
        for j in f.insts:
            if j.op == 'store' and rk.lastfield(f.expr(j.x[1])) == lf:
                defs[j.idx] = (j, 'store')
                if f.expr(j.x[1]) == e and f.dominates(j, i): ss.append(j)
            elif j.op == 'call' and not (j.callee or '').startswith('llvm.') and (j.callee is None or lf in self.P.stored_by(j.callee)): defs[j.idx] = (j, 'call')
        for s in ss:
            ways = {k: v for k, v in defs.items() if self.way(f, v[0], i, defs) is not None}
            if set(ways) == {s.idx}: return self.bound(f, s.x[0], s, None, depth + 1, up)
        return None

    def chain(self, e):
        while e[0] in ('fld', 'idx'):
            yield e
            e = e[1]

    def uses(self, f, loc):
        """what is done to a local: [(instruction, kind, address expression)], or None if its address gets away"""
        k = ('uses', f.rawname, loc)
        if k in self.pure: return self.pure[k]
        res = []
        for j in f.insts:
            if j.op == 'store':
                if rk.root(f.expr(j.x[1])) == loc: res.append((j, 'store', f.expr(j.x[1])))
                v = f.expr(j.x[0])
                if v[0] in ('loc', 'fld', 'idx') and rk.root(v) == loc: res = None; break
            elif j.op == 'call':
                for n, a in enumerate(j.args):
                    x = f.expr(a)
                    if x[0] in ('loc', 'fld', 'idx') and rk.root(x) == loc:
                        c = j.callee or ''
                        if c.startswith(('llvm.lifetime', 'llvm.dbg')): continue
                        if c.startswith(('llvm.memcpy', 'llvm.memmove')) and n == 1: continue
                        res.append((j, 'copy' if c.startswith(('llvm.memcpy', 'llvm.memmove')) else 'zero' if c.startswith('llvm.memset') else 'input' if c in INPUT else 'call', x))
            elif j.op in ('phi', 'select', 'ret', 'ptrtoint', 'insertvalue'):
                for x in ([y[0] for y in j.x] if j.op == 'phi' else j.x):
                    if isinstance(x, int) or isinstance(x, list) and x and x[0] != 'c':
                        v = f.expr(x)
                        if v[0] in ('loc', 'fld', 'idx') and rk.root(v) == loc: res = None; break
                if res is None: break
        self.pure[k] = res
        return res

    def sole(self, f, i):
        """the one store whose value a load of a local variable gets, if there is one"""
        e = f.expr(i.idx)[1]
        us = self.uses(f, rk.root(e)) if rk.root(e)[0] == 'loc' else None
        if us is None: return None
        defs = {j.idx: (j, k) for j, k, _ in us}
        got = [j for j, k in defs.values() if self.way(f, j, i, defs) is not None]
        return got[0] if len(got) == 1 and got[0].op == 'store' and f.expr(got[0].x[1]) == e and f.dominates(got[0], i) else None

    def local(self, f, i, e, lf, up, depth):
        """value of a local variable or member of a local structure: what reaches it"""
        us = self.uses(f, rk.root(e))
        if us is None: return None
        pre = list(self.chain(e)) + [rk.root(e)]
        defs = {}
        for j, kind, x in us:
            if x == e or x in pre: defs[j.idx] = (j, kind)
            elif any(y == e for y in self.chain(x)): defs[j.idx] = (j, 'call')       # a part of it
            elif any(y[0] == 'idx' for y in self.chain(x)): defs[j.idx] = (j, 'call')
        res = None
        for j, kind in defs.values():
            ways = self.way(f, j, i, defs)
            if ways is None: continue
            if kind == 'store': b = self.bound(f, j.x[0], j, None, depth + 1, up)
            elif kind == 'zero': b = 0
            elif kind == 'input': b = INF if up else -INF
            elif kind == 'copy': b = self.member(lf, up, depth) if lf else None
            else: b = None
            for fa in ways:
                if fa[0] == 'notin': continue
                for q, l, orr in ((fa[0], fa[1], fa[4]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[3])):
                    if l != ('ld', e) or orr is None: continue
                    t = f.blocks[fa[5]][-1]
                    if up and q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                        u = self.bound(f, orr, t, None, depth + 1, True)
                        if u is not None and u < INF: u -= q in ('slt', 'ult'); b = u if b is None else min(b, u)
                    if not up and q in ('sgt', 'ugt', 'sge', 'uge', 'eq'):
                        u = self.bound(f, orr, t, None, depth + 1, False)
                        if u is not None and u > -INF: u += q in ('sgt', 'ugt'); b = u if b is None else max(b, u)
            if b is None: return None
            res = b if res is None else max(res, b) if up else min(res, b)
        return res

    def way(self, f, j, i, defs):
        """None if what j puts there never gets to i; else the comparisons that hold whenever it does"""
        stops = defaultdict(list)
        for d, _ in defs.values(): stops[d.bb].append(d.pos)
        if i.bb == j.bb and i.pos > j.pos and not any(j.pos < p < i.pos for p in stops[i.bb]): return []
        if any(p > j.pos for p in stops[j.bb]): return None
        def go(cut):
            seen = set(); st = [(j.bb, s) for s in f.succs[j.bb]]; edges = set()
            hit = False
            while st:
                b, s = st.pop()
                if (b, s) == cut: continue
                edges.add((b, s))
                if s in seen: continue
                seen.add(s)
                if s == i.bb and not any(p < i.pos for p in stops[s]): hit = True; continue
                if stops[s]: continue
                st += [(s, x) for x in f.succs[s]]
            return hit, edges
        hit, edges = go(None)
        if not hit: return None
        res = []
        for b, s in edges:
            ss = f.succs[b]
            if len(ss) < 2 or ss.count(s) > 1 or go((b, s))[0]: continue
            m, at = rk.atoms(f, b, ss.index(s))
            if m == 'all' or len(at) == 1: res += [fa + (b,) for fa in at]
        return res

    def uns(self, lf):
        if not lf: return False
        s = self.P.structs.get(lf[0])
        if not s: return False
        for fl in s['fields']:
            if fl[0] == lf[1]: return bool(re.search(r'uint|unsigned|bool|size_t', fl[4] or ''))
        return False

    def member(self, lf, up, depth):
        key = ('m', lf, up)
        if key in self.memo: return self.known(key)
        if key in self.open: self.deps[-1].add(key); return self.open[key]
        if not up and self.uns(lf): return 0
        if lf in self.raw(): return INF if up else -INF
        cs = set()
        for f, i in self.stores().get(lf, ()): cs |= self.consts(f)
        return self.solve(key, lambda: self.join(lf, up, depth), cs)

    def raw(self):
        return ()

    def solve(self, key, fn, cs, start=0):
        """the least bound kept by every assignment: begin with what is there first, assume it, and see what the assignments give"""
        if key in self.memo: return self.known(key)
        if key in self.open: self.deps[-1].add(key); return self.open[key]
        up = key[2]
        self.begin(key)
        guess = start
        tried = tries = 0
        res = None
        while True:
            self.open[key] = guess if guess is not None else (-INF if up else INF)
            mark = len(self.trail)
            b = fn()
            self.drop(key, mark)
            if b is None: break
            if guess is not None and (b <= guess if up else b >= guess):
                if res is not None and guess == res: break
                res = guess
                if b == guess or tries > 3: break
                guess = b; tries += 1; continue          # holds with room to spare: try the tighter one
            if res is not None: break                    # the tighter one does not hold
            if abs(b) >= INF and (b > 0) == up: res = b; break
            if tried >= 1 and guess is not None:
                # it moved: only a constant of the code can stop it
                nxt = sorted(c for c in cs if (c >= b if up else c <= b)) if up else sorted((c for c in cs if c <= b), reverse=True)
                tried += 1
                nxt = [c for c in nxt if c != guess]
                # no constant left: assume nothing, and take what the comparisons alone leave
                guess = nxt[0] if nxt and tried <= 40 else INF if up else -INF
            else: guess = b; tried += 1
        return self.end(key, res)

    def join(self, lf, up, depth):
        res = 0
        for f, i in self.stores().get(lf, ()):
            b = self.bound(f, i.x[0], i, None, depth + 1, up)
            if b is None or abs(b) > 1 and (b > 0) == up: b = self.settled(f, i, b, up, depth)
            if b is None: return None
            res = max(res, b) if up else min(res, b)
        if lf[0] == '':
            g = self.P.globals.get(lf[1])
            if g is None or g.get('init') is None: return res if g is not None else None
            if isinstance(g['init'], list) and g['init'] and g['init'][0] == 'c': res = max(res, g['init'][1]) if up else min(res, g['init'][1])
        return res

    def settled(self, f, i, b, up, depth):
        """a store corrected at once: 'x = v; if (v > c) x = c' leaves the value the condition lets through"""
        a = f.expr(i.x[1]); bb = i.bb
        for _ in range(4):
            blk = f.blocks[bb]
            if bb != i.bb and any(j.op == 'store' and f.expr(j.x[1]) == a for j in blk): return b
            if len(f.succs[bb]) != 1: break
            bb = f.succs[bb][0]
        t = f.blocks[bb][-1]
        if t.op != 'br' or len(t.x) != 3: return b
        for pos in (0, 1):
            s = f.succs[bb][pos]
            if any(j.op == 'store' and f.expr(j.x[1]) == a for j in f.blocks[s]) and s != f.succs[bb][1 - pos]:
                m, at = rk.atoms(f, bb, 1 - pos)
                if m != 'all' and len(at) != 1: continue
                v = self.canon(f, f.expr(i.x[0]))
                for fa in at:
                    if fa[0] == 'notin': continue
                    for q, l, orr in ((fa[0], fa[1], fa[4]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[3])):
                        if l != ('ld', a) and self.canon(f, l) != v: continue
                        if up and q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                            u = self.bound(f, orr, t, None, depth + 1, True)
                            if u is not None: u -= q in ('slt', 'ult'); b = u if b is None else min(b, u)
                        if not up and q in ('sgt', 'ugt', 'sge', 'uge', 'eq'):
                            u = self.bound(f, orr, t, None, depth + 1, False)
                            if u is not None: u += q in ('sgt', 'ugt'); b = u if b is None else max(b, u)
        return b

    def argument(self, f, n, up, depth):
        if f.rawname in self.P.address_taken(): return None
        if not f.static: return INF if up else -INF
        key = ('a', f.rawname, up, n)
        if key in self.memo: return self.known(key)
        if key in self.open: self.deps[-1].add(key); return self.open[key]
        self.begin(key)
        res = None
        for g, i in self.calls().get(f.name, ()):
            if n >= len(i.args): res = None; break
            b = self.bound(g, i.args[n], i, None, depth + 1, up)
            if b is None: res = None; break
            res = b if res is None else max(res, b) if up else min(res, b)
        return self.end(key, res)

    def result(self, f, i, up, depth):
        c = i.callee
        if c and re.match(r'llvm\.[us](min|max)', c):
            bs = [self.bound(f, a, i, None, depth + 1, up) for a in i.args]
            if ('min' in c) == up:
                bs = [b for b in bs if b is not None]
                return None if not bs else min(bs) if up else max(bs)
            return None if any(b is None for b in bs) else max(bs) if up else min(bs)
        if not c: return None
        if c in ('atoi', 'atol', 'strtol', 'strtoul', 'atof'): return INF if up else -INF
        if c in ('rand', 'strlen') and not up: return 0
        if c == 'toupper' or c == 'tolower' or c == 'fgetc': return 255 if up else -1
        g = self.P.f(c, False)
        if g is None or g.decl: return None
        key = ('r', g.rawname, up)
        if key in self.memo: return self.known(key)
        if key in self.open: self.deps[-1].add(key); return self.open[key]
        self.begin(key)
        res = None
        for t in g.insts:
            if t.op == 'ret' and t.x:
                b = self.bound(g, t.x[0], t, None, depth + 1, up)
                if b is None: res = None; break
                res = b if res is None else max(res, b) if up else min(res, b)
        return self.end(key, res)


def sat(x): return INF if x >= INF else -INF if x <= -INF else x
