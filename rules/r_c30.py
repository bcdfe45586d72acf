"""C30: nothing is sent, stored, compared or computed with that has not been given a value on the way there."""
import re
import rk, r_c26

WIDTH = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f': 4, 'd': 8, 'p': 8}
SCANS = {'sscanf': (1, 2), 'fscanf': (1, 2), 'scanf': (0, 1), '__isoc99_sscanf': (1, 2), '__isoc99_fscanf': (1, 2), '__isoc23_sscanf': (1, 2), '__isoc23_fscanf': (1, 2)}
# function -> arguments read as text
TEXTS = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'atoi': (0,), 'atof': (0,), 'atol': (0,), 'strdup': (0,),
         'strcpy': (1,), 'strncpy': (1,), 'strcat': (0, 1), 'strncat': (0, 1), 'fputs': (0,), 'puts': (0,), 'system': (0,), 'fopen': (0, 1), 'open': (0,), 'remove': (0,), 'unlink': (0,), 'access': (0,), 'stat': (0,), 'strtol': (0,), 'strtod': (0,), 'sscanf': (0,), 'opendir': (0,), 'rename': (0, 1)}
FORMATS = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'RKLog': 0}
# function -> (pointer, size) of what leaves the process or is kept
OUT = {'write': (1, 2), 'send': (1, 2), 'sendto': (1, 2), 'RKRawDataRecorderCacheWrite': (1, 2), 'SSL_write': (1, 2), 'bind': (1, 2), 'connect': (1, 2), 'setsockopt': (3, 4)}
PAIRS = {'RKNetworkSendPackets': 1, 'RKOperatorSendPackets': 1}
NOTHING = {'free', 'usleep'}


def check(r):
    P = rk.Program()
    for f in rk.Program('unset').analysed(): scalars(r, f)
    for f in P.analysed():
        objects(r, P, f)
        kept(r, P, f)
    r.need('locals_followed', 100); r.need('reads_checked', 30); r.need('results_of_scans', 3); r.need('objects_made', 15)
    r.explanation = 'for every local whose address is taken, every path is explored over the bytes that have been given a value; a read of the local, its use as text, its copy or its departure requires those bytes; a value delivered by a scan counts only where the count of the scan says so; scalars that are not set on a path of a function are followed to their uses'
    r.assumptions = ['a function outside the analysed list of readers that is handed a local may fill all of it', 'padding bytes carry no data']


def scalars(r, f):
    start = [i for i in f.insts if i.op == 'phi' and any(v == ['u'] for v, p in i.x)]
    direct = [i for i in f.insts if i.op in ('store', 'call', 'ret', 'br', 'switch', 'icmp', 'add', 'sub', 'mul', 'getelementptr') and any(o == ['u'] for o in i.x if isinstance(o, list))]
    for i in direct:
        r.violation('%s:unset' % f.name, '%s %s uses a variable that has not been given a value' % (i.loc(), f.name))
    if not start: return
    r.count('unset_scalars', len(start))
    V = r_c26.Values(f)
    bad = []

    def taints(o, u):
        for _ in range(10):
            if not isinstance(o, int): return o == ['u']
            if o in u: return True
            i = f.insts[o]
            if i.op in rk.CASTS or i.op in ('freeze', 'fneg'): o = i.x[0]; continue
            if i.op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'sdiv', 'udiv', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'fcmp', 'srem', 'urem'): return any(taints(a, u) for a in (i.x[-2:] if 'cmp' in i.op else i.x[:2]))
            return False
        return False

    def tr(i, s):
        u, known = s
        if not u or i.op == 'phi': return None
        ops = []
        if i.op == 'store': ops = [i.x[0], i.x[1]]
        elif i.op == 'call': ops = list(i.args)
        elif i.op in ('ret', 'load'): ops = list(i.x[:1])
        elif i.op in ('br', 'switch') and len(i.x) >= 2: ops = [i.x[0]]
        if any(taints(o, u) for o in ops if not (i.op == 'br' and len(i.x) < 3)): bad.append(i); return []
        return None

    def ed(f_, bb, pos, s):
        u, known = s
        k = V.edge(bb, pos, known)
        if k is None: return None
        n = f.succs[bb][pos]
        w = set(u)
        for i in f.blocks[n]:
            if i.op != 'phi': break
            w.discard(i.idx)
            for v, p in i.x:
                if p == bb and (v == ['u'] or isinstance(v, int) and taints(v, u)): w.add(i.idx)
        return frozenset(w), k
    try: rk.Explorer(f, tr, ed, 40000).run((frozenset(), ()))
    except rk._model.AnalysisError:
        r.count('followed_one_by_one')
        for p in start:
            if bad: break
            try: alone(f, p, V, taints, tr, bad)
            except rk._model.AnalysisError: r.count('not_decided'); r.sample('not decided: %s' % f.name)
    for i in bad[:1]: r.violation('%s:unset' % f.name, '%s %s uses a variable that has not been given a value on a path that leads there' % (i.loc(), f.name))


def alone(f, p, V, taints, tr, bad):
    """the paths that matter to one variable: what is remembered of the others is what decides whether a use is reached"""
    tainted = {p.idx}
    while True:
        more = [i.idx for i in f.insts if i.op == 'phi' and i.idx not in tainted and any(isinstance(v, int) and taints(v, tainted) for v, _ in i.x)]
        if not more: break
        tainted.update(more)
    uses = set()
    for i in f.insts:
        o = list(i.x[:2]) if i.op == 'store' else list(i.args) if i.op == 'call' else list(i.x[:1]) if i.op in ('ret', 'load') or i.op in ('br', 'switch') and len(i.x) >= 3 else []
        if any(taints(v, tainted) for v in o): uses.add(i.bb)
    if not uses: return
    # which uses each block leads to
    lead = {b: {b} & uses for b in range(len(f.blocks))}
    changed = True
    while changed:
        changed = False
        for b in range(len(f.blocks)):
            for n in f.succs[b]:
                if not lead[n] <= lead[b]: lead[b] |= lead[n]; changed = True
    relevant = set()

    def behind(o, depth=0):
        if not isinstance(o, int) or depth > 8: return
        i = f.insts[o]
        if i.op == 'phi':
            if o in relevant: return
            relevant.add(o)
            for v, _ in i.x: behind(v, depth + 1)
        elif i.op == 'icmp': behind(i.x[1], depth + 1); behind(i.x[2], depth + 1)
        elif i.op in rk.CASTS or i.op in ('freeze', 'xor', 'add', 'and', 'or'): behind(i.x[0], depth + 1)
    for b in range(len(f.blocks)):
        t = f.blocks[b][-1]
        if t.op not in ('br', 'switch') or len(f.succs[b]) < 2 or not lead[b]: continue
        near = any(n in uses or f.succs[n] and all(m in uses for m in f.succs[n]) for n in f.succs[b])
        if near or any(lead[n] != lead[b] for n in f.succs[b]): behind(t.x[0])
    before = {b for b in range(len(f.blocks)) if b == p.bb or p.bb in f.reach()[b]}

    def ed(f_, bb, pos, s):
        u, known = s
        k = V.edge(bb, pos, known)
        if k is None: return None
        n = f.succs[bb][pos]
        w = set(u)
        for i in f.blocks[n]:
            if i.op != 'phi': break
            w.discard(i.idx)
            for v, q in i.x:
                if q == bb and (i is p and v == ['u'] or i.idx in tainted and isinstance(v, int) and taints(v, u)): w.add(i.idx)
        if not w and n not in before or w and not lead[n]: return None
        return frozenset(w), tuple(x for x in k if x[0] in relevant)
    rk.Explorer(f, lambda i, s: [] if bad else tr(i, s), ed, 40000).run((frozenset(), ()))


# --- locals in memory

def resolve(f, o):
    """(object, constant offset or None, offset of the array walked through, its size)"""
    off = 0; area = None
    for _ in range(20):
        if not isinstance(o, int): return None
        i = f.insts[o]
        if i.op == 'alloca': return i.idx, off, area
        if i.op in ('bitcast',): o = i.x[0]; continue
        if i.op == 'load':
            # the union that stands for any kind of address
            b = i.x[0]
            while isinstance(b, int) and f.insts[b].op in ('getelementptr', 'bitcast'): b = f.insts[b].x[0]
            if not (isinstance(b, int) and f.insts[b].op == 'alloca' and 'SOCKADDR_ARG' in (f.insts[b].x[2] or '')): return None
            v = [s for s in f.users().get(b, []) if s.op == 'store' and s.x[1] == b]
            if len(v) != 1 or not f.dominates(v[0], i): return None
            o = v[0].x[0]; continue
        if i.op == 'getelementptr':
            o2 = 0
            for p in i.x[1]:
                if p[0] == 'f': o2 += p[4]
                else:
                    c = f.const(p[1])
                    if c is None: area = True; continue
                    o2 += c * p[2]
            off += o2
            o = i.x[0]; continue
        return None
    return None


def named(P, ty, size, off=0, depth=0):
    """intervals of bytes that are members (not padding)"""
    if ty.startswith('S:') and depth < 8:
        s = P.structs.get(ty[2:])
        if not s or not s['fields']: return [(off, off + size)]
        out = []
        for fl in s['fields']:
            n, o, z = fl[0], fl[1], fl[2]
            if n == 'sin_zero': continue
            out.append((off + o, off + o + z))
        return out
    return [(off, off + size)]


def covered(init, a, b):
    for x, y in init:
        if x <= a and b <= y: return True
    return False


def put(init, a, b):
    out = []
    for x, y in init:
        if y < a or x > b: out.append((x, y))
        else: a, b = min(a, x), max(b, y)
    out.append((a, b))
    return tuple(sorted(out))


def conversions(fmt):
    """kinds of the outputs of a scan"""
    out = []
    for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|j|z|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', fmt):
        if m.group(4) == '%' or m.group(1): continue
        if m.group(4) == 'n': out.append('n'); continue
        out.append(m.group(4)[0])
    return out


def objects(r, P, f):
    allocas = [i for i in f.insts if i.op == 'alloca' and i.x and i.x[1] and not (i.x[2] or '').startswith('[1xS:__va_list')]
    if not allocas: return
    uses = {}
    for i in f.insts:
        if i.op == 'alloca': continue
        for o in ops(i):
            z = resolve(f, o)
            if z and not (i.op in ('getelementptr', 'bitcast')): uses.setdefault(z[0], []).append((i, o, z))
    for a in allocas:
        us = uses.get(a.idx, [])
        if not us: continue
        # pointers kept or chosen: what is done through them is not followed
        if any(i.op in ('phi', 'select', 'ptrtoint', 'ret', 'icmp', 'cmpxchg', 'atomicrmw') and i.op != 'icmp' for i, o, z in us): r.count('locals_not_followed'); continue
        follow(r, P, f, a, us)


def ops(i):
    if i.op == 'phi': return [v for v, p in i.x]
    if i.op == 'call': return list(i.args)
    if i.op == 'getelementptr': return [i.x[0]]
    if i.op == 'store': return list(i.x[:2])
    if i.op == 'load': return list(i.x[:1])
    if i.op in ('br', 'switch'): return []
    return [o for o in i.x if isinstance(o, int)]


def follow(r, P, f, a, us):
    size = a.x[1]
    need = named(P, a.x[2] or '', size)
    r.count('locals_followed')
    by = {}
    for i, o, z in us: by.setdefault(i.idx, []).append((i, o, z))
    if not hasattr(f, '_facts'): f._facts = rk.Facts(f, P)
    F = f._facts
    V = r_c26.Values(f)
    given = few(P, f)
    name = f.vars.get(a.idx, ['?'])[0]
    bad = {}

    def missing(init, x, y):
        for p, q in need:
            lo, hi = max(p, x), min(q, y)
            if lo < hi and not covered(init, lo, hi): return True
        return False

    def touched(init, z):
        return any(y > z[1] for x, y in init) if z[2] else False

    def read(i, init, x, y, z, how):
        r.count('reads_checked')
        if bad and exact: return
        if z[2]:
            # an element chosen at run time: a loop that fills the array may have come before
            if not init and not any(j is not i and (j.op == 'store' and j.x[1] == o2 or j.op == 'call') and f.reaches(j, i) for j, o2, z2 in us): bad.setdefault(how, i)
        elif missing(init, x, min(y, size)):
            bad.setdefault(how, i)
            if not exact and len(seen) < 40 and ex.key not in seen: seen.append(ex.key)

    def tr(i, s):
        init, pend, facts, known = s
        if bad and exact: return []
        if facts and exact: facts = F.kill(f, i, facts)
        if i.idx not in by: return [(init, pend, facts, known)] if facts is not s[2] else None
        c = i.callee if i.op == 'call' else None
        for _, o, z in by[i.idx]:
            if i.op == 'store':
                if o == i.x[0]:
                    if not (isinstance(i.x[1], int) and f.insts[i.x[1]].op == 'alloca' and 'SOCKADDR_ARG' in (f.insts[i.x[1]].x[2] or '')): init = ((0, size),)
                    continue      # its address is kept
                w = i.x[2] if len(i.x) > 2 and isinstance(i.x[2], int) else 8
                init = put(init, z[1], size if z[2] else z[1] + w)
                pend = tuple(p for p in pend if p[2] != z[1])
            elif i.op == 'load':
                w = WIDTH.get(i.ty)
                if w and not bitfield(f, i): read(i, init, z[1], z[1] + w, z, 'read')
            elif i.op == 'call':
                init, pend = call(i, c, o, z, init, pend)
        if init == ((0, size),): return []
        return [(init, pend, facts, known)]

    def call(i, c, o, z, init, pend):
        full = ((0, size),)
        k = [n for n, x in enumerate(i.args) if x == o and not isinstance(x, list)]
        if c is None: return full, ()
        if c.startswith('llvm.memset') or c == 'memset':
            n = f.const(i.args[2])
            return (put(init, z[1], min(size, z[1] + n)) if n is not None and not z[2] else full), ()
        if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
            n = f.const(i.args[2])
            if 1 in k:
                d = resolve(f, i.args[0])
                if d is None and n is not None: read(i, init, z[1], z[1] + n, z, 'copied')
            if 0 in k: init = put(init, z[1], min(size, z[1] + n)) if n is not None and not z[2] else full
            return init, pend
        if c in SCANS:
            fa, first = SCANS[c]
            for n in k:
                if n < first: continue
                e = f.expr(i.args[fa])
                if e[0] != 's': return full, ()
                cv = conversions(e[1])
                m = n - first
                r.count('results_of_scans')
                if m >= len(cv) or z[2]: return full, ()
                pend = tuple(p for p in pend if p[2] != z[1]) + ((i.idx, 1 + sum(1 for x in cv[:m] if x != 'n'), z[1], min(size, z[1] + 8) if cv[m] not in 's[c' else size, -1 if not token(f, i.args[0]) else 0, sum(1 for x in cv if x != 'n')),)
            if 0 in k and fa == 1: read(i, init, z[1], z[1] + 1, z, 'text')
            return init, pend
        hit = False
        if c in TEXTS:
            for n in TEXTS[c]:
                if n in k: read(i, init, z[1], z[1] + 1, z, 'text'); hit = True
        if c in FORMATS and FORMATS[c] < len(i.args):
            e = f.expr(i.args[FORMATS[c]])
            if e[0] == 's':
                cv = [m for m in re.findall(r'%[-+ #0]*(\*|\d*)(?:\.(\*|\d*))?(?:hh|h|ll|l|j|z|t|L)?([a-zA-Z%])', e[1]) if m[2] != '%']
                n = FORMATS[c] + 1
                for w, p, t in cv:
                    n += (w == '*') + (p == '*')
                    if t == 's' and n in k: read(i, init, z[1], z[1] + 1, z, 'text'); hit = True
                    n += 1
        if c in OUT and OUT[c][0] in k:
            n = f.const(i.args[OUT[c][1]]); hit = True
            if n is not None: read(i, init, z[1], z[1] + n, z, 'sent')
        if c == 'sendto' and (1 in k or 4 in k):
            for n in k:
                m = f.const(i.args[n + 1]) if n in (1, 4) else None; hit = True
                if m is not None: read(i, init, z[1], z[1] + m, z, 'sent')
        if c in ('mktime', 'timegm', 'gmtime', 'localtime', 'asctime') and 0 in k:
            read(i, init, z[1], z[1] + (8 if c[0] in 'gl' else 36), z, 'read'); hit = True
        if c == 'strftime' and 3 in k: read(i, init, z[1], z[1] + 24, z, 'read'); hit = True
        if c == 'fwrite' and 0 in k:
            hit = True
            n, m = f.const(i.args[1]), f.const(i.args[2])
            if n is not None and m is not None: read(i, init, z[1], z[1] + n * m, z, 'sent')
        if c in PAIRS:
            for n in k:
                if n >= PAIRS[c] and (n - PAIRS[c]) % 2 == 0 and n + 1 < len(i.args):
                    hit = True
                    m = f.const(i.args[n + 1])
                    if m is not None: read(i, init, z[1], z[1] + m, z, 'sent')
        writes = c in ('strcpy', 'strncpy', 'sprintf', 'snprintf', 'strcat', 'strncat', 'strftime', 'vsnprintf', 'vsprintf') and 0 in k
        if writes: return put(init, z[1], size if not need or len(need) == 1 else next((q for p, q in need if p <= z[1] < q), size)), pend
        if hit or c in NOTHING: return init, pend
        g = P.byname[c][0] if len(P.byname.get(c, ())) == 1 else None
        if g is not None and k and all(n < len(g.argty) for n in k):
            looks = [looked(P, g, n) for n in k]
            if None not in looks:
                # only looked at
                for m, w in looks:
                    for x, y in m:
                        if x is None:
                            if not z[2] and not init: bad.setdefault('handed to %s' % c, i)
                        else: read(i, init, z[1] + x, z[1] + y, z, 'handed to %s' % c)
                return (full, ()) if any(w for m, w in looks) else (init, pend)
        return full, ()

    def ed(f_, bb, pos, s):
        init, pend, facts, known = s
        if f.succs[bb][pos] not in ahead: return None
        if exact:
            facts = F.assume(f, bb, pos, facts)
            if facts is None: return None
            if empty(f, bb, pos, V, known): return None
            t = f.blocks[bb][-1]
            e = f.expr(t.x[0]) if t.op == 'switch' else None
            if e and e[0] == 'arg' and e[1] in given:
                cs = {c[0] for c in t.x[2:]}
                if pos < len(t.x) - 2:
                    if t.x[2 + pos][0] not in given[e[1]]: return None
                elif given[e[1]] <= cs: return None
            lim = limits(f, bb, pos, V, known)
            if lim is None: return None
            known = V.edge(bb, pos, known)
            if known is None: return None
            n = f.succs[bb][pos]
            k = {a: v for a, v in known if not isinstance(a, tuple)}
            for a, v in {**{a: v for a, v in known if isinstance(a, tuple)}, **lim}.items():
                if f.insts[a[1]].bb != n: k[a] = v
            # what no later branch asks for need not be kept
            tests, uses = later[n]
            known = tuple(sorted(((a, v) for a, v in k.items() if (a[1] if isinstance(a, tuple) else a) in uses), key=str))
            facts = frozenset(x for x in facts if (x[0], x[1]) in tests)
        if pend:
            k, at = rk.atoms(f, bb, pos)
            new = []
            for p in pend:
                lo, hi = p[4:]
                for x in (at if k == 'all' or len(at) == 1 else []):
                    if not x or x[0] == 'notin': continue
                    if not (isinstance(x[3], int) and f.val(x[3]) is f.insts[p[0]]): continue
                    c = x[2][1] if x[2][0] == 'c' else None
                    if c is not None: lo, hi = bound(x[0], c, lo, hi)
                t = f.blocks[bb][-1]
                if t.op == 'switch' and isinstance(t.x[0], int) and f.val(t.x[0]) is f.insts[p[0]]:
                    cs = [c[0] for c in t.x[2:]]
                    if pos < len(cs): lo, hi = bound('eq', cs[pos], lo, hi)
                    else:
                        while lo in cs and lo <= hi: lo += 1
                        while hi in cs and lo <= hi: hi -= 1
                if lo > hi: return None
                if lo >= p[1]: init = put(init, p[2], p[3])
                elif hi >= p[1]: new.append(p[:4] + (lo, hi))
            pend = tuple(new)
        return init, pend, facts, known
    # only where it may still be read
    ahead = {i.bb for i, o, z in us}; st = list(ahead)
    while st:
        for p in f.preds[st.pop()]:
            if p not in ahead: ahead.add(p); st.append(p)
    later = asked(f, ahead)
    exact = False
    seen = []
    ex = rk.Explorer(f, tr, ed, 15000)
    try: ex.run(((), (), frozenset(), ()))
    except rk._model.AnalysisError: r.count('not_decided'); r.sample('not decided: %s' % f.name); print('ND', f.name); return
    if not bad: return
    # again with what branches say about each other: first along the ways found, then all ways
    exact = True
    bad.clear()
    for key in seen[:12]:
        way = []
        k = key
        while k is not None: way.append(k[0]); k = ex.pred[k]
        way.reverse()
        st = ((), (), frozenset(), ())
        for n, b in enumerate(way):
            for i in f.blocks[b]:
                q = tr(i, st)
                if bad: break
                if q is not None: st = q[0] if q else None
                if st is None: break
            if bad or st is None or n + 1 == len(way): break
            for pos, x in enumerate(f.succs[b]):
                if x == way[n + 1]:
                    q = ed(f, b, pos, st)
                    if q is not None: break
            else: q = None
            st = q
            if st is None: break
        if bad: break
    if not bad:
        try: rk.Explorer(f, tr, ed, 15000).run(((), (), frozenset(), ()))
        except rk._model.AnalysisError:
            if not bad: r.count('not_decided'); return
    if not bad: return
    for how, i in bad.items():
        t = {'read': 'is read', 'copied': 'is copied', 'text': 'is used as a text', 'sent': 'leaves the process'}.get(how, 'is ' + how)
        r.violation('%s:%s:%s' % (f.name, name, how), '%s %s: the local %s %s before all of it has been given a value' % (i.loc(), f.name, name, t))


def asked(f, within):
    """per block: the conditions and the values that branches there or further on look at"""
    t = {}; u = {}
    memo = {}

    def deps(o, out, n=0):
        if not isinstance(o, int) or o in out or n > 12: return
        out.add(o)
        i = f.insts[o]
        if i.op in ('load', 'call', 'alloca', 'getelementptr'): return
        if i.op == 'phi':
            for v, p in i.x: deps(v, out, n + 1)
            return
        for x in i.x: deps(x, out, n + 1)
    for b in within:
        t[b] = set(); u[b] = set()
        x = f.blocks[b][-1]
        if x.op == 'br' and len(x.x) == 3:
            for p in (0, 1):
                m, at = rk.atoms(f, b, p)
                t[b] |= {(a[1], a[2]) for a in at if a and a[0] != 'notin'}
            deps(x.x[0], u[b])
        elif x.op == 'switch': deps(x.x[0], u[b])
    ch = True
    while ch:
        ch = False
        for b in within:
            for s in f.succs[b]:
                if s in within and not (t[s] <= t[b] and u[s] <= u[b]): t[b] |= t[s]; u[b] |= u[s]; ch = True
    return {b: (t[b], u[b]) for b in within}


def bitfield(f, i):
    """a load that only serves to keep the other bits of the unit it is part of"""
    st = [i]; n = 0
    while st:
        j = st.pop(); n += 1
        if n > 12: return False
        for u in f.users().get(j.idx, []):
            if isinstance(u, int): u = f.insts[u]
            if u.op in ('and', 'or'): st.append(u)
            elif u.op == 'store' and u.x[0] == j.idx and f.expr(u.x[1]) == f.expr(i.x[0]): continue
            else: return False
    return True


def looked(P, g, n, depth=0):
    """bytes of what argument n points to that this routine may read; None: it may also change or keep it"""
    if not hasattr(P, '_looked'): P._looked = {}
    if (g.name, n) in P._looked: return P._looked[(g.name, n)]
    P._looked[(g.name, n)] = None
    if not g.blocks or depth > 4: return None
    out = set(); st = [(['a', n], 0)]; seen = set(); own = set()
    while st:
        o, off = st.pop()
        for i in g.insts:
            if i.op == 'alloca' or not any(x == o and type(x) is type(o) for x in ops(i)): continue
            if i.op == 'getelementptr':
                o2 = off
                for p in i.x[1]:
                    if o2 is None: break
                    if p[0] == 'f': o2 += p[4]
                    else:
                        c = g.const(p[1])
                        o2 = None if c is None else o2 + c * p[2]
                if (i.idx, o2) not in seen: seen.add((i.idx, o2)); st.append((i.idx, o2))
            elif i.op == 'load':
                if bitfield(g, i): continue
                w = WIDTH.get(i.ty)
                out.add((None, None) if off is None or not w else (off, off + w))
            elif i.op == 'icmp': pass
            elif i.op == 'store' and i.x[0] != o and off is not None and isinstance(i.x[2], int): own.add((off, off + i.x[2]))
            elif i.op == 'call' and i.callee:
                c = i.callee
                for m, x in enumerate(i.args):
                    if not (x == o and type(x) is type(o)): continue
                    if (c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove')) and m == 1:
                        z = g.const(i.args[2])
                        out.add((None, None) if off is None or z is None else (off, off + z))
                    elif c in TEXTS and m in TEXTS[c] and not (m == 0 and c in ('strcat', 'strncat')): out.add((None, None) if off is None else (off, off + 1))
                    elif c in FORMATS and m > FORMATS[c] or c == 'RKLog': pass
                    elif len(P.byname.get(c, ())) == 1 and m < len(P.byname[c][0].argty):
                        q = looked(P, P.byname[c][0], m, depth + 1)
                        if q is None: return None
                        out |= {(None, None) if a is None or off is None else (off + a, off + b) for a, b in q[0]}
                        if q[1]: return None
                    else: return None
            else: return None
    left = set()
    for x, y in out:
        if x is None: left.add((x, y)); continue
        for p, q in sorted(own):
            if p <= x < q: x = q
            if x < p < y: left.add((x, p)); x = q
        if x < y: left.add((x, y))
    P._looked[(g.name, n)] = left, bool(own)
    return P._looked[(g.name, n)]


def token(f, o):
    """a word cut off by strtok is not empty"""
    return all(f.expr(v)[0] == 'call' and f.expr(v)[1] in ('strtok', 'strtok_r') for v in f.phi_leaves(o))


def limits(f, bb, pos, V, known):
    """{('b', value): (lowest, highest)} from a comparison with a value that is known on this path; None: it cannot come out this way"""
    t = f.blocks[bb][-1]
    if t.op != 'br' or len(t.x) != 3: return {}
    k, at = rk.atoms(f, bb, pos)
    if k != 'all': return {}
    d = dict(known); out = {}
    for x in at:
        if not x or x[0] == 'notin' or x[0] not in SWAP: continue
        for a, b, p in ((x[3], x[4], x[0]), (x[4], x[3], SWAP[x[0]])):
            c = V.of(b, known)
            if not isinstance(c, int) or not isinstance(a, int) or V.of(a, known) is not None: continue
            v = f.val(a)
            if v is None or isinstance(v, (list, int)) or v.op not in ('phi', 'add', 'sub'): continue
            lo, hi = out.get(('b', v.idx), d.get(('b', v.idx), (-1 << 31, 1 << 31)))
            if p == 'ne': pass
            else: lo, hi = bound(p, c, lo, hi)
            if lo > hi: return None
            if abs(c) < 4 and (lo, hi) != (-1 << 31, 1 << 31): out[('b', v.idx)] = (lo, hi)
    return out


SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def few(P, f):
    """{argument: the constants that a static function is handed}"""
    if not hasattr(P, '_few'):
        P._few = {}
        for g in P.analysed():
            for i in g.insts:
                if i.op == 'call' and i.callee in P.byname:
                    for n, a in enumerate(i.args): P._few.setdefault((i.callee, n), set()).add(g.const(a))
    if not f.static or P.address_taken() and f.name in P.address_taken(): return {}
    return {n: P._few[(f.name, n)] for n in range(len(f.argty)) if P._few.get((f.name, n)) and None not in P._few[(f.name, n)] and len(P._few[(f.name, n)]) < 9}


def empty(f, bb, pos, V, known):
    """on this edge a counted loop is left before its first round; what it counts to is known not to be zero"""
    t = f.blocks[bb][-1]
    if t.op != 'br' or len(t.x) != 3: return False
    k, at = rk.atoms(f, bb, pos)
    for x in at:
        if not x or x[0] not in ('sge', 'uge') or k != 'all': continue
        if V.of(x[3], known) != 0: continue
        for fa in rk.facts_at(f, t):
            if fa[0] in ('ne', 'sgt', 'ugt') and fa[1] == x[2] and fa[2] == ('c', 0): return True
    return False


def bound(p, c, lo, hi):
    if p == 'eq': return max(lo, c), min(hi, c)
    if p in ('sgt', 'ugt'): return max(lo, c + 1), hi
    if p in ('sge', 'uge'): return max(lo, c), hi
    if p in ('slt', 'ult'): return lo, min(hi, c - 1)
    if p in ('sle', 'ule'): return lo, min(hi, c)
    if p == 'ne':
        if c == lo: lo += 1
        if c == hi: hi -= 1
    return lo, hi


# --- objects that are made and kept

def member_accessed(P):
    """{(struct, member)}: what is kept there has members itself"""
    if not hasattr(P, '_macc'):
        P._macc = {}
        for f in P.analysed():
            for i in f.insts:
                if i.op != 'getelementptr': continue
                e = f.expr(i.idx)
                while e[0] in ('fld', 'idx'):
                    if e[0] == 'fld':
                        b = e[1]
                        while b[0] == 'idx': b = b[1]
                        l = rk.lastfield_of(b) if b[0] == 'ld' else None
                        if l: P._macc.setdefault(l, set()).add((e[2], e[3]))
                    e = e[1]
    return P._macc


def under(e, names):
    """e lies in one of the objects"""
    while True:
        if e in names: return True
        if e[0] in ('fld', 'idx'): e = e[1]
        elif e[0] == 'op' and e[1] in ('add', 'bitcast'): e = e[2]
        else: return False


def clearer(P, g, n, depth=0):
    """the routine gives the whole of what its argument points to a value"""
    if depth > 3 or not g.blocks: return False
    for i in g.insts:
        if i.op != 'call' or not i.callee: continue
        if (i.callee.startswith(('llvm.memset', 'llvm.memcpy')) or i.callee in ('memset', 'memcpy', 'fread', 'read')) and g.expr(i.args[0]) == ('arg', n): return True
        for m, a in enumerate(i.args):
            if g.expr(a) == ('arg', n) and len(P.byname.get(i.callee, ())) == 1 and clearer(P, P.byname[i.callee][0], m, depth + 1): return True
    return False


def kept(r, P, f):
    for c in f.calls('malloc', 'posix_memalign', 'fftwf_malloc', 'aligned_alloc', 'memalign'):
        size = f.expr(c.args[2 if c.callee == 'posix_memalign' else 1 if c.callee in ('aligned_alloc', 'memalign') else 0])
        names = set(); keep = set(); returned = False
        if c.callee == 'posix_memalign': names.add(('ld', f.expr(c.args[0]))); keep |= {f.expr(c.args[0])} if rk.lastfield(f.expr(c.args[0])) else set()
        else: names.add(f.expr(c.idx))
        for _ in range(2):
            for i in f.insts:
                if i.op == 'store' and any(f.expr(v) in names for v in f.phi_leaves(i.x[0])):
                    a = f.expr(i.x[1]); names.add(('ld', a))
                    if rk.lastfield(a): keep.add(a)
                elif i.op == 'phi' and any(f.expr(v) in names for v in f.phi_leaves(i.idx)): names.add(f.expr(i.idx))
                elif i.op == 'ret' and i.x and any(f.expr(v) in names for v in f.phi_leaves(i.x[0])): returned = True
        if not keep and not returned: continue
        # what is it made of
        struct = set(); stored = set()
        for i in f.insts:
            if i.op != 'getelementptr': continue
            e = f.expr(i.idx); q = e
            while q[0] in ('fld', 'idx'):
                if q[0] == 'fld':
                    b = q[1]
                    while b[0] == 'idx': b = b[1]
                    if b in names: struct.add(q[2])
                q = q[1]
        for a in keep:
            l = rk.lastfield(a)
            struct |= {s for s, m in member_accessed(P).get(l, ())}
        struct = {s for s in struct if not s.startswith('anon') and len(P.structs.get(s, {}).get('fields', ())) > 2}
        if not struct: continue
        r.count('objects_made')
        for i in f.insts:
            if i.op == 'store':
                e = f.expr(i.x[1])
                while e[0] in ('fld', 'idx'):
                    if e[0] == 'fld':
                        b = e[1]
                        while b[0] == 'idx': b = b[1]
                        if b in names: stored.add((e[2], e[3]))
                    e = e[1]
        if any({fl[0] for fl in P.structs[s]['fields']} <= {m for t, m in stored if t == s} for s in struct): r.count('objects_set_member_by_member'); continue

        def enough(i, m):
            e = f.expr(m)
            if e == size: return True
            if e[0] == 'op' and size[0] == 'op' and e[1] == size[1] == 'mul' and e[3] == size[3]:
                # made for at least so many: MAX(3, n)
                a, b = (f.phi_leaves(c2.x[0]) for c2 in (f.val(m), f.val(c.args[0])) if hasattr(c2, 'x') and c2.x)
                if {f.expr(v) for v in a} <= {f.expr(v) for v in b}: return True
            return e[0] == 'c' and size[0] == 'c' and e[1] >= size[1]
        short = []

        def tr(i, s):
            if i.op != 'call': return None
            n = i.callee or ''
            if n in ('free', 'exit'): return [] if n == 'exit' or under(f.expr(i.args[0]), names) else None
            for m, a in enumerate(i.args):
                e = f.expr(a)
                if e not in names: continue
                if n.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or n in ('memset', 'memcpy'):
                    if m: continue
                    if enough(i, i.args[2]): return []
                    short.append(i)
                elif n in ('read', 'fread', 'recv'): return []
                elif len(P.byname.get(n, ())) == 1 and clearer(P, P.byname[n][0], m): return []
            return None

        def ed(f_, bb, pos, s):
            k, at = rk.atoms(f, bb, pos)
            for x in at if k == 'all' else []:
                if x and x[0] == 'eq' and (x[1] in names and x[2] in (('c', 0), ('n',), ('null',)) or x[2] in names and x[1] in (('c', 0), ('n',), ('null',))): return None
                if x and c.callee == 'posix_memalign' and x[0] in ('ne', 'slt', 'sgt') and x[1] == f.expr(c.idx): return None
            return s
        try: ex = rk.Explorer(f, tr, ed, 20000).run('made', c.bb, c.pos + 1)
        except rk._model.AnalysisError: r.count('not_decided'); continue
        if ex:
            r.violation('%s:%s:made' % (f.name, sorted(struct)[0]), '%s %s: the %s made here can be kept without being given a value as a whole%s' % (c.loc(), f.name, '/'.join(sorted(struct)), ' (%s clears only a part)' % short[0].loc() if short else ''))
