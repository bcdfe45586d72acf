"""C10: every resource stored in an object's member is released by the object's destructor, stop routine or own thread.

Obligations: (member path, index range) of every store of a freshly acquired resource, over all functions. Discharged by a
release of the same member path located in tear-down code, covering the same index range, and not dependent on a condition that
can be false while the resource is there."""
import re
import rk, r_c12
from collections import defaultdict

ALLOC = {'malloc', 'calloc', 'strdup', 'realloc', 'fftwf_malloc', 'fopen', 'fdopen', 'opendir', 'open', 'socket', 'sem_open', 'aligned_alloc', 'SSL_new', 'SSL_CTX_new'}
REL = {'free', 'fftwf_free', 'fclose', 'close', 'closedir', 'fftwf_destroy_plan', 'sem_close', 'pthread_mutex_destroy', 'pthread_attr_destroy', 'SSL_free', 'SSL_CTX_free'}
KIT_ALLOC = re.compile(r'^RK\w*(Init|Create|Clone)(With\w+|From\w+|As\w+)?$')
KIT_REL = re.compile(r'^RK\w*(Free|Destroy)$')
TEARDOWN = re.compile(r'(Free|Stop|Destroy|Close|Release|Shutdown|Terminate|Unload|Deinit|HangUp|Reset)$', re.I)
# members that hold a borrowed reference or an alias of a local that its own routine releases; none of them owns anything
BORROWED = {
    'RKCompressionScratch.fftModule': 'borrowed from the engine',
    'RKConfig.userResource': 'the user module, owned by the radar',
    'RKClient.userPayload': 'alias of the receive buffer of theClient, released there through the local',
    'RKFileRemover.folders': 'alias of a local of fileRemover', 'RKFileRemover.filenames': 'alias of a local of fileRemover',
    'RKFileRemover.indexedStats': 'alias of a local of fileRemover',
}
ALIAS_OF_LOCAL = ('RKClient.userPayload', 'RKFileRemover.folders', 'RKFileRemover.filenames', 'RKFileRemover.indexedStats')


def path(f, e):
    """member path with '*' for loads, the index expressions passed, and the root"""
    out = []; idx = []
    while True:
        if e[0] == 'fld': out.append('%s.%s' % (e[2], e[3])); e = e[1]
        elif e[0] == 'idx': idx.append(e[2]); e = e[1]
        elif e[0] == 'ld': out.append('*'); e = e[1]
        else: break
    return tuple(out[::-1]), idx[::-1], e


def short(k):
    """the trailing part of a member path that identifies the member: from the last pointer member on"""
    k = [x for x in k if x != '*' or True]
    last = max(i for i, x in enumerate(k) if x != '*')
    return tuple(k[last:])


def span(f, ix):
    """(lo, hi) of an index: constants, or the bound expression of the loop that drives it"""
    if ix[0] == 'c': return (ix[1], ix[1] + 1)
    if ix[0] == 'phi':
        p = f.insts[ix[1]]
        for bb in [p.bb] + [b for b in range(len(f.blocks)) if True]:
            t = f.blocks[bb][-1]
            if t.op == 'br' and len(t.x) == 3:
                fa = rk.edge_fact(f, bb, 0)
                if not fa: continue
                for (pr, a, b) in ((fa[0], fa[1], fa[2]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[1])):
                    same = a == ix
                    nxt = a[0] == 'op' and a[1] == 'add' and ix in a[2:] and ('c', 1) in a[2:]
                    if (same or nxt) and pr in ('slt', 'ult', 'ne', 'sge', 'uge', 'eq', 'sle', 'ule', 'sgt', 'ugt'):
                        inits = [f.expr(x[0]) for x in p.x]
                        lo = [x[1] for x in inits if x[0] == 'c']
                        hi = b
                        if pr in ('sle', 'ule', 'sgt', 'ugt') and hi[0] == 'c': hi = ('c', hi[1] + 1)
                        if lo and hi[0] != 'c' and pr in ('sle', 'ule', 'sgt', 'ugt'): hi = ('le', hi)
                        if lo: return (min(lo), hi[1] if hi[0] == 'c' else hi)
    return None


def collect(P):
    al = defaultdict(list); fr = defaultdict(list)
    wrappers_rel = {}
    # a kit function that releases its argument counts as a release
    for f in P.analysed():
        for i in f.insts:
            if i.op == 'store':
                for v in f.phi_leaves(i.x[0]):
                    e = f.expr(v)
                    if e[0] == 'ld' and rk.root(e[1])[0] == 'loc': e = parked(f, e[1]) or e
                    if e[0] == 'call' and e[1] and (e[1] in ALLOC or KIT_ALLOC.match(e[1]) or e[1].startswith('fftwf_plan')):
                        k, ix, r = path(f, f.expr(i.x[1]))
                        if k and k[-1] != '*': al[k].append((e[1], f, i, ix))
            elif i.op == 'call' and i.callee:
                c = i.callee
                if (c == 'posix_memalign' or re.match(r'^RK\w*Alloc$', c)) and i.args:
                    k, ix, r = path(f, f.expr(i.args[0]))
                    if k and k[-1] != '*': al[k].append((c, f, i, ix))
                if c in ('pthread_mutex_init',):
                    k, ix, r = path(f, f.expr(i.args[0]))
                    if k and k[-1] != '*': al[k].append((c, f, i, ix))
                if (c in REL or KIT_REL.match(c)) and i.args:
                    for v in f.phi_leaves(i.args[0]):
                        k, ix, r = path(f, f.expr(v))
                        if k: fr[k].append((c, f, i, ix, r))
                    continue
            if i.op == 'call' and not i.callee:
                # a user-supplied free routine
                e = f.expr(i.x[0])
                lf = rk.lastfield(e[1]) if e[0] == 'ld' else None
                if lf and re.search('free', lf[1], re.I) and i.args:
                    k, ix, r = path(f, f.expr(i.args[0]))
                    if k: fr[k].append(('->' + lf[1], f, i, ix, r))
    return al, fr


def parked(f, a):
    """the acquisition whose result is kept in an element of a local array first"""
    for i in f.insts:
        if i.op == 'store' and f.expr(i.x[1]) == a:
            for v in f.phi_leaves(i.x[0]):
                e = f.expr(v)
                if e[0] == 'call' and e[1] in ALLOC: return e
    return None


def controlling(f, inst):
    """branch edges a release depends on: (fact, block) that must hold for it to be reached, from control dependence"""
    return [g for g in rk.guards(f, inst)]


def allowed_guard(f, g, kpath, bits):
    """conditions under which a release may be skipped without leaking"""
    p, a, b, oa, ob, blk = g
    both = (a, b)
    # pointer tests of anything (the resource itself, its parent, the object)
    for x, y in (both, both[::-1]):
        if y == ('c', 0) and x[0] in ('ld', 'arg', 'call', 'phi'):
            return p in ('ne', 'ugt', 'sgt', 'eq', 'sge', 'uge') if x[0] != 'arg' else True
    return None


def itself(r, P):
    """a routine that frees an object frees it on every path (an object without content, and a refused or failing call, aside)"""
    rel = r_c12.releasers(P)
    for f in P.analysed():
        if not KIT_REL.match(f.name): continue
        for n in range(len(f.argty)):
            hit = {i.idx for i in f.calls() for m, a in enumerate(i.args) if (i.callee in ('free', 'fftwf_free') and m == 0 or (i.callee, m) in rel) and f.expr(a) == ('arg', n)}
            if not hit: continue
            r.count('objects_freed')
            if (f.name, n) in rel: continue
            seen = set(); st = [(0, None)]; bad = None
            while st and bad is None:
                b, prev = st.pop()
                if b in seen: continue
                seen.add(b)
                if any(i.idx in hit for i in f.blocks[b]): continue
                t = f.blocks[b][-1]
                if t.op == 'ret': bad = t; break
                for k, s in enumerate(f.succs[b]):
                    m, at = rk.atoms(f, b, k)
                    # nothing there, or nothing in it
                    if m == 'all' and any(fa[0] == 'eq' and fa[2] == ('c', 0) and (fa[1] == ('arg', n) or fa[1][0] == 'ld' and rk.root(fa[1][1]) == ('arg', n)) for fa in at): continue
                    st.append((s, b))
            if bad is not None: r.violation('%s:itself' % f.name, '%s %s returns at line %s without having released the object it is asked to free' % (f.where(), f.name, bad.line))


def check(r):
    P = rk.Program()
    r.explanation = ('Every place of every unit where a fresh buffer, file, lock, plan or kit object is stored in a structure member; each must have a release of the same member in tear-down code '
                     '(functions named ...Free/Stop/Destroy/Close, thread routines, and what they call), over the same index range, on a path that only tests whether the resource exists.')
    al, fr = collect(P)
    thr = {e for t in P.threads() for e in t[3]}
    overwritten(r, P, al, thr)
    itself(r, P)
    down = {f.name for f in P.analysed() if TEARDOWN.search(f.name)} | thr
    down = P.reachable_from(down)
    # functions that free through an argument: released member is the caller's
    for k, sites in sorted(al.items(), key=str):
        name = '>'.join(x for x in k if x != '*')
        s = short(k)
        mem = s[0]
        r.count('obligations')
        if k[-1].endswith('BufferSize'):   # sizes returned by RK...Alloc, not resources
            r.count('sizes'); continue
        if isscalar(P, mem, sites):
            r.count('not_a_resource'); continue
        if mem in BORROWED:
            if mem in ALIAS_OF_LOCAL: local_released(r, mem, sites)
            r.count('borrowed'); continue
        star = tuple(s) + ('*',)
        rels = []
        for kk, ws in fr.items():
            byaddr = sites[0][0] == 'pthread_mutex_init'
            t = tuple(kk)
            if byaddr and t and t[-1] != '*':
                if t[-1] == mem and ctx_ok(k, t): rels += ws
            elif t[-1:] == ('*',) and len(t) >= 2 and tail(t[:-1]) == tail(k) and ctx_ok(k, t[:-1]): rels += ws
        rels2 = [w for w in rels if w[1].name in down and w[1].name not in {x[1].name for x in sites if x[0] == 'realloc'}]
        fns = sorted({x[1].name for x in sites})
        if not rels2:
            r.violation('%s:%s' % (fns[0], mem), '%s:%d %s stores a new %s in %s, which nothing releases when the object is torn down%s' % (
                sites[0][1].file, sites[0][2].line, fns[0], sites[0][0], name, ' (released only in ' + ', '.join(sorted({w[1].name for w in rels})) + ')' if rels else ''))
            continue
        named = P.reachable_from({f.name for f in P.analysed() if TEARDOWN.search(f.name)})
        for g in sorted({x[1].name for x in sites} & thr):
            # what a thread routine acquires is released by it or by tear-down code, not only by another routine
            if not {w[1].name for w in rels2} & (named | P.reachable_from({g})):
                r.violation('%s:%s:other' % (g, mem), '%s %s stores a new %s in %s, which only %s releases' % (next(x[2].loc() for x in sites if x[1].name == g), g, sites[0][0], name, ', '.join(sorted({w[1].name for w in rels2}))))
        r.count('released')
        r.sample('%s acquired in %s, released in %s' % (name, ', '.join(fns[:2]), ', '.join(sorted({w[1].name for w in rels2})[:2])))
        shallow(r, P, mem, name, sites, rels2)
        ranges(r, P, mem, name, sites, rels2)
        conditions(r, P, mem, name, sites, rels2)


def inner(P, c):
    """what a kit function acquires for the inside of the object it makes: members it stores fresh resources in"""
    if not hasattr(P, '_inner'): P._inner = {}
    if c not in P._inner:
        out = set()
        for f in P.byname.get(c, ()):
            if f.decl: continue
            for i in f.insts:
                if i.op == 'store' and any(f.expr(v)[0] == 'call' and (f.expr(v)[1] in ALLOC or KIT_ALLOC.match(f.expr(v)[1] or '')) for v in f.phi_leaves(i.x[0])): a = f.expr(i.x[1])
                elif i.op == 'call' and i.args and (i.callee == 'posix_memalign' or re.match(r'^RK\w*Alloc$', i.callee or '')): a = f.expr(i.args[0])
                else: continue
                if rk.lastfield(a) and rk.root(a)[0] != 'loc': out.add(rk.lastfield(a))
        P._inner[c] = {x for x in out if not x[1].endswith('BufferSize') and '%s.%s' % x not in BORROWED}
    return P._inner[c]


def shallow(r, P, mem, name, sites, rels):
    """an object with resources of its own is released with them"""
    parts = set().union(*[inner(P, x[0]) for x in sites]) - {tuple(mem.split('.'))}
    if not parts: return
    r.count('objects_with_parts')
    if any(w[0] not in ('free', 'fftwf_free') for w in rels): return
    if not rels: return
    w = rels[0]
    if all(any(x.args and any(rk.lastfield_of(g.expr(v)) == m for v in g.phi_leaves(x.args[0])) for n in P.reachable_from({y[1].name for y in rels}) for g in P.byname.get(n, ()) for x in g.calls()) for m in parts): return
    r.violation('%s:shallow:%s' % (w[1].name, mem), '%s %s releases only the outside of %s, made by %s with %s' % (w[2].loc(), w[1].name, name, sites[0][0], ', '.join(sorted('%s.%s' % m for m in parts))))


def overwritten(r, P, al, thr):
    """an operation that may be repeated releases what a member holds before it stores a new one there"""
    reach = P.reachable_from(thr)
    for k, sites in sorted(al.items(), key=str):
        for c, f, i, ix in sites:
            if c in ('pthread_mutex_init', 'realloc') or f.name in thr or f.calls('pthread_create'): continue
            addr = f.expr(i.x[1]) if i.op == 'store' else f.expr(i.args[0])
            m = rk.lastfield(addr)
            if m is None or '%s.%s' % m in BORROWED or not existing(f, addr): continue
            r.count('repeatable_acquisitions')
            if any(fa[0] == 'eq' and fa[2] == ('c', 0) and rk.lastfield_of(fa[1]) == m for fa in rk.facts_at(f, i) if fa[0] != 'notin'): continue
            if any(x.callee and (x.callee in REL or KIT_REL.match(x.callee)) and f.reaches(x, i) and any(rk.lastfield_of(f.expr(v)) == m for v in f.phi_leaves(x.args[0])) for x in f.calls() if x.args): continue
            if connection(P, f, m, reach): continue
            r.violation('%s:overwrites:%s.%s' % (f.name, m[0], m[1]), '%s %s stores a new %s in %s.%s without releasing what the member may already hold' % (i.loc(), f.name, c, m[0], m[1]))


def existing(f, addr):
    """the address lies in an object that was there before this function began"""
    e = addr
    while True:
        if e[0] == 'ld':
            for s in f.insts:
                if s.op == 'store' and f.expr(s.x[1]) == e[1] and any(f.expr(v)[0] == 'call' for v in f.phi_leaves(s.x[0])): return False
                if s.op == 'call' and s.callee and s.args and (s.callee == 'posix_memalign' or s.callee.endswith('Alloc')) and f.expr(s.args[0]) == e[1]: return False
            e = e[1]
        elif e[0] in ('fld', 'idx'): e = e[1]
        else: break
    return e[0] in ('arg', 'g')


def connection(P, f, m, reach):
    """acquired by the component's own thread each time round, released there too"""
    return f.name in reach


def tail(k):
    """last member and the number of loads after it"""
    k = list(k)
    n = 0
    while k and k[-1] == '*': k.pop(); n += 1
    return (k[-1] if k else None, n)


def ctx_ok(a, b):
    """two member paths that end in the same member denote the same thing unless the enclosing members differ visibly"""
    a = [x for x in a if x != '*']; b = [x for x in b if x != '*']
    n = min(len(a), len(b))
    return a[-n:] == b[-n:]


def isscalar(P, mem, sites):
    return False


def local_released(r, mem, sites):
    """the local that the member aliases must be released by the same function before it returns"""
    for c, f, i, ix in sites:
        for v in f.phi_leaves(i.x[0]):
            if not isinstance(v, int): continue
            frees = [x for x in f.calls('free') if v in f.phi_leaves(x.args[0])]
            rets = [x for x in f.insts if x.op == 'ret']
            src = f.insts[v]
            ok = frees and all(leaves(f, i, x, {y.idx for y in frees}) for x in rets)
            r.count('aliases_checked')
            if not ok:
                r.violation('%s:%s' % (f.name, mem), '%s %s does not release the buffer behind %s on every way out' % (src.loc(), f.name, mem))


def leaves(f, a, ret, rel):
    """every path from a to ret passes one of the instructions rel"""
    seen = set(); st = [(a.bb, a.pos + 1)]
    while st:
        bb, pos = st.pop()
        hit = False
        for i in f.blocks[bb][pos:]:
            if i.idx in rel: hit = True; break
            if i.idx == ret.idx: return False
        if hit: continue
        for s in f.succs[bb]:
            if s not in seen: seen.add(s); st.append((s, 0))
    return True


def ranges(r, P, mem, name, sites, rels):
    """constant index coverage: what is acquired per index must be released per index"""
    def cover(lst):
        per = []
        for c, f, i, ix, *rest in lst:
            per.append([span(f, x) for x in ix if x != ('c', 0) or True])
        return per
    A = cover(sites); R = cover(rels)
    n = min((len(x) for x in A + R), default=0)
    if not n: return
    for d in range(1, n + 1):
        a = [x[-d] for x in A]; b = [x[-d] for x in R]
        if any(x is None for x in a + b): continue
        if all(isinstance(v, int) for x in a + b for v in x):
            ca = set().union(*[range(lo, min(hi, lo + 4096)) for lo, hi in a]); cb = set().union(*[range(lo, min(hi, lo + 4096)) for lo, hi in b])
            r.count('index_ranges_compared')
            if not ca <= cb:
                r.violation('%s:range:%s' % (rels[0][1].name, mem), '%s %s releases only elements %s of %s, while elements %s are acquired' % (rels[0][2].loc(), rels[0][1].name, fmt(cb), name, fmt(ca)))
        elif all(isinstance(v, int) for x in a for v in x) and all(isinstance(x[0], int) and not isinstance(x[1], int) for x in b):
            # all elements are acquired, a run-time count of them is released
            r.count('index_ranges_compared')
            ms = [rk.lastfield_of(y) for x in b for y in expand(None, x[1]) if not isinstance(y, int)] if all(x[1][0] in ('ld', 'le') for x in b) else []
            if ms and all(m and not fixed(P, m, max(y[1] for y in a)) for m in ms):
                r.violation('%s:range:%s' % (rels[0][1].name, mem), '%s %s releases elements of %s only up to %s, while %d are acquired' % (rels[0][2].loc(), rels[0][1].name, name, '.'.join(ms[0]), max(y[1] for y in a)))
        elif all(isinstance(x[0], int) for x in a + b):
            la, lb = min(x[0] for x in a), min(x[0] for x in b)
            r.count('index_ranges_compared')
            for x, w in zip(R, rels):
                sh = shrunk(w[1], x[-d][1])
                if sh and any(y[1] != x[-d][1] and sh in {rk.lastfield_of(z) for z in expand(z0[1], y[1])} for z0, y in zip(sites, a)):
                    r.violation('%s:range:%s' % (w[1].name, mem), '%s %s releases %s only up to a bound smaller than %s.%s, by which it is acquired' % (w[2].loc(), w[1].name, name, sh[0], sh[1]))
            if lb > la:
                r.violation('%s:range:%s' % (rels[0][1].name, mem), '%s %s releases %s only from element %d on, element %d is acquired' % (rels[0][2].loc(), rels[0][1].name, name, lb, la))


def fixed(P, m, n):
    """the member only ever has the value n"""
    vs = [f.expr(i.x[0]) for f in P.analysed() for i in f.insts if i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == m]
    return bool(vs) and all(v == ('c', n) for v in vs)


def expand(f, hi):
    """values a loop bound may have, through choices; a member stored to in the same routine stands for what was stored"""
    if isinstance(hi, int): return []
    if hi[0] == 'le': hi = hi[1]
    if hi[0] == 'phi': out = [f.expr(v) for v in f.phi_leaves(hi[1])]
    elif hi[0] == 'op' and hi[1] == 'select': out = [x for y in hi[3:] for x in expand(f, y)]
    else: out = [hi]
    return out


def shrunk(f, hi):
    """the member whose value a bound is smaller than, if it visibly is"""
    if isinstance(hi, int): return None
    le = hi[0] == 'le'
    for e in expand(f, hi):
        if e[0] == 'op' and e[1] in ('sub', 'add', 'sdiv', 'udiv', 'lshr', 'ashr') and e[3][0] == 'c':
            m = rk.lastfield_of(e[2]) if e[2][0] == 'ld' else None
            if not m: continue
            c = e[3][1]
            if e[1] == 'add': c = -c
            if e[1] in ('sub', 'add') and c > (1 if le else 0): return m
            if e[1] in ('sdiv', 'udiv') and c > 1 or e[1] in ('lshr', 'ashr') and c > 0: return m
    return None


def fmt(s):
    s = sorted(s)
    return '%d..%d' % (s[0], s[-1]) if s else 'none'


def bitof(e):
    """(member, mask) of a test 'member & mask'"""
    if e[0] == 'op' and e[1] == 'and':
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if y[0] == 'c' and x[0] == 'ld':
                lf = rk.lastfield(x[1])
                if lf: return lf, y[1]
    return None


def conditions(r, P, mem, name, sites, rels):
    """a release that depends on a state bit needs the bit to be set where the resource is acquired and not cleared elsewhere"""
    good = False; why = []
    for w in rels:
        c, f, i, ix, rt = w
        bad = None
        for g in rk.guards(f, i):
            p, a, b, oa, ob, blk = g
            bt = bitof(a) if b == ('c', 0) else None
            if bt:
                if p != 'ne':
                    continue
                lf, mask = bt
                setters = [s for s in bitsets(P)[lf] if s[2] & mask]
                here = [s for s in setters if s[0].name in {x[1].name for x in sites}]
                if lf[1] != 'state' : continue
                if not here: 
                    continue
                clears = [s for s in bitclears(P)[lf] if s[2] & mask and s[0].name != f.name and TEARDOWN.search(s[0].name)]
                if clears and not starts(mask, lf): bad = 'the bit 0x%x of %s.%s that it depends on is cleared in %s' % (mask, lf[0], lf[1], clears[0][0].name)
                elif not any(near(x, s) for x in sites for s in here): bad = 'the bit 0x%x of %s.%s that it depends on is set for something else' % (mask, lf[0], lf[1])
            else:
                # the pointer itself found absent
                key, _, _ = path(f, a)
                if p == 'eq' and b == ('c', 0) and tail(key) == (mem, 1) and rk.lastfield_of(a) and not refilled(f, mem, blk, i): bad = 'it only happens when there is nothing to release'
        if bad is None: good = True
        else: why.append((f, i, bad))
    r.count('release_conditions')
    if not good and why:
        f, i, bad = why[0]
        r.violation('%s:cond:%s' % (f.name, mem), '%s the release of %s in %s is skipped: %s' % (i.loc(), name, f.name, bad))


def refilled(f, mem, blk, rel):
    """the member is stored to between the test in block blk and the release"""
    for j in f.insts:
        if j.op == 'store' and f.expr(j.x[0]) != ('c', 0):
            lf = rk.lastfield(f.expr(j.x[1]))
            if lf and '%s.%s' % lf == mem and (j.bb in f.reach()[blk]) and f.reaches(j, rel): return True
    return False


def starts(mask, lf):
    return False


def near(site, s):
    """the bit is set in the straight-line neighbourhood of the acquisition: reached from it with no other acquisition between"""
    c, f, i, ix = site
    g, j, m = s
    return f is g and f.reaches(i, j)


def bitsets(P):
    if not hasattr(P, '_bitsets'):
        s = defaultdict(list); cl = defaultdict(list)
        for f in P.analysed():
            for i in f.insts:
                if i.op != 'store': continue
                lf = rk.lastfield(f.expr(i.x[1]))
                if not lf: continue
                e = f.expr(i.x[0])
                if e[0] == 'op' and e[1] in ('or', 'and', 'xor'):
                    for x, y in ((e[2], e[3]), (e[3], e[2])):
                        if y[0] == 'c' and any(z[0] == 'ld' and rk.lastfield(z[1]) == lf for z in rk.subexprs(x)):
                            if e[1] == 'or': s[lf].append((f, i, y[1]))
                            elif e[1] == 'xor': cl[lf].append((f, i, y[1]))
                            else: cl[lf].append((f, i, ~y[1] & 0xffffffff))
                elif e[0] == 'c': s[lf].append((f, i, e[1]))
        P._bitsets = s; P._bitclears = cl
    return P._bitsets


def bitclears(P):
    bitsets(P)
    return P._bitclears
