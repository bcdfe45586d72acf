"""C18: slots of the shared rings are complete before they are marked, vacant before they are filled, and tested before they are used."""
import rk, ring, slots
from slots import FLAG

# routine that takes records from a ring -> (record, bits it has to see, number of slots it tests)
TAKES = [('pulseWatcher', 'RKPulseHeader', 0x1, 1), ('pulseWatcherV1', 'RKPulseHeader', 0x1, 1), ('pulseRingWatcher', 'RKPulseHeader', 0x40, 1), ('pulseRingWatcherV1', 'RKPulseHeader', 0x40, 1),
         ('pulseTagger', 'RKPulseHeader', 0x400, 1), ('pulseGatherer', 'RKPulseHeader', 0x443, 1), ('pulseGathererV1', 'RKPulseHeader', 0x443, 1), ('pulseRecorder', 'RKPulseHeader', 0x800, 1),
         ('rayGatherer', 'RKRayHeader', 0x8, 1), ('healthLogger', 'RKHealth', 0x1, 1), ('reporter', 'RKHealth', 0x1, 1), ('reporter', 'RKPulseHeader', 0x1, 1), ('reporter', 'RKRayHeader', 0x8, 1),
         ('socketStreamHandler', 'RKRayHeader', 0x8, 2), ('socketStreamHandler', 'RKPulseHeader', 0x40, 1), ('socketStreamHandler', 'RKHealth', 0x1, 1), ('socketStreamHandler', 'RKStatus', 0x1, 1)]
# routine that moves a ring on -> record whose slots it hands out
MOVES = [('RKGetVacantPulseFromBuffer', 'RKPulseHeader'), ('RKGetVacantRayFromBuffer', 'RKRayHeader'), ('RKPulseEngineGetVacantPulse', 'RKPulseHeader'), ('RKGetVacantPosition', 'RKPosition'),
         ('RKGetVacantHealth', 'RKHealth'), ('RKGetVacantStatus', 'RKStatus'), ('RKRadarRelayRead', 'RKPulseHeader'), ('RKRadarRelayRead', 'RKRayHeader'), ('RKRadarRelayRead', 'RKHealth'), ('RKRadarRelayRead', 'RKStatus'),
         ('healthConsolidator', 'RKHealth'), ('pulseGatherer', 'RKRayHeader'), ('pulseGathererV1', 'RKRayHeader')]
INDEX = {'RKPulseHeader': 'pulseIndex', 'RKRayHeader': 'rayIndex', 'RKHealth': 'healthIndex', 'RKStatus': 'statusIndex'}
PRIVATE = {'malloc', 'calloc', 'posix_memalign', 'RKPulseBufferAlloc', 'RKRayBufferAlloc'}


def private(k):
    return any(x[0] == 'call' and x[1] in PRIVATE for x in rk.subexprs(k))


def shared(f, o):
    """is the slot one of a ring that others look at"""
    if isinstance(o, int):
        i = f.insts[o]
        if i.op == 'call' and i.callee in slots.SLOT: return not private(f.expr(i.args[0])) and rk.root(f.expr(i.args[0]))[0] != 'loc'
    return True


def check(r):
    P = rk.Program()
    W = slots.Writers(P)
    for f in P.analysed():
        for i in f.insts:
            q = slots.marked(f, i)
            if q and q[0] and (q[2] is None or q[2] & FLAG[q[1]][1]) and shared(f, slots.locate(f, i.x[1])[0]): after(r, f, W, i, q[0], q[1])
            if i.op == 'call':
                for n, a in enumerate(i.args):
                    if (i.callee, n) in W.m:
                        o = slots.locate(f, a)[0]
                        k = slots.key(f, o)
                        if k and shared(f, o): after(r, f, W, i, k, W.m[i.callee, n])
                copied(r, f, W, i)
    for n, rec in MOVES: moves(r, P, W, n, rec)
    for n, rec, mask, least in TAKES: takes(r, P, W, n, rec, mask, least)
    r.need('marks', 15); r.need('routines_that_take', 10); r.need('routines_that_hand_out', 8)
    r.explanation = 'path exploration from every mark that makes a slot ready to the end of the function or to the next slot: nothing is written to it; slots are marked vacant on every path on which a ring is moved on; routines that take from a ring read a slot only on paths on which its state word has been seen with the bits they wait for'
    r.assumptions = ['writes of one thread are seen by others in program order', 'a function that a slot is handed to is judged by what it and its callees write through that argument']


def written(f, W, i, k):
    for o, flag in W.direct(f, i):
        if flag: continue
        if any(slots.key(f, b) == k for b, n, d in slots.places(f, o)): return True
    return False


def after(r, f, W, mark, k, rec):
    """nothing is written to the slot once it is marked"""
    r.count('marks')
    bad = later(f, W, mark, k, lambda i: i is not mark)
    if not bad: r.count('nothing_written_after')
    for i in bad[:1]:
        r.violation('%s:%s:after-mark' % (f.name, rec), '%s %s: the slot marked ready at line %s is written to afterwards' % (i.loc(), f.name, mark.line))


def later(f, W, mark, k, ok):
    ns, ads = slots.parts(k)
    bad = []

    def tr(i, s):
        if i.idx in ns: return []
        if i.op == 'store' and f.expr(i.x[1]) in ads: return []
        q = slots.marked(f, i)
        if q and q[0] == k and q[3] == ('c', 0): return []
        if ok(i) and written(f, W, i, k): bad.append(i)
        return None
    rk.Explorer(f, tr).run(0, mark.bb, mark.pos + 1)
    return bad


def copied(r, f, W, i):
    """a whole record copied into a slot does not carry the mark along while the slot is still being filled"""
    if not (i.callee or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy')): return
    o, names, data = slots.locate(f, i.args[0])
    if data or not isinstance(o, int): return
    rec = None
    j = f.insts[o]
    if j.op == 'call' and j.callee in slots.SLOT and (not names or names[-1][1] == 'header' or names[-1][1].startswith('#')): rec = slots.SLOT[j.callee]
    elif j.op == 'call' and (j.callee or '').startswith('RKGetVacant'): rec = {'Position': 'RKPosition', 'Pulse': 'RKPulseHeader', 'Health': 'RKHealth', 'Status': 'RKStatus'}.get(j.callee[11:])
    elif j.op == 'getelementptr' and not names:
        lf = rk.lastfield(f.expr(j.x[0]))
        n = ring.slots(f.expr(j.x[0])) or ring.slots(('ld', f.expr(j.x[0])))
        rec = {'position': 'RKPosition', 'health': 'RKHealth', 'status': 'RKStatus'}.get(n)
    if rec is None or not shared(f, o): return
    k = slots.key(f, o)
    r.count('records_copied')
    bad = later(f, W, i, k, lambda x: x is not i)
    if not bad: return
    s = f.expr(i.args[1]); last = None
    for x in f.insts:
        if x.op != 'store': continue
        lf = rk.lastfield(f.expr(x.x[1]))
        if lf and lf[0] in FLAG and lf == (rec, FLAG[rec][0]) and same(f, x.x[1], i.args[1]) and f.dominates(x, i) and (last is None or f.dominates(last, x)): last = x
    if last is not None:
        v = f.expr(last.x[0]); m = FLAG[rec][1]
        if v[0] == 'c' and not v[1] & m: return
        if v[0] == 'op' and v[1] == 'and' and v[3][0] == 'c' and not v[3][1] & m: return
        if v[0] == 'ld' and rk.lastfield(v[1]) == (rec, FLAG[rec][0]): return
    r.violation('%s:%s:copied-mark' % (f.name, rec), '%s %s: the record copied into the slot may carry a ready mark, and the slot is written to at line %s afterwards' % (i.loc(), f.name, bad[0].line))


def same(f, a, b):
    x, y = slots.locate(f, a)[0], slots.locate(f, b)[0]
    return slots.key(f, x) == slots.key(f, y) and slots.key(f, x) is not None


def moves(r, P, W, name, rec):
    f = P.f(name, required=False)
    if not f: return
    r.count('routines_that_hand_out')
    bad = []
    own = {i.idx for i in f.insts if i.op == 'getelementptr' and ring.slots(('ld', f.expr(i.x[0]))) or i.op == 'getelementptr' and ring.slots(f.expr(i.x[0]))}
    want = INDEX.get(rec)

    def tr(i, s):
        moved, vacated = s
        if want is None and i.idx in own: return [(True, vacated)]
        q = slots.marked(f, i)
        if q and q[1] == rec and q[3] == ('c', 0): return [(moved, True)]
        if i.op == 'store' and want:
            e = f.expr(i.x[1])
            lf = ring.target(e)
            if lf and (lf[1] == want or rec == 'RKHealth' and lf == ('RKNodalHealth', 'index')): return [(True, vacated)]
            if e == ('arg', 1) and name.endswith('FromBuffer'): return [(True, vacated)]
        if i.op == 'ret':
            if moved and not vacated: bad.append(i)
        return None

    def ed(f, bb, pos, s):
        k, at = rk.atoms(f, bb, pos)
        if k == 'all':
            for a in at:
                if a and a[0] == 'eq' and a[2] == ('c', 0) and a[1][0] == 'ld' and rk.lastfield(a[1][1]) == (rec, FLAG[rec][0]): return (s[0], True)
        return s
    if name in ('pulseGatherer', 'pulseGathererV1'):
        # the slot a ray is gathered for becomes vacant before its turn
        if not any(slots.marked(f, i) and slots.marked(f, i)[1:3] == (rec, 0) for i in f.insts): bad.append(f.blocks[0][0])
    elif f.name == 'healthConsolidator':
        # a step of the ring and the mark of its next slot are on the same way round
        for h, body in f.loops().items():
            pass
        mv = [i for i in f.insts if i.op == 'store' and ring.target(f.expr(i.x[1])) and ring.target(f.expr(i.x[1]))[1] == want]
        vc = [i for i in f.insts if slots.marked(f, i) and slots.marked(f, i)[1] == rec and slots.marked(f, i)[3] == ('c', 0)]
        for m in mv:
            if not any(f.dominates(v, m) or f.dominates(m, v) for v in vc): bad.append(m)
    else:
        rk.Explorer(f, tr, ed).run((False, False))
    for i in bad[:1]:
        r.violation('%s:%s:not-vacated' % (name, rec), '%s %s: the ring moves on to a slot that has not been marked vacant' % (i.loc(), name))


def takes(r, P, W, name, rec, mask, least):
    f = P.f(name, required=False)
    if not f: return
    r.count('routines_that_take')
    word = (rec, FLAG[rec][0])
    keys = {}; called = []
    for i in f.insts:
        for o in ([i.x[0]] if i.op == 'load' else i.args if i.op == 'call' and (i.callee or '').startswith('RK') else []):
            b, names, data = slots.locate(f, o)
            k = slots.key(f, b)
            if not k: continue
            if i.op == 'load':
                m = next((n for n in names if n[0] == rec), None)
                if m: keys.setdefault(k, []).append((i, m[1]))
            else: called.append((k, i))
    for k, i in called:
        if k in keys: keys[k].append((i, None))
    seen = 0
    for k, uses in keys.items():
        if k[0] == 'arg' or private(k): continue
        t, bad = tested(f, k, [u for u, m in uses if m != FLAG[rec][0] and m not in slots.FIXED], word, mask)
        r.count('slots_followed')
        if not t:
            # slots behind one that has been seen ready
            t, bad = tested(f, k, [u for u, m in uses if m is None], word, mask, True)
            if t: r.count('behind_a_ready_slot')
            for i in bad[:1]: r.violation('%s:%s:untested:%d' % (name, rec, mask), '%s %s: the slot is used on a path on which neither its state nor that of another one has been seen with the bits 0x%x' % (i.loc(), name, mask))
            continue
        if not bad: seen += 1; r.count('tested_before_use')
        for i in bad[:1]:
            r.violation('%s:%s:untested:%d' % (name, rec, mask), '%s %s: the slot is used on a path on which its state has not been seen with the bits 0x%x' % (i.loc(), name, mask))
    if seen < least:
        r.violation('%s:%s:tests' % (name, rec), '%s: %d slots are tested for the bits 0x%x of %s.%s before they are used, %d expected' % (f.where(), seen, mask, rec, word[1], least))


def tested(f, k, uses, word, mask, any_of=False):
    """(is its state word tested in a branch at all, uses on paths on which the bits have not been seen)"""
    ns, ads = slots.parts(k)
    bad = []; any_test = []
    us = {u.idx for u in uses}

    def tr(i, s):
        if i.idx in ns and not any_of: return [False]
        if i.idx in us and not s: bad.append(i)
        return None

    def good(a):
        if not a or a[0] == 'notin': return None
        x = None
        for e in (a[1],):
            m = -1
            if e[0] == 'op' and e[1] == 'and' and e[3][0] == 'c': m = e[3][1] & 0xffffffff; e = e[2]
            if e[0] != 'ld': return None
            lf = rk.lastfield(e[1])
            if lf == word and isinstance(a[3], int):
                ad = address(f, a[3])
                if ad is None or not any_of and slots.key(f, slots.locate(f, ad)[0]) != k: return None
                any_test.append(1)
                z = a[2]
                if z[0] != 'c': return None
                z = z[1] & 0xffffffff
                if a[0] == 'ne' and z == 0 and m != -1: return m & mask == m and bin(m).count('1') == 1 and m == mask or (m & mask == mask and m == mask and bin(m).count('1') == 1) or None
                if a[0] == 'eq' and z and z & mask == mask: return True
            # a stop was asked for
            elif lf and lf[1] == 'state' and m != -1 and a[0] == 'eq' and a[2] == ('c', 0): return True
            elif lf and lf[1] == 'state' and m == -1 and a[0] == 'ne': return True
        return None

    def ed(f, bb, pos, s):
        kind, at = rk.atoms(f, bb, pos)
        g = [good(a) for a in at]
        if g and (any(g) if kind == 'all' else all(g)): return True
        return s
    rk.Explorer(f, tr, ed).run(False)
    return bool(any_test), bad


def address(f, o):
    """address of the load a compared value comes from"""
    for _ in range(8):
        if not isinstance(o, int): return None
        i = f.insts[o]
        if i.op == 'load': return i.x[0]
        if i.op in rk.CASTS or i.op in ('and', 'freeze'): o = i.x[0]; continue
        return None
