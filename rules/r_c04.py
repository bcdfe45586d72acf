"""C04: data the kit protects with a lock is only written (and read-modified-written) while that lock is held."""
import rk, locks, model

# (struct, members or None for all, lock class, functions in which the object is not shared yet)
TABLE = [
    ('RKSweepEngine', {'business', 'sweepIndex'}, 'RKSweepEngine.productMutex', {'RKSweepEngineInit'}),
    ('RKProduct', {'flag', 'pid'}, 'RKSweepEngine.productMutex', {'RKSweepEngineInit'}),
    ('RKFileRemover', {'usage', 'count', 'reusable'}, 'RKFileManager.mutex', {'RKFileManagerInit'}),
    ('RKIndexedStat', None, 'RKFileManager.mutex', set()),
    ('RKCommandQueue', {'count', 'toc'}, 'RKCommandQueue.lock', {'RKCommandQueueInit'}),
    ('RKUser', {'streams', 'streamsToRestore', 'streamsInProgress', 'rayIndex', 'pulseIndex', 'healthIndex', 'rayStatusIndex', 'scratchSpaceIndex', 'ticForStatusStream', 'statusIndex', 'steerStatusIndex', 'transmitWaveIndex'}, 'RKUser.mutex', {'socketInitialHandler', 'socketTerminateHandler'}),
    ('RKServer', {'busy'}, 'RKServer.lock', {'RKOperatorFree', 'RKServerInit'}),
    ('RKWebSocket', {'payloadHead'}, 'RKWebSocket.lock', {'RKWebSocketInit', 'transporter'}),
]
# stores of one structure that are protected in specific functions (whole-structure claims would be too strong)
IN_FUNCTION = [
    ('RKRadar', {'active', 'state'}, 'RKRadar.mutex', {'RKGoLive', 'RKStop'}),
    ('RKMomentEngine', {'memoryUsage'}, 'RKMomentEngine.mutex', {'momentEngineCore', 'momentCore', 'momentEngine'}),
    ('RKPulseEngine', {'memoryUsage'}, 'RKPulseEngine.mutex', {'pulseEngineCore'}),
    ('RKPulseRingFilterEngine', {'memoryUsage'}, 'RKPulseRingFilterEngine.mutex', {'ringFilterCore'}),
    ('RKFileManager', {'memoryUsage'}, 'RKFileManager.mutex', {'fileRemover'}),
    ('RKUser', None, 'RKCommandCenter.mutex', {'socketInitialHandler'}),
]
# rotating index of functions that return one of several static text buffers
ROTATING = {'ibuf', 'k', 's', 'count'}
# calls that only make sense inside the critical section: (function, callee, selector on first argument field, lock class)
CALLS = [('RKOperatorSendPackets', 'send', ('RKOperator', 'sid'), 'RKOperator.lock'),
         ('folderWatcher', 'free', ('RKFileManager', 'workers'), 'RKFileManager.mutex')]


def check(r):
    P = rk.Program()
    H = locks.Held(P)
    def test(f, i, lock, what):
        r.count('protected_accesses')
        held = H.at(f, i)
        r.sample('%s %s under %s' % (i.loc(), what, lock))
        if held is None: return
        if lock not in held:
            r.violation('%s:%s' % (f.name, what), '%s: %s is changed in %s without holding %s (held: %s)' % (i.loc(), what, f.name, lock, sorted(held) or 'nothing'))
    for f in P.analysed():
        for i in f.insts:
            if i.op != 'store': continue
            a = f.expr(i.x[1])
            for (s, fld) in rk.fields(a)[-1:]:
                lf = rk.lastfield(a)
                if lf is None or lf != (s, fld): continue
                for (ts, tf, lock, exempt) in TABLE:
                    if ts != s or (tf is not None and fld not in tf): continue
                    if f.name in exempt: continue
                    test(f, i, lock, '%s.%s' % (s, fld))
                    # read-modify-write: the read must be inside as well
                    for l in f.insts:
                        if l.op == 'load' and f.expr(l.x[0]) == a and feeds(f, l, i): test(f, l, lock, '%s.%s(read)' % (s, fld))
                for (ts, tf, lock, only) in IN_FUNCTION:
                    if ts == s and (tf is None or fld in tf) and f.name in only: test(f, i, lock, '%s.%s' % (s, fld))
        for (fn, callee, sel, lock) in CALLS:
            if f.name != fn: continue
            for i in f.calls(callee):
                if any(rk.lastfield(x[1]) == sel for x in rk.subexprs(f.expr(i.args[0])) if x[0] == 'ld'): test(f, i, lock, callee + '()')
    # function-local statics that rotate over text buffers
    for f in P.analysed():
        gl = {g for g in P.globals if rk.stem(g).startswith(f.name + '.')}
        lk = [g for g in gl if g.split('.')[1] in ('lock', 'mutex')]
        if not lk: continue
        lock = locks.lockclass(('g', lk[0]))
        for i in f.insts:
            if i.op != 'store': continue
            e = f.expr(i.x[1])
            if e[0] == 'g' and e[1] in gl and e[1] not in lk:
                test(f, i, lock, 'static ' + rk.stem(e[1]))
                for l in f.insts:
                    if l.op == 'load' and f.expr(l.x[0]) == e and feeds(f, l, i): test(f, l, lock, 'static %s(read)' % rk.stem(e[1]))
    r.need('protected_accesses', 60)
    r.explanation = 'must-held lock sets (typestate per function, callers of internal functions included) at every write of the members each lock protects, and at the reads that feed a read-modify-write'


def feeds(f, l, st):
    """the load l is used to compute the value stored by st"""
    seen = set(); w = [st.x[0]]
    while w:
        v = w.pop()
        if not isinstance(v, int) or v in seen: continue
        seen.add(v)
        if v == l.idx: return True
        i = f.insts[v]
        if i.op in ('load', 'call'): continue
        w.extend(rk.operands(i))
    return False
