"""C02: no path through a function leaves a mutex held, releases one it does not hold, or takes one twice; va_start/va_end pair too."""
import rk, locks, model


def wrapper_ok(P, f): return False


def subst(e, args):
    """a callee's expression in terms of its caller; None when it cannot be said"""
    if e[0] == 'arg': return args[e[1]] if e[1] < len(args) else None
    if e[0] in ('loc', 'phi', 'call', 'v'): return None
    out = []
    for x in e:
        if isinstance(x, tuple):
            x = subst(x, args)
            if x is None: return None
        out.append(x)
    return tuple(out)


def takers(P):
    """function -> {lock it may take, in terms of its arguments: how it gets there}"""
    s = {f.name: {} for f in P.analysed()}
    for f in locks.lock_functions(P):
        for i in f.calls('pthread_mutex_lock'):
            e = f.expr(i.args[0])
            if subst(e, [('arg', n) for n in range(len(f.argty))]) is not None: s[f.name].setdefault(e, f.name)
    ch = True
    while ch:
        ch = False
        for f in P.analysed():
            for i in f.calls():
                if i.callee not in s or not s[i.callee]: continue
                args = [f.expr(a) for a in i.args]
                for e, how in list(s[i.callee].items()):
                    x = subst(e, args)
                    if x is None or depth(x) > 6 or x in s[f.name] or subst(x, [('arg', n) for n in range(len(f.argty))]) is None: continue
                    s[f.name][x] = f.name + ' -> ' + how; ch = True
    return s


def depth(e): return 1 + max([depth(x) for x in e if isinstance(x, tuple)] or [0])


def check(r):
    P = rk.Program()
    take = takers(P)
    nlock = npath = 0
    for f in locks.lock_functions(P):
        lf = locks.LockFlow(P, f)
        exits = lf.run()
        npath += len(exits)
        sites = f.calls(*(locks.LOCK | locks.UNLOCK))
        nlock += len(sites)
        r.count('functions_with_locks')
        for t, (held, facts), key in exits:
            if t.op != 'ret': continue
            for l in held:
                r.violation('%s:%s:held-at-return' % (f.name, locks.lockclass(l)), '%s returns with %s still locked; path through lines %s' % (f.where(), rk.show(l, f), lf.ex.path(key)[-12:]))
        for kind, i, l, held in lf.errors:
            r.violation('%s:%s:%s' % (f.name, locks.lockclass(l), kind.split()[0]), '%s: lock %s %s at %s' % (f.where(), rk.show(l, f), kind, i.loc()))
        for idx, helds in lf.held_at.items():
            i = f.insts[idx]
            if i.op != 'call' or not take.get(i.callee): continue
            r.count('calls_while_holding')
            args = [f.expr(a) for a in i.args]
            for e, how in take[i.callee].items():
                x = subst(e, args)
                if x is not None and any(x in h for h in helds): r.violation('%s:%s:%s' % (f.name, locks.lockclass(x), i.callee), '%s: %s is called at %s while %s is held, and takes it again (%s)' % (f.where(), i.callee, i.loc(), rk.show(x, f), how))
        r.sample('%s: %d lock operations, %d exit states' % (f.where(), len(sites), len(exits)))
    r.cov.update(lock_operations=nlock, exit_states_examined=npath)
    r.need('functions_with_locks', 15); r.need('lock_operations', 60)
    r.explanation = 'forward typestate exploration of every function that takes or releases a mutex, with correlated branches pruned; helpers new to the base are inlined first; functions called while a lock is held are searched, through further calls, for taking the same lock of the same object'
