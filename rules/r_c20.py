"""C20: what removes, renames or hands something to a shell, under which conditions, and what exactly it is given."""
import re
import rk, r_c28
from r_c16 import linear

DESTROY = {'remove', 'unlink', 'unlinkat', 'rmdir', 'rename', 'renameat', 'truncate', 'ftruncate', 'truncate64', 'ftruncate64', 'nftw'}
SHELL = {'system', 'popen', 'execl', 'execlp', 'execle', 'execv', 'execvp', 'execve', 'posix_spawn', 'posix_spawnp', 'fork', 'vfork'}
COMPOSE = {'sprintf': (0, 2), 'snprintf': (0, 3), '__sprintf_chk': (0, 4), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1)}
FORMAT = {'sprintf': 1, 'snprintf': 2}
REMOVER, ENTRY, MANAGER, RECORDER, SWEEPER = 'RKFileRemover', 'RKIndexedStat', 'RKFileManager', 'RKRawDataRecorder', 'RKSweepEngine'
REG = 0o100000


def fixed(f, e):
    """buffer an address expression lies in, without a constant offset of zero"""
    while e[0] == 'idx' and e[2] == ('c', 0): e = e[1]
    return e


def backward(f, i):
    """instructions that may run before i, nearest first, as (inst, stop) steps: a generator driven by send(True) to stop following a way"""
    seen = set(); todo = [(i.bb, i.pos)]
    while todo:
        b, pos = todo.pop()
        stop = False
        for j in reversed(f.blocks[b][:pos]):
            if (yield j): stop = True; break
        if stop: continue
        if b == 0: yield None
        for p in f.preds[b]:
            if p not in seen: seen.add(p); todo.append((p, len(f.blocks[p])))


def producers(f, i, buf):
    """calls that last put a text in the buffer before i (None: none did on some way)"""
    res = []
    g = backward(f, i)
    try:
        j = next(g)
        while True:
            hit = j is None
            if j is not None and j.op == 'call' and j.callee in COMPOSE and fixed(f, f.expr(j.args[COMPOSE[j.callee][0]])) == buf: hit = True
            if j is not None and j.op == 'call' and j.callee not in COMPOSE and (j.callee or '').startswith(('llvm.memcpy', 'llvm.memset', 'memcpy', 'memset')) and fixed(f, f.expr(j.args[0])) == buf: hit = True
            if hit: res.append(j)
            j = g.send(True) if hit and j is not None else next(g)
    except StopIteration: pass
    return res


def parts(f, j):
    """(format, [texts]) that make up the text"""
    if j is None: return None, []
    if j.callee in FORMAT:
        v = f.val(j.args[FORMAT[j.callee]])
        return (v[1] if isinstance(v, list) and v[0] == 's' else None), [f.expr(a) for a in j.args[FORMAT[j.callee] + 1:]]
    return '%s', [f.expr(j.args[1])]


def entries(e):
    """{member: entry} of the list entries an expression reads"""
    return {rk.lastfield(x[1])[1]: x[1][1] for x in rk.subexprs(e) if x[0] == 'ld' and (rk.lastfield(x[1]) or ('',))[0] == ENTRY and x[1][0] == 'fld'}


def first(P, texts, es):
    """the member an entry begins with is read through the address of the entry itself"""
    m = next((x[0] for x in P.structs[ENTRY]['fields'] if x[1] == 0), None)
    if m in es: return es
    for e in texts:
        for x in rk.subexprs(e):
            if x[0] == 'ld' and x[1] in es.values(): return dict(es, **{m: x[1]})
    return es


def same(f, e):
    """a member that was just set stands for what it was set to"""
    if e[0] == 'ld':
        vs = {f.expr(i.x[0]) for i in f.insts if i.op == 'store' and f.expr(i.x[1]) == e[1]}
        if len(vs) == 1: return vs.pop()
    return e


def copied(f, j, depth=0):
    """composers of the text a composer copies as it is"""
    fmt, texts = parts(f, j)
    if fmt == '%s' and len(texts) == 1 and depth < 3:
        b = fixed(f, texts[0])
        if b[0] == 'loc':
            js = producers(f, j, b)
            if js and all(k is not None for k in js): return [x for k in js for x in copied(f, k, depth + 1)]
    return [j]


def summands(f, o):
    """what a sum is made of, through counts kept in a local: [(inst, expression)]"""
    res = []; seen = set(); todo = [(o, None)]
    while todo:
        v, at = todo.pop()
        i = f.insts[v] if isinstance(v, int) else None
        if i is None: res.append((at, f.expr(v))); continue
        if (v, at is None) in seen: continue
        seen.add((v, at is None))
        if i.op == 'phi': todo += [(x[0], at) for x in i.x]; continue
        if i.op == 'select': todo += [(x, at) for x in i.x[1:3]]; continue
        if i.op in rk.CASTS: todo.append((i.x[0], at)); continue
        if i.op == 'add': todo += [(x, i) for x in i.x[:2]]; continue
        res.append((at, f.expr(v)))
    return res


def fresh(f, fa, i, fields):
    """the comparison still holds at i: none of the members it speaks of is stored to on the way"""
    b = fa[-1]
    seen = set(); todo = [s for s in f.succs[b]]
    # blocks between b and i
    while todo:
        s = todo.pop()
        if s in seen or s == b: continue
        seen.add(s); todo += f.succs[s]
    back = set(); todo = [i.bb]
    while todo:
        s = todo.pop()
        if s in back or s == b: continue
        back.add(s); todo += f.preds[s]
    mid = seen & back
    inloop = any(f.blocks[p] and p in mid for p in f.succs[i.bb])
    for s in mid:
        for j in f.blocks[s]:
            if s == i.bb and j.pos >= i.pos and not inloop: break
            if j.op == 'store' and rk.lastfield(f.expr(j.x[1])) in fields and not (s == i.bb and j.pos > i.pos and not inloop): return False
    return True


def held(f, i, want):
    """a comparison known at i for which want(pred, a, b) is true, and still true there"""
    for fa in rk.facts_at(f, i):
        if fa[0] == 'notin': continue
        for q, a, b in ((fa[0], fa[1], fa[2]), (rk.SWAP.get(fa[0], fa[0]), fa[2], fa[1])):
            if want(q, a, b):
                fields = {rk.lastfield(x[1]) for e in (a, b) for x in rk.subexprs(e) if x[0] == 'ld' and rk.lastfield(x[1])}
                if not fresh(f, fa, i, fields): continue
                if any(stored(f, j, i, fields, True) for j in looked(f, fa)): continue
                return True
    return False


def looked(f, fa):
    """the loads a comparison is made of"""
    res = []; todo = [o for o in fa[3:5] if isinstance(o, int)]; seen = set()
    while todo:
        o = todo.pop()
        if o in seen: continue
        seen.add(o); j = f.insts[o]
        if j.op == 'load': res.append(j)
        elif j.op in rk.CASTS or j.op in ('add', 'sub', 'mul', 'and', 'or', 'icmp', 'shl', 'lshr'): todo += [x for x in j.x if isinstance(x, int)]
    return res


def ismember(e, s, m):
    return e[0] == 'ld' and rk.lastfield(e[1]) == (s, m)


def check(r):
    P = rk.Program()
    for f in P.analysed():
        for i in f.calls():
            c = i.callee or ''
            if c in DESTROY: destroyed(r, P, f, i)
            elif c in SHELL: shell(r, P, f, i)
            elif c in ('open', 'open64') and len(i.args) > 1 and f.const(i.args[1]) is not None and f.const(i.args[1]) & 0o1000: r.violation('%s:open' % f.name, '%s %s: opens a file and throws away what it holds' % (i.loc(), f.name))
        accounted(r, P, f)
        listed(r, P, f)
    limits(r, P)
    r.need('removals', 3); r.need('usage_updates', 3); r.need('paths', 3)
    r.explanation = 'every call that removes, renames, truncates or runs something: who makes it, the comparisons that hold there (and still do), and the calls that composed the name it is given; every change of the usage that is accounted; the limits from which the removers work'
    r.assumptions = ['names handed over by the operating system are those of the folder that was opened', 'the script of the user does what he wants']


def say(r, f, i, what, text):
    r.violation('%s:%s:%s' % (f.name, i.callee if i.op == 'call' else 'store', what), '%s %s: %s' % (i.loc(), f.name, text))


def destroyed(r, P, f, i):
    r.count('removals')
    c = i.callee
    buf = fixed(f, f.expr(i.args[0]))
    src = producers(f, i, buf)
    if c == 'rmdir':            # only ever removes what is empty
        if not managed(P, f): return say(r, f, i, 'who', 'removes a folder')
        if not src or any(not beneath(f, k) for j in src for k in (copied(f, j) if j is not None else [j])): return say(r, f, i, 'name', 'removes a folder whose name is not made of the folder of this kind of data and one in there')
        r.count('folders'); return
    if c not in ('remove', 'unlink'): return say(r, f, i, 'who', '%s is not called anywhere else in the kit: it replaces or cuts short what is there' % c)
    # a recording without content
    if held(f, i, lambda q, a, b: q == 'eq' and ismember(a, RECORDER, 'fileWriteCount') and b == ('c', 0)):
        opened = {fixed(f, f.expr(j.args[0])) for j in f.calls('open', 'fopen')}
        if buf not in opened: return say(r, f, i, 'name', 'removes something else than the recording that is empty')
        r.count('empty_recordings'); return
    if not managed(P, f): return say(r, f, i, 'who', 'removes a file')
    # logs that are too old
    if any(j is not None and any((x[0] == 'call' and x[1] == 'readdir') for e in parts(f, j)[1] for x in rk.subexprs(e)) for j in src): return aged(r, P, f, i, buf, src)
    # recorded data, oldest entry of the list
    if not held(f, i, lambda q, a, b: q in ('ugt',) and ismember(a, REMOVER, 'usage') and ismember(b, REMOVER, 'limit') and a[1][1] == b[1][1]):
        return say(r, f, i, 'usage', 'removes recorded data where the usage is not known to exceed the limit')
    for j in src:
        fmt, texts = parts(f, j)
        if j is None or not beneath(f, j): return say(r, f, i, 'name', 'removes a file whose name is not made of the folder of this kind of data')
        es = {}
        for e in texts: es.update({k: v for k, v in entries(e).items()})
        es = first(P, texts, es)
        if len(texts) != 3 or set(es) != {'folderId', 'index'} or len(set(es.values())) != 1: return say(r, f, i, 'name', 'the folder and the name of the file it removes are not those of one entry of the list')
        ent = es['index']
        moved = {rk.lastfield(x[1]) for x in rk.subexprs(ent) if x[0] == 'ld' and rk.lastfield(x[1])}
        if stored(f, j, i, moved): return say(r, f, i, 'name', 'the entry has changed since the name was composed')
        why = taken(f, i, ent, moved)
        if why: return say(r, f, i, 'account', why)
    r.count('paths')


def managed(P, f):
    """a thread of the file manager, or a part of one"""
    return f.file.endswith('RKFileManager.c') and f.rawname in working(P)


def working(P):
    if not hasattr(P, '_c20'):
        roots = [g for t in P.threads() if t[0].file.endswith('RKFileManager.c') for g in t[3]]
        P._c20 = {getattr(g, 'rawname', g) for g in roots} | {getattr(g, 'rawname', g) for g in P.reachable_from(roots)}
    return P._c20


def beneath(f, j):
    """the text starts with the folder of a remover, and there is more behind it"""
    fmt, texts = parts(f, j)
    if j is None or not fmt or not texts: return False
    e = fixed(f, texts[0])
    return fmt.startswith('%s/%s') and e[0] == 'fld' and (e[2], e[3]) == (REMOVER, 'path')


def stored(f, a, b, fields, again=False):
    """one of the members is stored to between a and b"""
    seen = set(); todo = [(a.bb, a.pos + 1)]
    reach = {b.bb}; st = [b.bb]
    while st:
        x = st.pop()
        for p in f.preds[x]:
            if p not in reach and p != a.bb: reach.add(p); st.append(p)
    round_ = any(s in reach and s != a.bb for s in f.succs[b.bb])
    while todo:
        x, pos = todo.pop()
        end = False
        for j in f.blocks[x][pos:]:
            if j is b and not round_: end = True; break
            if j is b and not again or j is a: end = True; break
            if j.op == 'store' and rk.lastfield(f.expr(j.x[1])) in fields and (x in reach or x == a.bb): return True
        if end: continue
        for s in f.succs[x]:
            if s in reach and s not in seen: seen.add(s); todo.append((s, 0))
    return False


def taken(f, i, ent, moved):
    """after the removal: its size is taken off the usage, whatever comes next, before the entry changes and before the next one is looked at"""
    size = ('ld', ('fld', ent, ENTRY, 'size'))
    seen = set(); todo = [(i.bb, i.pos + 1)]
    while todo:
        b, pos = todo.pop()
        done = False
        for j in f.blocks[b][pos:]:
            if j.op == 'store':
                lf = rk.lastfield(f.expr(j.x[1]))
                if lf == (REMOVER, 'usage'):
                    e = f.expr(j.x[0])
                    if e[0] == 'op' and e[1] == 'sub' and ismember(e[2], REMOVER, 'usage') and e[3] == size: done = True; break
                    return 'the usage changes by something else than the size of the file that was removed'
                if lf in moved: return 'goes on to another entry before the size of this one is taken off the usage'
            if j is i or j.op == 'ret' or j.op == 'call' and j.callee in DESTROY: return 'the size of the file that was removed is not taken off the usage on every way'
        if done: continue
        for s in f.succs[b]:
            if s not in seen: seen.add(s); todo.append((s, 0))
    return None


def aged(r, P, f, i, buf, src):
    r.count('logs')
    def mode(q, a, b): return q == 'eq' and b == ('c', REG) and any(x[0] == 'ld' and (rk.lastfield(x[1]) or ('', ''))[1] == 'st_mode' for x in rk.subexprs(a))
    def old(q, a, b): return q in ('slt', 'sle') and any('tim' in str(x[1]) and 'st_' in str(x[1]) for x in rk.subexprs(a) if x[0] == 'ld') and any(k != () and v < 0 and any(ismember(x, MANAGER, 'maximumLogAgeInDays') for x in rk.subexprs(k[0])) for k, v in linear(f, b).items())
    if not held(f, i, mode): return say(r, f, i, 'kind', 'removes something that is not known to be a file')
    if not held(f, i, old): return say(r, f, i, 'age', 'removes a log that is not known to be older than what is kept')
    stats = [j for j in f.calls('stat', 'lstat') if f.dominates(j, i) and fixed(f, f.expr(j.args[0])) == buf]
    if not stats: return say(r, f, i, 'kind', 'what it removes is not what it has looked at')
    for j in src:
        fmt, texts = parts(f, j)
        if j is None or fmt != '%s/%s' or len(texts) != 2: return say(r, f, i, 'name', 'the name of what it removes is not made of the folder of the logs and one in there')
        d = fixed(f, texts[0])
        # the folder: always a folder of its own, never the one all the data is in
        for k in f.calls():
            if k.callee in FORMAT and fixed(f, f.expr(k.args[0])) == d:
                fm, tx = parts(f, k)
                if not fm or not re.search(r'/\w+$', fm): return say(r, f, i, 'folder', 'the folder it clears is not one for logs only (%r)' % fm)
    r.count('paths')


def shell(r, P, f, i):
    r.count('shell_calls')
    if i.callee == 'system' and held(f, i, lambda q, a, b: q == 'ne' and ismember(a, SWEEPER, 'hasFileHandlingScript') and b == ('c', 0)): r.count('scripts'); return
    say(r, f, i, 'who', '%s hands a command to the system: nothing but the script supplied by the user is run' % i.callee)


def accounted(r, P, f):
    """what is added to the usage is the size of a file that was looked at, and the size kept with its entry is the same"""
    sizes = []; added = []
    for i in f.insts:
        if i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == (ENTRY, 'size'): sizes.append(i)
    for i in f.insts:
        if i.op != 'store' or rk.lastfield(f.expr(i.x[1])) != (REMOVER, 'usage'): continue
        r.count('usage_updates')
        e = f.expr(i.x[0])
        if e == ('c', 0): continue
        if e[0] == 'op' and e[1] == 'sub' and ismember(e[2], REMOVER, 'usage'):
            if not any(f.dominates(j, i) for j in f.calls('remove', 'unlink')) : say(r, f, i, 'usage', 'the usage is reduced without a file being removed')
            continue
        xs = summands(f, i.x[0])
        if not any(ismember(x, REMOVER, 'usage') or x == ('c', 0) for at, x in xs): say(r, f, i, 'usage', 'the usage is replaced by something else'); continue
        before = any(ismember(x, REMOVER, 'usage') for at, x in xs)
        for at, x in xs:
            if ismember(x, REMOVER, 'usage') or x == ('c', 0): continue
            if not (x[0] == 'ld' and (rk.lastfield(x[1]) or ('', ''))[1] == 'st_size'): say(r, f, i, 'usage', 'what is added to the usage is not the size of a file'); continue
            at = at or i
            buf = rk.root(x[1])
            if not any(rk.root(f.expr(j.args[1])) == buf and f.dominates(j, at) for j in f.calls('stat', 'lstat', 'fstat')): say(r, f, i, 'usage', 'what is added to the usage is not the size of a file that was looked at'); continue
            if before: anew(r, f, i)
            added.append(at)
            near = [j for j in sizes if f.dominates(j, at) or f.dominates(at, j)]
            for j in near:
                if f.expr(j.x[0]) != x: say(r, f, i, 'size', 'the size kept with the entry is not what is added to the usage')
            if not near and not partial(f, at, sizes): say(r, f, i, 'size', 'the size is added to the usage, but not kept with the entry')
    for i in sizes:
        near = [j for j in f.calls('stat', 'lstat') if f.dominates(j, i)]
        given = [f.expr(j.args[0]) for j in near if f.expr(j.args[0])[0] == 'arg']
        if given:
            r.count('files_announced')
            def own(q, a, b): return q == 'eq' and b == ('c', 0) and a[0] == 'call' and a[1] == 'strncmp' and any(rk.lastfield(fixed(f, f.expr(x))) == (REMOVER, 'path') for x in f.insts[a[2]].args[:2]) and any(f.expr(x) in given for x in f.insts[a[2]].args[:2])
            def slash(q, a, b): return q == 'eq' and b == ('c', 47) and any(g in rk.subexprs(a) for g in given)
            if not held(f, i, own) or not held(f, i, slash): say(r, f, i, 'own', 'a file is added to the list of a remover without being in the folder it looks after')
        if not any(f.dominates(i, j) or f.dominates(j, i) for j in added):
            say(r, f, i, 'size', 'an entry is added to the list whose size is not added to the usage')


def anew(r, f, i):
    """a count over folders starts from zero"""
    def usage(j): return j.op == 'store' and rk.lastfield(f.expr(j.x[1])) == (REMOVER, 'usage')
    outer = [(len(b), h) for h, b in f.loops().items() if i.bb in b]
    if not outer: return
    r.count('counts')
    h = max(outer)[1]; body = f.loops()[h]
    todo = [p for p in f.preds[h] if p not in body]; seen = set()
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        last = [j for j in f.blocks[b] if usage(j)]
        if last:
            if f.expr(last[-1].x[0]) != ('c', 0): return say(r, f, i, 'zero', 'the files of this kind are counted on top of what has been counted before')
            continue
        if b == 0: return say(r, f, i, 'zero', 'the files of this kind are counted without starting from zero')
        todo += f.preds[b]


def partial(f, i, sizes):
    """the list does not follow this update: no entry is kept for it, and none is after it, or only the whole usage is counted anew"""
    return not any(i.bb == j.bb or j.bb in f.reach()[i.bb] for j in sizes)


def listed(r, P, f):
    """what is found in a folder and kept in a list, or removed, is not the folder itself or the one above"""
    if not f.file.endswith('RKFileManager.c'): return
    gone = {j.idx for i in f.calls(*DESTROY) for j in producers(f, i, fixed(f, f.expr(i.args[0]))) if j is not None}
    for i in f.calls(*COMPOSE):
        d = f.expr(i.args[COMPOSE[i.callee][0]])
        names = [x for a in i.args[COMPOSE[i.callee][1]:] for x in rk.subexprs(f.expr(a)) if x[0] == 'call' and x[1] == 'readdir']
        if not names: continue
        if rk.root(d)[0] == 'arg' or i.idx in gone:
            r.count('names_from_folders')
            def dot(q, a, b): return q == 'ne' and b == ('c', 46) and any(x in rk.subexprs(a) for x in names)
            if not held(f, i, dot) and not any(fa[0] == 'notin' and 46 in fa[2] for fa in rk.facts_at(f, i)): say(r, f, i, 'dots', 'a name from a folder is kept that may be the folder itself or the one above')


def chain(e):
    """(base, constant position) of nested constant steps through an array"""
    n = 0
    while e[0] == 'idx' and e[2][0] == 'c': n += e[2][1]; e = e[1]
    return e, n


WANT = {'iq': ('RKFileTypeIQ', 'userRawDataUsageLimit'), 'moment': ('RKFileTypeMoment', 'userMomentDataUsageLimit'), 'health': ('RKFileTypeHealth', 'userHealthDataUsageLimit')}


def limits(r, P):
    kinds = r_c28.enumerators(['RKFileType'], [])
    for f in P.analysed():
        # what each remover looks after
        tables = {}
        for i in f.calls():
            if (i.callee or '').startswith('llvm.memcpy') and f.expr(i.args[1])[0] == 'g':
                g = P.globals.get(f.expr(i.args[1])[1])
                if g and g.get('init') and g['init'][0] == 'L': tables[rk.root(f.expr(i.args[0]))] = g['init'][1:]
        stores = {}
        for i in f.insts:
            if i.op == 'store':
                b, n = chain(f.expr(i.x[1]))
                if b[0] == 'loc': stores.setdefault(b, {})[n] = f.expr(i.x[0])
        made = []
        for i in f.calls(*FORMAT):
            d = fixed(f, f.expr(i.args[0]))
            if d[0] != 'fld' or (d[2], d[3]) != (REMOVER, 'path'): continue
            r.count('paths')
            fmt, texts = parts(f, i)
            e = fixed(f, texts[-1]) if texts else None
            t = rk.root(e) if e else None
            if not fmt or not fmt.endswith('%s') or t not in tables or e[0] != 'idx': say(r, f, i, 'path', 'the folder a remover looks after is not one of those for recorded data'); continue
            if same(f, e[2]) != same(f, d[1][2]) if d[1][0] == 'idx' else False: say(r, f, i, 'path', 'the folder a remover looks after is that of another kind of data'); continue
            made.append((i, t))
        if not made: continue
        t = made[0][1]
        names = [x[1].split('\0')[0] if x[0] == 's' else '' for x in tables[t]]
        ns = [f.expr(i.x[0])[1] for i in f.insts if i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == (MANAGER, 'workerCount') and f.expr(i.x[0])[0] == 'c']
        for n in ns:
            for k in range(n):
                nm = names[k] if k < len(names) else ''
                if not nm: r.violation('%s:folder' % f.name, '%s: remover %d of %d has no folder of its own: it would clear the one all the data is in' % (f.name, k, n)); continue
                w = WANT.get(nm)
                if w and kinds.get(w[0]) is not None and kinds[w[0]] != k: r.violation('%s:kind' % f.name, '%s: remover %d looks after %s, whose files are announced as %d' % (f.name, k, nm, kinds[w[0]]))
        # and its limit
        for i in f.insts:
            if i.op != 'store' or rk.lastfield(f.expr(i.x[1])) != (REMOVER, 'limit'): continue
            r.count('limits')
            v = f.expr(i.x[0]); d = f.expr(i.x[1])
            wk = d[1][2] if d[0] == 'fld' and d[1][0] == 'idx' else None
            for x in rk.subexprs(v):
                if x[0] == 'ld' and x[1][0] == 'idx' and x[1][1] in stores or x[0] == 'ld' and x[1][0] == 'idx' and x[1][1] in tables:
                    if wk is not None and same(f, x[1][2]) != same(f, wk): say(r, f, i, 'limit', 'the limit of a remover is that of another kind of data')
                if x[0] == 'ld' and x[1][0] == 'idx' and x[1][1] in stores:
                    for k, s in stores[x[1][1]].items():
                        m = rk.lastfield(s[1]) if s[0] == 'ld' else None
                        if not m or k >= len(names) or names[k] not in WANT: continue
                        if m[1] != WANT[names[k]][1]: say(r, f, i, 'limit', 'the limit set for %s is used for %s' % (m[1], names[k]))
                    # taken only when set
                    if v == x and not held(f, i, lambda q, a, b: q in ('ne', 'ugt') and a == x and b == ('c', 0)): say(r, f, i, 'limit', 'a limit that was not set is used as it is: everything would be removed')
            if v[0] == 'c' and v[1] == 0: say(r, f, i, 'limit', 'the limit is zero: everything would be removed')
    started(r, P)


def started(r, P):
    """whoever starts the file manager knows that no kind of data is left with a limit of zero"""
    users = {w[1] for w in WANT.values()}
    fields = users | {'usagelimit'}
    for f in {g.rawname: g for t in P.threads() for g in (P.f(getattr(x, 'name', x), False) for x in t[3]) if g is not None}.values():
        if not f.file.endswith('RKFileManager.c') or not any(i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == (REMOVER, 'limit') for i in f.insts): continue
        for g in P.analysed():
            for c in g.calls('pthread_create'):
                if not any(isinstance(a, list) and a[0] == 'F' and a[1] == f.rawname for a in c.args): continue
                r.count('starts')
                bad = []

                def tr(i, s):
                    if i is c:
                        if 'usagelimit' not in s and not users <= s: bad.append(i)
                        return []
                    if i.op == 'store':
                        lf = rk.lastfield(g.expr(i.x[1]))
                        if lf and lf[0] == MANAGER and lf[1] in fields:
                            k = g.expr(i.x[0])
                            return [s | {lf[1]} if k[0] == 'c' and k[1] != 0 else s - {lf[1]}]
                    return None

                def edge(g, b, p, s):
                    for fa in rk.atoms(g, b, p)[1] if rk.atoms(g, b, p)[0] == 'all' or len(rk.atoms(g, b, p)[1]) == 1 else []:
                        if fa[0] in ('ne', 'ugt') and fa[2] == ('c', 0) and fa[1][0] == 'ld':
                            lf = rk.lastfield(fa[1][1])
                            if lf and lf[0] == MANAGER and lf[1] in fields: s = s | {lf[1]}
                    return s

                ex = rk.Explorer(g, tr, edge)
                ex.run(frozenset())
                if bad: r.violation('%s:no-limit' % g.name, '%s %s: the removers may be started while a kind of data has neither a limit of its own nor a share of a limit for all: everything of that kind would be removed' % (c.loc(), g.name))
