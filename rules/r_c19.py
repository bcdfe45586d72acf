"""C19: a recording is written out, then closed once, then announced under its own name."""
import rk, poly, r_c28

# member that holds the file of a recording -> (calls that put data in a cache, calls that write the cache out)
FILES = {('RKRawDataRecorder', 'fd'): ({'RKRawDataRecorderCacheWrite'}, {'RKRawDataRecorderCacheFlush'}), ('RKHealthLogger', 'fid'): (set(), set())}
OPENS = {'open', 'fopen', 'fdopen'}
CLOSES = {'close', 'fclose'}
ANNOUNCE = 'RKFileManagerAddFile'
CACHES = {('RKRawDataRecorder', 'cache'): ('cacheWriteIndex', 'cacheSize', 'fd')}


def check(r):
    P = rk.Program()
    KIND.update(r_c28.enumerators(['RKFileType'], []))
    for lf, (puts, flushes) in FILES.items():
        n = 0
        for f in P.analysed():
            if any(i.op == 'call' and i.callee in CLOSES and holds(f, i.args[0], lf) for i in f.insts): n += 1; recording(r, f, lf, puts, flushes)
        if not n: r.violation('%s.%s:never-closed' % lf, 'nothing closes the recording kept in %s.%s' % lf)
    for f in P.analysed():
        announced(r, f)
        conserved(r, f)
        replaced(r, f)
    r.need('recordings_followed', 2); r.need('announcements', 3); r.need('paths_through_caches', 3)
    r.explanation = 'path exploration of each recorder over (file open, cache not written out, closed but not announced, name changed); each announcement is behind a close or a success of the writer with the same name; bytes handed to the cache are followed as polynomials along every path of the cache functions: each is copied or written exactly once and in order'
    r.assumptions = ['write() takes what it is given (a short write is reported by the kit)', 'a recording is opened and closed by one thread']


def holds(f, o, lf):
    e = f.expr(o)
    return e[0] == 'ld' and rk.lastfield(e[1]) == lf


def names(f):
    """buffers a file is announced under"""
    return {rk.root(f.expr(i.args[1])) for i in f.calls(ANNOUNCE)}


WRITERS = {'sprintf', 'snprintf', 'strcpy', 'strncpy', 'strcat', 'strncat', 'memcpy', 'memset', 'strftime', 'vsprintf', 'RKReplaceFileExtension'}


SWAP = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}
KIND = {}
KINDS = {'RKRawDataRecorder': 'RKFileTypeIQ', 'RKHealthLogger': 'RKFileTypeHealth', 'RKSweepEngine': 'RKFileTypeMoment'}
COUNTS = {('RKRawDataRecorder', 'fd'): ('RKRawDataRecorder', 'fileWriteCount')}


def recording(r, f, lf, puts, flushes):
    """states: (file, dirty, renamed, member) with file one of none, open, closed; member: '' | 'cleared' (ahead of the close) | 'stale'"""
    r.count('recordings_followed')
    bufs = names(f)
    bad = {}
    none = ('none', False, False, '')

    def say(what, i, text): bad.setdefault(what, (i, text))

    def tr(i, s):
        file, dirty, renamed, member = s
        if i.op == 'load' and member == 'stale' and rk.lastfield(f.expr(i.x[0])) == lf: say('kept', i, 'the member still names the recording after it has been closed')
        if i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == lf:
            v = f.expr(i.x[0])
            if v[0] == 'call' and v[1] in OPENS:
                if file == 'closed': say('unannounced', i, 'a closed recording has not been announced when the next one is opened')
                if file == 'open' and member != 'cleared': say('left-open', i, 'a recording is still open when the next one is opened')
                return [('open', False, False, '')]
            return [(file, dirty, renamed, 'cleared' if file == 'open' else '')]
        if i.op == 'ret':
            if file == 'closed': say('unannounced', i, 'a closed recording has not been announced when the routine returns')
            if file == 'open': say('left-open', i, 'a recording is still open when the routine returns')
            if member == 'stale': say('kept', i, 'the member still names the recording after it has been closed')
        if i.op != 'call': return None
        c = i.callee or ''
        if c in puts: return [(file, True, renamed, member)]
        if c in flushes: return [(file, False, renamed, member)]
        if c in CLOSES and holds(f, i.args[0], lf):
            if file == 'open' and dirty: say('unwritten', i, 'the recording is closed while data accepted for it may still be in the cache')
            if file == 'closed': say('closed-twice', i, 'the recording is closed again')
            return [('closed', False, renamed, '' if member == 'cleared' else 'stale')]
        if c in ('remove', 'unlink') and rk.root(f.expr(i.args[0])) in bufs:
            if file == 'open': say('removed-open', i, 'the recording is removed while it is open')
            if lf in COUNTS and not any(fa[0:1] + fa[2:3] in (('eq', ('c', 0)), ('ule', ('c', 0)), ('ult', ('c', 1))) and fa[1][0] == 'ld' and rk.lastfield(fa[1][1]) == COUNTS[lf] for fa in rk.facts_at(f, i)): say('removed', i, 'a recording is removed that is not known to be empty')
            return [none[:3] + (member,)] if file == 'closed' else None
        if c == ANNOUNCE:
            if file == 'open': say('announced-open', i, 'the recording is announced before it has been closed')
            if file == 'closed' and renamed: say('renamed', i, 'the recording is announced under a name that has been written over since it was opened')
            return [none[:3] + (member,)] if file == 'closed' else None
        d = i.args[0] if c in WRITERS or c.startswith('llvm.mem') else None
        if d is not None and rk.root(f.expr(d)) in bufs and file in ('open', 'closed'): return [(file, dirty, True, member)]
        return None

    def before(a, t):
        """the value tested was read before the member was cleared"""
        j = f.val(a[3]) if isinstance(a[3], int) else None
        return isinstance(j, rk.Inst) and any(w.op == 'store' and rk.lastfield(f.expr(w.x[1])) == lf and f.dominates(j, w) and f.dominates(w, t) for w in f.insts)

    def ed(f, bb, pos, s):
        kind, at = rk.atoms(f, bb, pos)
        if kind != 'all': return s
        for a in at:
            if not a or a[0] == 'notin': continue
            e = a[1]
            if e[0] == 'ld' and rk.lastfield(e[1]) == lf and (s[3] == '' or s[3] == 'cleared' and before(a, f.blocks[bb][-1])):
                z = a[2] in (('c', 0), ('n',))
                if a[0] == 'eq' and z and s[0] == 'open': return None
                if a[0] == 'ne' and z and s[0] != 'open': return None
                if a[0] == 'slt' and z: return none
            if e[0] == 'call' and e[1] in OPENS and (a[0] in ('slt',) or a[0] == 'eq' and a[2] in (('n',), ('c', 0), ('c', -1))): return none
            if e[0] == 'ld' and rk.lastfield(e[1]) and rk.lastfield(e[1])[1] == 'fileManager' and a[0] == 'eq' and a[2] in (('n',), ('c', 0)) and s[0] == 'closed': s = none[:3] + (s[3],)
        return s
    thread = any(i.op == 'store' and rk.lastfield(f.expr(i.x[1])) == lf and f.expr(i.x[0])[0] == 'call' for i in f.insts)
    ex = rk.Explorer(f, tr, ed)
    ex.run(none if thread else ('open', False, False, ''))
    for w, (i, t) in bad.items(): r.violation('%s:%s.%s:%s' % (f.name, lf[0], lf[1], w), '%s %s: %s' % (i.loc(), f.name, t))


def announced(r, f):
    for i in f.calls(ANNOUNCE):
        r.count('announcements')
        m = rk.lastfield(f.expr(i.args[0])[1]) if f.expr(i.args[0])[0] == 'ld' else None
        if m and m[0] in KINDS:
            k = f.expr(i.args[2])
            if k[0] == 'c' and k[1] != KIND[KINDS[m[0]]]: r.violation('%s:announced-kind' % f.name, '%s %s: the file is announced as another kind than %s' % (i.loc(), f.name, KINDS[m[0]]))
        name = rk.root(f.expr(i.args[1]))
        ok = None
        for fa in rk.facts_at(f, i):
            if fa[0] == 'notin': continue
            e = fa[1]
            if e[0] == 'call':
                j = f.insts[e[2]]
                if any(rk.root(f.expr(a)) == name for a in j.args):
                    if fa[0] == 'eq' and fa[2] == ('c', 0) and j.callee != 'RKFilenameExists': ok = j
                    if j.callee in ('RKFilenameExists', 'access') and (fa[0] == 'ne') == (j.callee == 'RKFilenameExists'): ok = j
            elif e[0] == 'ld' or e[0] == 'phi': pass
        if ok is None: ok = next((j for j in f.insts if j.op == 'call' and j.callee in CLOSES and f.reaches(j, i) and any(holds(f, j.args[0], lf) for lf in FILES)), None)
        if ok is None:
            r.violation('%s:announced' % f.name, '%s %s: a file is announced that has neither been closed nor been reported as written' % (i.loc(), f.name)); continue
        between = [j for j in f.insts if j.op == 'call' and (j.callee in WRITERS) and rk.root(f.expr(j.args[0])) == name and f.dominates(ok, j) and f.dominates(j, i)]
        if between: r.violation('%s:announced-name' % f.name, '%s %s: the name of the file is changed at line %s between its completion and the announcement' % (i.loc(), f.name, between[0].line))


def conserved(r, f):
    for lf, (im, sm, fm) in CACHES.items():
        index, size = (lf[0], im), (lf[0], sm)
        into = [i for i in f.insts if i.op == 'call' and (i.callee or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) and within(f, i.args[0], lf)]
        out = [i for i in f.insts if i.op == 'call' and i.callee == 'write' and within(f, i.args[1], lf)]
        if not into and not out: continue
        r.count('cache_functions')
        for path in paths(f):
            r.count('paths_through_caches')
            w = walk(f, path, lf, index, size, bool(into), f.name in FILES[(lf[0], fm)][1])
            if w: r.violation('%s:%s:%s' % (f.name, lf[1], w[0]), '%s %s: %s' % (w[1].loc(), f.name, w[2])); break


def within(f, o, lf):
    return any(x == ('ld', y) for x in rk.subexprs(f.expr(o)) if x[0] == 'ld' for y in [x[1]] if rk.lastfield(y) == lf)


def paths(f, limit=400):
    st = [[0]]; out = []
    while st:
        p = st.pop()
        ss = list(dict.fromkeys(f.succs[p[-1]]))
        if not ss: out.append(p); continue
        for s in ss:
            if p.count(s) < 2: st.append(p + [s])
        if len(out) + len(st) > limit: break
    return out


def walk(f, path, lf, index, size, takes, flush=False):
    """follows the bytes of the payload; (key, instruction, text) on the first step out of order"""
    I = {('index',): 1}; S = {('size',): 1}
    level = dict(I)         # bytes in the cache
    kept = dict(I)          # what the position says
    taken = {}              # bytes of the payload dealt with
    env = {}
    known = []              # (predicate, polynomial, polynomial) of the branches taken

    def val(o):
        if isinstance(o, int):
            if o in env: return env[o]
            return {(f.expr(o),): 1}
        if o[0] == 'c': return {(): o[1]} if o[1] else {}
        return {(('arg', o[1]),): 1} if o[0] == 'a' else {(str(o),): 1}

    def ptr(o):
        """('cache' | 'payload', offset)"""
        off = {}
        for _ in range(20):
            if isinstance(o, list): return ('payload', off) if o[0] == 'a' and o[1] > 0 else None
            i = f.insts[o]
            if i.op in rk.CASTS: o = i.x[0]; continue
            if i.op == 'getelementptr':
                for p in i.x[1]:
                    if p[0] == 'f': return None
                    off = poly.add(off, {m: c * p[2] for m, c in val(p[1]).items()})
                o = i.x[0]; continue
            if i.op == 'load': return ('cache', off) if rk.lastfield(f.expr(i.x[0])) == lf else None
            if i.op == 'phi' and o in env: return ('payload', off) if isinstance(env[o], tuple) else None
            return None
    def within(p):
        """p is at most the size of the cache"""
        for pr, a, b in known + [('ule', S, S)]:
            # p <= size follows from a <= b when b - a, or b - a - something, is size - p
            if pr in ('ule', 'ult', 'sle', 'slt', 'eq'):
                if poly.add(b, a, -1) == poly.add(S, p, -1): return True
        return False

    prev = None
    for at_, b in enumerate(path):
        new = {}
        for i in f.blocks[b]:
            if i.op == 'phi':
                for v, p in i.x:
                    if p == prev: new[i.idx] = val(v)
                continue
            if new: env.update(new); new = {}
            if i.op == 'load':
                m = rk.lastfield(f.expr(i.x[0]))
                if m == index: env[i.idx] = dict(kept)
                elif m == size: env[i.idx] = dict(S)
            elif i.op in ('add', 'sub'): env[i.idx] = poly.add(val(i.x[0]), val(i.x[1]), 1 if i.op == 'add' else -1)
            elif i.op in rk.CASTS: env[i.idx] = val(i.x[0])
            elif i.op == 'store':
                m = rk.lastfield(f.expr(i.x[1]))
                if m == index: kept = val(i.x[0])
            elif i.op == 'call':
                c = i.callee or ''
                if c.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                    d, s, n = ptr(i.args[0]), ptr(i.args[1]), val(i.args[2])
                    if d and d[0] == 'cache':
                        if d[1] != level: return 'place', i, 'data goes to another place of the cache than behind what is in it'
                        if s and s[0] == 'payload':
                            if s[1] != taken: return 'order', i, 'a part of the data is left out or taken twice'
                            taken = poly.add(taken, n)
                        level = poly.add(level, n)
                        if not within(level): return 'overflow', i, 'more is put in the cache than it holds'
                elif c == 'write':
                    s, n = ptr(i.args[1]), val(i.args[2])
                    if s and s[0] == 'cache':
                        if s[1]: return 'start', i, 'the cache is not written out from its beginning'
                        if n != level: return 'amount', i, 'the amount written out is not what the cache holds'
                        level = {}
                    elif s and s[0] == 'payload':
                        if level: return 'overtaken', i, 'data is written to the file ahead of what is still in the cache'
                        if s[1] != taken: return 'order', i, 'a part of the data is left out or taken twice'
                        taken = poly.add(taken, n)
            elif i.op == 'ret':
                if flush and level and not any(pr in ('eq', 'ule', 'sle') and a == I and not b for pr, a, b in known): return 'left', i, 'the cache is not written out on this path'
                if kept != level: return 'position', i, 'the position kept is not the amount of data in the cache'
                if takes and taken != {(('arg', 2),): 1} and not empty(f, path): return 'lost', i, 'not all of the data handed in has been copied or written'
        if new: env.update(new)
        if at_ + 1 < len(path):
            for pos, s in enumerate(f.succs[b]):
                if s == path[at_ + 1] and f.succs[b].count(s) == 1:
                    k, at = rk.atoms(f, b, pos)
                    if k == 'all':
                        for x in at:
                            if not x or len(x) < 5 or x[4] is None: continue
                            a, c = val(x[3]), val(x[4])
                            if x[0] in SWAP: known.append((SWAP[x[0]], c, a))
                            else: known.append((x[0], a, c))
        prev = b
    return None


def empty(f, path):
    """the path on which there is nothing to take"""
    for a, b in zip(path, path[1:]):
        for pos, s in enumerate(f.succs[a]):
            if s == b:
                k, at = rk.atoms(f, a, pos)
                if k == 'all' and any(x and x[0] == 'eq' and x[1] == ('arg', 2) and x[2] == ('c', 0) for x in at): return True
    return False


def replaced(r, f):
    """a cache that may hold data is not replaced while the recorder is active"""
    for i in f.insts:
        if i.op == 'call' and i.callee in ('free', 'posix_memalign', 'malloc', 'realloc'): pass
        else: continue
        for lf in CACHES:
            if i.callee != 'free' or not i.args or not within(f, i.args[0], lf): continue
            r.count('caches_released')
            import life
            if any(bitclear(fa) for fa in rk.facts_at(f, i)): continue
            if stopped(f, i): continue
            r.violation('%s:%s:replaced' % (f.name, lf[1]), '%s %s: the cache is released although the recorder may be active' % (i.loc(), f.name))


def bitclear(fa):
    import life
    b = life.bittest(fa[:5])
    return b and rk.lastfield(b[0]) and rk.lastfield(b[0])[1] == 'state' and not b[2] and b[1] & life.WANT


def stopped(f, i):
    """a stop, or a test that it is not needed, comes first"""
    return any(j.op == 'call' and (j.callee or '').endswith('Stop') and f.reaches(j, i) for j in f.insts)
