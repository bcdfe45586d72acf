"""Slots of the shared rings: which slot a pointer leads to, what is written to it and when it is marked."""
import rk

# record -> (word that tells its state, bits consumers wait for)
FLAG = {'RKPulseHeader': ('s', 0x1 | 0x2 | 0x40 | 0x400), 'RKRayHeader': ('s', 0x8), 'RKPosition': ('flag', 0x80000000), 'RKHealth': ('flag', 0x1), 'RKStatus': ('flag', 0x1)}
RECORD = {'RKPulse': 'RKPulseHeader', 'RKRay': 'RKRayHeader'}
DATA = {'RKGetComplexDataFromPulse', 'RKGetSplitComplexDataFromPulse', 'RKGetInt16CDataFromPulse', 'RKGetUInt8DataFromRay', 'RKGetInt16DataFromRay', 'RKGetFloatDataFromRay'}
SLOT = {'RKGetPulseFromBuffer': 'RKPulseHeader', 'RKGetRayFromBuffer': 'RKRayHeader'}
COPIES = {'memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'vsprintf', 'memset', 'bzero', 'fread', 'fgets', 'gettimeofday', 'time', 'gmtime_r', 'localtime_r'}
# members of a slot that are set up with the ring and stay
FIXED = {'capacity', 'i'}


def destination(i):
    """operand a library call writes to"""
    c = i.callee or ''
    if c.startswith('llvm.mem'): return i.args[0]
    if c in COPIES: return i.args[0]
    if c in ('read', 'recv', 'SSL_read'): return i.args[1]
    return None


def locate(f, o):
    """(operand of the slot, members on the way, through its data?)"""
    names = []; data = False
    for _ in range(60):
        if not isinstance(o, int): break
        i = f.insts[o]
        if i.op in rk.CASTS or i.op in ('extractvalue', 'freeze'): o = i.x[0]; continue
        if i.op == 'getelementptr':
            fs = [(p[1], p[3]) for p in i.x[1] if p[0] == 'f']
            names = fs + names
            # the step into the array of slots ends the way
            if not fs and any(k[0] in FLAG for k in names): break
            if not fs and not names and i.x[1] and i.x[1][0][0] == 'p' and f.expr(i.x[0])[0] == 'ld' and not data: break
            o = i.x[0]; continue
        if i.op == 'call' and i.callee in ('strstr', 'strcasestr', 'strchr', 'strrchr', 'strpbrk'): o = i.args[0]; continue
        if i.op == 'call' and i.callee in DATA: o = i.args[0]; names = []; data = True; continue
        break
    return o, names, data


def places(f, o, depth=0):
    """as locate, for each value a pointer may have"""
    r, names, data = locate(f, o)
    yield r, names, data
    if depth < 4 and isinstance(r, int) and f.insts[r].op in ('phi', 'select'):
        for v in f.phi_leaves(r):
            if v != r:
                for a, n, d in places(f, v, depth + 1): yield a, n + names, data or d


def key(f, o):
    return f.expr(o) if isinstance(o, int) else (('arg', o[1]) if isinstance(o, list) and o[0] == 'a' else None)


def parts(e):
    """instructions a key depends on, and addresses it loads"""
    ns, ads = set(), set()
    for x in rk.subexprs(e):
        if x[0] in ('phi', 'call', 'loc'): ns.add(x[-1] if x[0] != 'loc' else x[1])
        if x[0] == 'ld': ads.add(x[1])
    return ns, ads


def marked(f, i):
    """(key, record, bits turned on or None for an unknown value, value) when a store changes the state word of a slot"""
    if i.op != 'store': return None
    lf = rk.lastfield(f.expr(i.x[1]))
    if not lf or lf[0] not in FLAG or FLAG[lf[0]][0] != lf[1]: return None
    o, names, data = locate(f, i.x[1])
    v = f.expr(i.x[0])
    k = key(f, o)
    if v[0] == 'c': return k, lf[0], v[1] & 0xffffffff, v
    if v[0] == 'op' and v[1] in ('or', 'xor', 'and') and v[3][0] == 'c':
        c = v[3][1] & 0xffffffff
        if v[1] == 'and': return k, lf[0], 0, v
        # the state word itself with more bits
        if v[2] == ('ld', f.expr(i.x[1])): return k, lf[0], c, v
    if v[0] == 'op' and v[1] == 'or' and v[2][0] == 'op' and v[2][1] == 'or' and v[3][0] == 'c': return k, lf[0], v[3][1] & 0xffffffff, v
    return k, lf[0], None, v


class Writers:
    """which functions write, or mark, what their arguments point to"""

    def __init__(self, P):
        self.P = P; self.w = {}; self.m = {}
        ch = True
        while ch:
            ch = False
            for f in P.analysed():
                for i in f.insts:
                    for o, flag in self.direct(f, i):
                        if flag: continue
                        for r, names, data in places(f, o):
                            if isinstance(r, list) and r[0] == 'a' and (f.name, r[1]) not in self.w: self.w[f.name, r[1]] = i; ch = True
                    q = marked(f, i)
                    if q and q[0] and q[0][0] == 'arg' and (q[2] is None or q[2] & FLAG[q[1]][1]) and (f.name, q[0][1]) not in self.m: self.m[f.name, q[0][1]] = q[1]; ch = True

    def direct(self, f, i):
        """(pointer written to, is it the state word)"""
        if i.op == 'store':
            lf = rk.lastfield_of(f.expr(i.x[1])) if hasattr(rk, 'lastfield_of') else None
            e = f.expr(i.x[1]); lf = rk.lastfield(e)
            yield i.x[1], bool(lf and lf[0] in FLAG and FLAG[lf[0]][0] == lf[1])
        elif i.op == 'call':
            d = destination(i)
            if d is not None: yield d, False
            else:
                for n, a in enumerate(i.args):
                    if (i.callee, n) in self.w: yield a, False
