"""C01: every formatted call agrees with its arguments. Decided by clang's own format checker on every unit, after giving the
kit's variadic logger the printf attribute through a force-included declaration; same-size integer spellings are not reported."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import model, rk

ATTR = model.VERIF + '/rules/fmt_attr.h'
PRINTF = {'RKLog', 'printf', 'fprintf', 'sprintf', 'snprintf', 'dprintf', 'sscanf', 'fscanf', '__isoc99_sscanf', '__isoc99_fscanf', '__isoc23_sscanf', 'vsprintf', 'vsnprintf', 'vfprintf'}
SIZE = {'char': 1, 'short': 2, 'int': 4, 'long': 8, 'long long': 8, 'float': 'd', 'double': 'd', '_Bool': 1, 'bool': 1}


def cls(t, promoted):
    """abi class of a C type spelling"""
    t = t.strip()
    if t.endswith('*') or t.endswith(']') or '(*' in t: return ('p', t.replace('const ', '').replace('unsigned ', '').replace('signed ', ''))
    t = re.sub(r'\b(unsigned|signed|const|volatile)\b', '', t).strip()
    if t == '': t = 'int'
    t = {'long int': 'long', 'long long int': 'long long', 'short int': 'short'}.get(t, t)
    if t in ('float', 'double'): return ('d', 8)
    if t == 'long double': return ('D', 16)
    if t.startswith('enum'): return ('i', 4)
    if t in SIZE: return ('i', max(SIZE[t], 4) if promoted else SIZE[t])
    return ('?', t)


def compatible(want, got, scan):
    w = cls(want, not scan); g = cls(got, not scan)
    if w[0] == 'i' and g[0] == 'i': return w[1] == g[1]
    if w[0] == 'p' and g[0] == 'p':
        if w[1] in ('void *', 'void*'): return True
        if scan:
            a = cls(w[1].rstrip('* '), False); b = cls(g[1].rstrip('* '), False)
            return a == b and a[0] != '?'
        return w[1] == g[1]
    if w[0] == 'p' and w[1].startswith('void') and g == ('i', 8): return True      # %p of a pthread_t
    return w == g


def spell(s):
    """'size_t' (aka 'unsigned long') -> unsigned long"""
    m = re.match(r"'([^']*)'(?: \(aka '([^']*)'\))?", s)
    return (m.group(2) or m.group(1)) if m else s


def diag(path):
    r = subprocess.run([model.LLVM + 'clang', '-fsyntax-only'] + model.FLAGS + ['-Wno-everything', '-Wformat', '-Wformat-insufficient-args', '-Wformat-extra-args', '-Wformat-invalid-specifier',
                        '-Wformat-security', '-ferror-limit=0', '-fno-color-diagnostics', '-fno-caret-diagnostics', '-include', ATTR, os.path.relpath(path, model.REPO)],
                       cwd=model.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise model.AnalysisError('%s does not compile with the attribute header: %s' % (path, r.stdout[:800]))
    return r.stdout


def selftest():
    """the rule must fire on a minimal positive example"""
    src = '#include <RadarKit.h>\nvoid t(int k, char *s) { RKLog("%s %d", s); RKLog("%s", k); RKLog("%d", k); }\n'
    p = model.BUILD + '/c01_selftest_%d.c' % os.getpid()
    os.makedirs(model.BUILD, exist_ok=True)
    open(p, 'w').write(src)
    try:
        r = subprocess.run([model.LLVM + 'clang', '-fsyntax-only'] + model.FLAGS + ['-Wno-everything', '-Wformat', '-include', ATTR, p], cwd=model.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        os.unlink(p)
    if r.stdout.count('warning:') != 2: raise model.AnalysisError('format self-test gave %r' % r.stdout)


def check(r):
    selftest()
    P = rk.Program()
    lib, progs = model.units()
    files = [f for f in lib + progs if os.path.basename(f) not in rk.TESTFILES]
    starts = {}
    for f in P.fns.values():
        if not f.decl: starts.setdefault(f.file, []).append((f.line, f.name))
    for l in starts.values(): l.sort()

    def enclosing(file, line):
        n = '?'
        for l, name in starts.get(os.path.basename(file), []):
            if l <= line: n = name
        return n
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(diag, files))
    raw = 0; harmless = 0
    for o in outs:
        for line in o.splitlines():
            m = re.match(r'([^:]+):(\d+):\d+: warning: (.*?) \[(-W[^\]]*)\]', line)
            if not m: continue
            raw += 1
            file, ln, msg, flag = m.group(1), int(m.group(2)), m.group(3), m.group(4)
            fn = enclosing(file, ln)
            t = re.search(r"specifies type (.*?) but the argument has (?:underlying )?type (.*)$", msg)
            if t:
                want, got = spell(t.group(1)), spell(t.group(2))
                scan = want.endswith('*') and not want.startswith(('char', 'wchar', 'void', 'const char', 'signed char', 'unsigned char'))
                if compatible(want, got, scan): harmless += 1; continue
                key = '%s:%s<-%s' % (fn, want.replace(' ', '_'), got.replace(' ', '_'))
            else:
                key = '%s:%s' % (fn, flag)
            r.violation(key, '%s:%d in %s: %s' % (os.path.basename(file), ln, fn, msg))
    n = dyn = 0
    for f in P.production():
        for i in f.calls(*PRINTF):
            n += 1
            pos = {'RKLog': 0, 'printf': 0}.get(i.callee, 2 if i.callee in ('snprintf', 'vsnprintf') else 1)
            if pos < len(i.args):
                e = f.expr(i.args[pos])
                if e[0] not in ('s', 'c'):
                    leaves = [f.expr(v)[0] for v in f.phi_leaves(i.args[pos])]
                    if any(l != 's' for l in leaves): dyn += 1; r.sample('format built at run time, not checked: %s in %s' % (i.loc(), f.name))
    r.cov.update(units_checked=len(files), formatted_calls=n, calls_with_run_time_format=dyn, compiler_diagnostics=raw, same_size_spellings_ignored=harmless)
    r.need('formatted_calls', 300); r.need('units_checked', 30)
    r.explanation = 'clang -Wformat on all production units with RKLog declared as printf-like; a diagnostic is a violation unless both types have the same size and register class'
    r.assumptions = ['formats assembled at run time are listed but not checked', 'LP64 ABI']
