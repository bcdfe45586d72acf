"""Builds the resolved-program model of /repo's current working tree.

Every run compiles all units of the library, rkutil and the examples to LLVM IR with the build's own flags
(only -O2 replaced by -O0 -g), links them, lets tool/rkir normalise and export them, and loads the result.
A content hash of all inputs keys a cache below /verif/build, which is only ever an optimisation."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RK_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-std=c11', '-march=haswell', '-mfpmath=sse', '-Iheaders', '-Iheaders/RadarKit', '-I/usr/local/include', '-D_GNU_SOURCE']


class AnalysisError(Exception):
    pass


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def units():
    lib = sorted(glob.glob(REPO + '/source/*.c'))
    progs = [REPO + '/rkutil.c'] + sorted(glob.glob(REPO + '/examples/*.c'))
    if len(lib) < 30:
        raise AnalysisError('only %d library units found' % len(lib))
    return lib, progs


def source_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    files = sorted(glob.glob(REPO + '/source/**/*.[ch]', recursive=True) + glob.glob(REPO + '/headers/**/*.h', recursive=True) + glob.glob(REPO + '/*.c') + glob.glob(REPO + '/examples/*.c'))
    files += [VERIF + '/tool/rkir.cc', VERIF + '/rules/known_functions.txt', os.path.abspath(__file__)]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def build_tool():
    src = VERIF + '/tool/rkir.cc'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = BUILD + '/rkir-' + h
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        run(['g++', '-O2', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
             '-D__STDC_FORMAT_MACROS', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(tmp, out)
    return out


def mainname(path):
    return 'main_' + os.path.basename(path)[:-2].replace('-', '_')


def compile_all(outdir):
    lib, progs = units()
    jobs = [(f, []) for f in lib] + [(f, ['-Dmain=' + mainname(f)]) for f in progs]

    def one(j):
        f, extra = j
        o = os.path.join(outdir, os.path.relpath(f, REPO).replace('/', '_') + '.bc')
        run([LLVM + 'clang', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-w'] + FLAGS + extra + ['-emit-llvm', '-c', os.path.relpath(f, REPO), '-o', o], cwd=REPO)
        if f in progs:
            run([LLVM + 'opt', '-passes=internalize', '-internalize-public-api-list=' + mainname(f), o, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, jobs))
    linked = os.path.join(outdir, 'all.bc')
    run([LLVM + 'llvm-link'] + bcs + ['-o', linked])
    return linked, len(jobs)


def load(variant='plain'):
    """variant: 'plain' (only helpers unknown to the base are inlined) or 'inline' (all static helpers inlined) or 'unset' (as plain, with the value of a local that has none yet kept apart)"""
    tool = build_tool()
    key = source_hash(variant)
    cache = os.path.join(BUILD, 'model-%s.json' % key)
    t0 = time.time()
    if not os.path.exists(cache) or os.environ.get('RK_NOCACHE'):
        os.makedirs(BUILD, exist_ok=True)
        with tempfile.TemporaryDirectory(dir=BUILD) as d:
            linked, n = compile_all(d)
            cmd = [tool, linked, os.path.join(d, 'm.json'), VERIF + '/rules/known_functions.txt']
            if variant == 'inline':
                cmd.append('--inline-static')
            if variant == 'unset':
                cmd += ['--unset', '--passes=function(mem2reg)']
            run(cmd)
            # keep the cache small
            old = sorted(glob.glob(BUILD + '/model-*.json'), key=os.path.getmtime)
            for f in old[:-6]:
                os.unlink(f)
            os.rename(os.path.join(d, 'm.json'), cache)
    import gc
    gc.disable()
    m = json.load(open(cache))
    gc.enable()
    m['units'] = len(units()[0]) + len(units()[1])
    m['build_s'] = time.time() - t0
    return m
