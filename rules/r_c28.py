"""C28: structures and numbers that leave the process keep the layout that archives and peers expect.

The compiler is asked for the layout of every structure and the value of every enumerator as the current headers define them
(clang -fdump-record-layouts, and constants of a generated unit); they are compared with those recorded in rules/layout.json."""
import json, os, re, subprocess, tempfile
import model

GOLDEN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')
RECORDS = ['rk_net_delimiter', 'rk_radar_desc', 'rk_wave_file_header', 'rk_filter_anchor', 'rk_config', 'rk_config_v1', 'rk_position', 'rk_pulse_header', 'rk_pulse_header_v1', 'rk_ray_header', 'rk_ray_header_v1',
           'rk_file_header', 'rk_file_header_v1', 'rk_status', 'rk_sweep_header', 'rk_radarhub_ray_header', 'rk_int16c', 'rk_complex', 'rk_four_byte', 'rk_product_desc', 'rk_product_header']
# enumerators by prefix: message numbers, product bits, markers, flags and types that are sent or stored
PREFIX = ['RKNetworkPacketType', 'RKBaseProductList', 'RKBaseProductIndex', 'RKMomentList', 'RKMarker', 'RKPulseStatus', 'RKRayStatus', 'RKPositionFlag', 'RKWaveformType', 'RKRawDataType', 'RKCompressorOption', 'RKRadarHubType',
          'RKStatusEnum', 'RKProductType', 'RFC6455_OPCODE_', 'RKHeadingType', 'RKStatusFlag']
MACROS = ['RKRawDataVersion']


def clang(args, src):
    with tempfile.TemporaryDirectory() as d:
        p = d + '/u.c'
        open(p, 'w').write(src)
        return model.run([model.LLVM + 'clang'] + model.FLAGS + ['-w'] + args + [p], cwd=model.REPO)


def records():
    """{record: {'size': n, 'members': [[offset, name, type], ...]}} of every named record"""
    out = clang(['-fsyntax-only', '-Xclang', '-fdump-record-layouts-complete', '-Xclang', '-fdump-record-layouts-canonical'], '#include <RadarKit.h>\n')
    res = {}
    for blk in out.split('*** Dumping AST Record Layout')[1:]:
        lines = blk.strip('\n').split('\n')
        m = re.match(r'\s*0 \| (?:struct|union) (\w+)\s*$', lines[0])
        if not m: continue
        size = re.search(r'\[sizeof=(\d+)', blk)
        mem = []; flat = [2]          # indentations whose members belong to the record itself
        for l in lines[1:]:
            k = re.match(r'\s*(\d+(?::\d+-\d+)?) \|( +)(.*)$', l)
            if not k: continue
            ind = len(k.group(2)) - 1
            while flat and flat[-1] > ind: flat.pop()
            if ind not in flat: continue
            what = k.group(3).rstrip()
            if re.match(r'(struct|union) .*\(anonymous at [^)]*\)$', what): flat.append(ind + 2); continue
            t = re.match(r'(.*?) ?(\w+)$', what)
            if not t: continue
            mem.append([k.group(1), t.group(2), re.sub(r'\(anonymous at [^)]*\)', '(anonymous)', t.group(1))])
        res[m.group(1)] = {'size': int(size.group(1)), 'members': mem}
    return res


def enumerators(prefix=PREFIX, macros=MACROS):
    import glob
    names = set()
    for h in sorted(glob.glob(model.REPO + '/headers/**/*.h', recursive=True)):
        t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(h, errors='replace').read(), flags=re.S)
        for b in re.findall(r'enum\s*\w*\s*\{(.*?)\}', t, flags=re.S):
            for n in re.findall(r'(?:^|,)\s*(\w+)', b): names.add(n)
    names = sorted(n for n in names if any(n.startswith(p) for p in prefix)) + macros
    src = '#include <RadarKit.h>\n' + ''.join('#ifdef %s\n#endif\n' % n for n in ()) + ''.join('const long long v_%s = (long long)(%s);\n' % (n, n) for n in names)
    out = clang(['-S', '-emit-llvm', '-o', '-'], src)
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'@v_(\w+) = .*constant i64 (-?\d+)', out)}


def current(): return {'records': {k: v for k, v in records().items() if k in RECORDS}, 'values': enumerators()}


def check(r):
    want = json.load(open(GOLDEN)); have = current()
    for n, w in want['records'].items():
        h = have['records'].get(n)
        if h is None: r.count('records_gone'); continue
        r.count('records')
        if h['size'] != w['size']: r.violation('%s:size' % n, 'headers %s: the structure takes %d bytes, peers and archives expect %d' % (n, h['size'], w['size']))
        by = {m[1]: m for m in h['members']}; at = {(m[0], m[2]): m for m in h['members']}
        for off, name, ty in w['members']:
            r.count('members')
            m = by.get(name)
            if m is None:
                if (off, ty) not in at: r.violation('%s.%s:gone' % (n, name), 'headers %s: member %s (%s at byte %s) is no longer there' % (n, name, ty, off))
                else: r.count('renamed')
            elif m[0] != off: r.violation('%s.%s:offset' % (n, name), 'headers %s: member %s is at byte %s, peers and archives expect it at %s' % (n, name, m[0], off))
            elif m[2] != ty: r.violation('%s.%s:type' % (n, name), 'headers %s: member %s is %s, peers and archives expect %s' % (n, name, m[2], ty))
        r.sample('%s: %d bytes, %d members' % (n, h['size'], len(h['members'])))
    for n, v in want['values'].items():
        if n not in have['values']: r.count('values_gone'); continue
        r.count('values')
        if have['values'][n] != v: r.violation('value:%s' % n, 'headers %s is %d, peers and archives expect %d' % (n, have['values'][n], v))
    r.need('records', 18); r.need('members', 300); r.need('values', 150)
    r.explanation = ('The layout the compiler gives each structure that is sent or stored (size; offset and type of each member), and the value of each enumerator that is sent or stored, from the current headers, '
                     'against the recorded ones that existing peers and archives use.')
    r.assumptions = ['archives and peers are those of the recorded layout (64-bit, little endian)']
