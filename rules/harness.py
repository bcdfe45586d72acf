"""Shared driver of the checks: known findings, reporting, evidence, exit codes."""
import json, os, sys, time, traceback
import model

EVID = os.path.join(model.VERIF, 'evidence')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ''
        self.seen = set(); self.lost = []

    def violation(self, key, text):
        """key: stable identity of the construct (function and instance), never a line number"""
        if key in self.seen: return
        self.seen.add(key)
        self.viol.append((key, text))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def need(self, name, least):
        if self.cov.get(name, 0) < least:
            self.lost.append('only %d %s found, at least %d expected: the rule has lost its instances' % (self.cov.get(name, 0), name, least))


def known():
    p = os.path.join(model.VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                parts = l[len('finding: '):].split(' ', 2)
                pid = parts[0].split('=')[1]
                key = parts[1].split('=', 1)[1]
                res.append((pid, key, parts[2] if len(parts) > 2 else ''))
    return res


def main(pid, fn):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    r = Report(pid)
    r.tier = tier
    try:
        fn(r)
    except model.AnalysisError as e:
        r.lost.append(str(e))
    except Exception:
        traceback.print_exc()
        r.lost.append('internal error')
    kn = {k: t for p, k, t in known() if p == pid}
    new = [(k, t) for k, t in r.viol if k not in kn]
    for e in r.lost: print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
    # what was found stands, whatever else could not be looked at
    if r.lost and not new: sys.exit(3)
    for k, t in r.viol:
        if k in kn: print('KNOWN-FINDING: property=%s %s %s' % (pid, k, kn[k]))
    print('property %s (%s)' % (pid, tier))
    for k, v in r.cov.items():
        print('  %-40s %s' % (k, v))
    for s in r.samples[:6]:
        print('  e.g. %s' % s)
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, pid + '.report.txt')
    with open(rep, 'w') as f:
        for k, t in r.viol:
            f.write('%s %s\n    %s\n' % ('KNOWN' if k in kn else 'VIOLATION', k, t))
    cov = dict(r.cov)
    cov['explanation'] = r.explanation
    cov['samples'] = r.samples or ['none']
    cov['known_findings_seen'] = len(r.viol) - len(new)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=r.assumptions, wall_s=round(time.time() - r.t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k, t in new:
        print('  %s: %s' % (k, t))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        sys.exit(1)
    print('OK property=%s' % pid)
    sys.exit(0)
