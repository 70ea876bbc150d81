"""Findings, known findings, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CTSA_REPO', '/repo')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.undecided = {}
        self.notes = []
        self.assumptions = []
        self.rule = ''

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def skip(self, what):
        self.undecided[what] = self.undecided.get(what, 0) + 1

    def finding(self, rule, fn, construct, detail, file='', line=0, where=''):
        key = '%s|%s|%s' % (rule, fn, construct)
        f = self.findings.get(key)
        if f is None:
            self.findings[key] = dict(key=key, rule=rule, function=fn, construct=construct, detail=detail, file=file, line=line,
                                      where=[where] if where else [], n=1)
        else:
            f['n'] += 1
            if where and len(f['where']) < 6 and where not in f['where']:
                f['where'].append(where)

    def merge(self, d):
        for k, n in d['counts'].items():
            self.count(k, n)
        for k, n in d['undecided'].items():
            self.undecided[k] = self.undecided.get(k, 0) + n
        for s in d['samples']:
            self.sample(s)
        for k, f in d['findings'].items():
            g = self.findings.get(k)
            if g is None:
                self.findings[k] = f
            else:
                g['n'] += f['n']
                for w in f['where']:
                    if len(g['where']) < 6 and w not in g['where']:
                        g['where'].append(w)

    def dump(self):
        return dict(counts=self.counts, undecided=self.undecided, samples=self.samples, findings=self.findings)


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p, encoding='utf-8'):
            ln = ln.strip()
            if ln.startswith('known: '):
                rest = ln[len('known: '):]
                head, _, why = rest.partition(' :: ')
                prop, _, key = head.partition(' key=')
                out.setdefault(prop.replace('property=', '').strip(), {})[key.strip()] = why
    return out


def finish(rep, tier, seed, floors=None, prog=None):
    """print the outcome, write evidence and replays; returns exit code"""
    kn = known().get(rep.pid, {})
    viol = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    for key in sorted(rep.findings):
        f = rep.findings[key]
        if key in kn:
            print('KNOWN-FINDING: property=%s %s [%s:%s %s]' % (rep.pid, key, f['file'], f['line'], kn[key]))
        else:
            viol.append(f)
    floor_fail = []
    for k, n in (floors or {}).items():
        if rep.counts.get(k, 0) < 0.3 * n:
            floor_fail.append('%s=%d < %d' % (k, rep.counts.get(k, 0), n))
    ev = dict(property=rep.pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation=rep.rule, rule=rep.rule, samples=rep.samples, undecided_total=sum(rep.undecided.values()),
                            undecided=dict(sorted(rep.undecided.items(), key=lambda x: -x[1])[:40]), notes=rep.notes,
                            known_findings=[k for k in rep.findings if k in kn], **rep.counts),
              assumptions=rep.assumptions, wall_s=round(time.time() - rep.t0, 2), violations=len(viol))
    if prog is not None:
        ev['coverage']['source_digest'] = prog.digest()
        ev['coverage']['modules_parsed'] = len(prog.mods)
        ev['coverage']['functions_parsed'] = sum(1 for _ in prog.functions())
    with open(os.path.join(VERIF, 'evidence', rep.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for i, f in enumerate(viol):
        path = os.path.join(VERIF, 'evidence', 'replays', '%s_%d.json' % (rep.pid, i))
        with open(path, 'w') as fh:
            json.dump(f, fh, indent=1, default=str)
        if i >= 6:
            continue
        print('VIOLATION property=%s replay=%s' % (rep.pid, path))
        print('  %s:%s in %s: rule %s: %s -- %s' % (f['file'], f['line'], f['function'], f['rule'], f['construct'], f['detail']))
        for w in f['where'][:3]:
            print('    from %s' % w)
    if len(viol) > 6:
        print('... %d violations in all' % len(viol))
    if viol:
        return 1
    if floor_fail:
        print('ANALYSIS BROKEN: %s analysed fewer instances than confirmed: %s' % (rep.pid, '; '.join(floor_fail)))
        return 2
    print('OK property=%s %s undecided=%d wall=%.1fs' % (rep.pid, ' '.join('%s=%s' % kv for kv in sorted(rep.counts.items())),
                                                      sum(rep.undecided.values()), time.time() - rep.t0))
    return 0
