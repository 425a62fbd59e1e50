"""Findings, evidence files, known-findings file and exit codes shared by all rules."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
EVID = os.environ.get('BTA_EVID') or os.path.join(VERIF, 'evidence')


class Finding(object):
    """A violated instance: rule + construct is its identity, where/msg say it to the reader."""

    def __init__(self, rule, construct, where, msg):
        self.rule, self.construct, self.where, self.msg = rule, construct, where, msg

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def __str__(self):
        return '%s: [%s] %s (%s)' % (self.where, self.rule, self.msg, self.construct)


class Result(object):
    def __init__(self):
        self.findings = {}
        self.coverage = {}
        self.rules = []
        self.assumptions = []

    def add(self, rule, construct, where, msg):
        f = Finding(rule, construct, where, msg)
        self.findings.setdefault(f.key, f)

    def cover(self, name, n):
        """Count of analysed instances of a kind (or the sorted list of them)."""
        self.coverage[name] = n

    def rule(self, name, text):
        self.rules.append('%s: %s' % (name, text))


def known():
    """{property: {key: what}} of recorded (unrepaired) findings."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                head, _, what = line[len('finding:'):].partition(' :: ')
                parts = head.strip().split(' ', 1)
                pid = parts[0].split('=', 1)[1]
                key = parts[1].strip().split('=', 1)[1]
                out.setdefault(pid, {})[key] = what.strip()
    return out


def finish(pid, res, tier, seed, t0, minimum, technique):
    """Compare with the known findings, write the evidence file, print, and return the exit code."""
    kn = known().get(pid, {})
    viol = [f for k, f in sorted(res.findings.items()) if k not in kn]
    acc = [f for k, f in sorted(res.findings.items()) if k in kn]
    short = []
    for name, want in (minimum or {}).items():
        have = res.coverage.get(name, 0)
        n = len(have) if isinstance(have, (list, dict, set, tuple)) else have
        if n < want:
            short.append('%s: %s analysed, at least %s confirmed by reading' % (name, n, want))
    os.makedirs(EVID, exist_ok=True)
    cov = {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in res.coverage.items()}
    cov['rules'] = res.rules
    cov['explanation'] = ('Static analysis (%s) of the current source tree; nothing is executed. Counts are instances '
                          'the rules were applied to.' % technique)
    cov['known_findings_seen'] = [str(f) for f in acc]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 3),
          'assumptions': res.assumptions, 'violations': len(viol)}
    replay = os.path.join(EVID, '%s-replay.txt' % pid)
    if viol:
        with open(replay, 'w') as fh:
            fh.write('Re-run: /verif/check.py %s\n' % pid)
            for f in viol:
                fh.write(str(f) + '\n')
    elif os.path.exists(replay):
        os.remove(replay)
    with open(os.path.join(EVID, '%s.json' % pid), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    for f in acc:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[f.key], f.where))
    for f in viol:
        print(str(f))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if short:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, '; '.join(short)))
        return 2
    print('OK property=%s %s' % (pid, ' '.join('%s=%s' % (k, len(v) if isinstance(v, (list, dict, set, tuple, frozenset)) else v)
                                                for k, v in sorted(res.coverage.items()))))
    return 0
