#!/usr/bin/env python3
"""check.py <property> [--keys]: decide one property of /repo's current source by static analysis."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from bta_sa import report                                   # noqa: E402
from bta_sa.loader import Program, AnalysisError            # noqa: E402


HERE = os.path.dirname(os.path.abspath(__file__))


def fixture_test(mod, pid):
    """Positive control: on the constructed package in fixtures/<id> the rules report exactly the expected findings."""
    d = os.path.join(HERE, 'bta_sa', 'fixtures', pid.lower())
    if not os.path.isdir(d):
        return
    with open(os.path.join(d, 'expected.txt')) as fh:
        want = set(x.strip() for x in fh if x.strip())
    r = report.Result()
    mod.run(Program(d), r, 'quick')
    if set(r.findings) != want:
        raise AnalysisError('self-test: missing %s, unexpected %s' % (sorted(want - set(r.findings)), sorted(set(r.findings) - want)))


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = importlib.import_module('bta_sa.rules.%s' % pid.lower())
    try:
        st = getattr(mod, 'selftest', None)
        if st is not None:
            st()
        fixture_test(mod, pid)
        prog = Program()
        res = report.Result()
        mod.run(prog, res, tier)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-8:]), file=sys.stderr)
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    if '--keys' in argv:
        for k in sorted(res.findings):
            print('KEY', k)
    return report.finish(pid, res, tier, seed, t0, getattr(mod, 'MINIMUM', {}), mod.TECHNIQUE)


if __name__ == '__main__':
    sys.exit(main(sys.argv))
