"""plant.py: helper used while developing to make /verif/seeded/<id> from edits (not used by any check).

plant(id, prop, [(file, old, new)], demo_python, needs, breaks, files={name: text})
Applies the edits to /repo, writes patch.diff, runs the demo with and without, restores /repo.
"""
import json
import os
import shutil
import subprocess

R = '/repo/beam_telescope_analysis/'
V = '/verif/seeded/'


def git(*a):
    return subprocess.run(['git', '-C', '/repo'] + list(a), capture_output=True, text=True)


def demo(d):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-700:]


def plant(pid, prop, edits, py, needs, breaks, files=None, build=False, keep=True):
    assert not git('status', '--porcelain').stdout.strip()
    d = V + pid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# exit 0 if the property holds for this input\n. /opt/vp/env.sh\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                'tmp="$(mktemp -d)" || exit 99\ntrap \'rm -rf "$tmp"\' EXIT\ncd "$tmp" || exit 99\n'
                'export MPLBACKEND=Agg PYTHONPATH=/repo\ntimeout 240 "$PY" "$here/demo.py" "$tmp"\n')
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/demo.py', 'w') as f:
        f.write(py)
    for n, t in (files or {}).items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(t)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
    ok, o1 = demo(d)
    try:
        for f, o, n in edits:
            with open(R + f, newline='') as fh:
                s = fh.read()
            assert s.count(o) == 1, (pid, f, s.count(o), o)
            with open(R + f, 'w', newline='') as fh:
                fh.write(s.replace(o, n))
        if build:
            subprocess.run(['bash', '/opt/vp/build.sh'], check=True, capture_output=True)
        diff = git('diff').stdout
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        bad, o2 = demo(d)
        chk = subprocess.run(['python3', '/verif/check.py', prop], env=dict(os.environ, BTA_EVID='/tmp/ev_plant'), capture_output=True, text=True)
    finally:
        git('checkout', '--', '.')
        if build:
            subprocess.run(['bash', '/opt/vp/build.sh'], check=True, capture_output=True)
    good = ok == 0 and bad not in (0, 99)
    print('%s %s demo clean=%d patched=%d check=%d %s' % (pid, 'GOOD' if good else 'BAD', ok, bad, chk.returncode, 'CAUGHT' if chk.returncode == 1 else 'MISSED'))
    if not good:
        print('  clean:', o1, '\n  patched:', o2)
        if not keep:
            shutil.rmtree(d)
    for l in chk.stdout.splitlines()[-4:]:
        print('   ', l[:220])
    return good
