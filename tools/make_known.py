"""make_known.py: writes bta_sa/known.json, the functions of the package and their parameters (run on the unchanged tree)."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bta_sa.helpers import functions, signature

ROOT = '/repo/beam_telescope_analysis'
out = {}
for d, dirs, files in os.walk(ROOT):
    dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'testing', 'external', 'build', 'examples'))
    for f in sorted(files):
        if f.endswith('.py'):
            m = os.path.relpath(os.path.join(d, f), ROOT)[:-3].replace(os.sep, '.')
            m = m[:-9] if m.endswith('.__init__') else m
            with open(os.path.join(d, f)) as fh:
                out[m] = {q: signature(fn) for q, fn, c in functions(ast.parse(fh.read()))}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'bta_sa', 'known.json'), 'w') as fh:
    json.dump({k: v for k, v in out.items() if v}, fh, indent=0, sort_keys=True)
