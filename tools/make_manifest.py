"""Regenerates /verif/MANIFEST.json from the rule modules present and the reasons below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'N01': 'optimality of a numerical fit is a statement about floating-point results on runtime data; no source-level argument in reach bounds it',
 'N02': 'convergence of the iterative alignment depends on the data and on step sizes; a static argument cannot bound it',
 'N03': 'the clustering algorithm itself lives in the external package pixel_clusterizer, and its result quantifies over runtime hit patterns',
 'N04': 'coverage of the confidence intervals is a numerical statement about the beta distribution evaluated at run time',
 'N05': 'peak memory depends on the event sizes in the data; no static bound in reach',
}
PENDING = 'no sound static check of this property was built; it is not claimed'
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'bta_sa', 'rules', i.lower() + '.py')
    if os.path.exists(f) and '--skip=' + i not in sys.argv:
        m = importlib.import_module('bta_sa.rules.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': m.TECHNIQUE, 'level': 'other',
                       'level_note': getattr(m, 'LEVEL_NOTE', 'static analysis of the current sources; every instance found is an obligation, exceptions are named one by one with a reason')})
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
