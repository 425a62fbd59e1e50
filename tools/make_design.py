"""Regenerates /verif/DESIGN.md from properties.jsonl, the rule modules, the planted bugs and the notes below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
M = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] for c in M['checks']}
na = {x['property']: x['reason'] for x in M['not_applicable']}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = {}
exec(open(V + '/tools/design_notes.py').read(), NOTES)
NOTES = NOTES['NOTES']
out = [open(V + '/tools/design_head.md').read().rstrip(), '']
planted = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    planted.setdefault(m['property'], []).append((d, m))
for p in props:
    i = p['id']
    out += ['## %s %s' % (i, p['title']), '', p['statement'], '']
    if i not in claimed:
        out += ['Not claimed: %s.' % na.get(i, ''), '']
        continue
    m = importlib.import_module('bta_sa.rules.' + i.lower())
    out += ['**Method.** %s. %s' % (m.TECHNIQUE[0].upper() + m.TECHNIQUE[1:], NOTES.get(i, '')), '', '```', m.__doc__.strip(), '```', '',
            '**Limits.** %s.' % getattr(m, 'LEVEL_NOTE', 'every instance found is an obligation; exceptions are named one by one with a reason in the rule module').rstrip('.'),
            '', '**Minimum analysed** (otherwise exit 2): %s.' % ', '.join('%s %d' % kv for kv in sorted(m.MINIMUM.items())), '']
    for d, x in planted.get(i, []):
        out.append('* planted `%s`: %s (needs: %s) - caught%s.' % (d, x['what_it_breaks'], x['needs'], '' if not x.get('missed') else ': NO'))
    out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
