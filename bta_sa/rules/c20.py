"""C20: arguments passed to a step are left unchanged.

A step is a public function of the step modules that takes a telescope configuration or a file.  Every step is interpreted over may-aliases of its parameters, the functions it calls by their summaries (alias.py).
R1 change - no list, dictionary or array of the caller is changed in place (item or attribute assignment, del, a method that changes its object, an in-place operator, out=)
"""
import ast
import re

from ..alias import Aliases
from ..loader import pos

ID = 'C20'
TECHNIQUE = 'interprocedural may-alias analysis from every parameter of every step to every in-place change'
MINIMUM = {'steps': 15, 'parameters': 150, 'changes_seen': 500}
LEVEL_NOTE = 'static analysis of every function a step reaches; objects kept in attributes of other objects beyond one call are not followed; a slice of a list is a copy, a slice of an array is not'
STEP = re.compile(r'telescope_configuration|_files?$|^input_')
STEPS = ['hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'tools.data_selection']


def run(prog, res, tier):
    al = Aliases(prog)
    n = p = 0
    for q, fn in sorted(prog.fns.items()):
        if not any(fn.module.name.endswith('.' + m) for m in STEPS) or not fn.is_public() or not any(STEP.search(p) for p in fn.all_params):
            continue
        n += 1
        p += len(fn.all_params)
        s = al.of(fn)
        for (param, level), evs in sorted(s.changes.items()):
            for node, chain in evs:
                what = ast.unparse(node).split('\n')[0][:80]
                where = chain[-1]
                via = '' if len(chain) == 1 else ', through ' + ' -> '.join(c.name for c in chain[1:])
                res.add('change', '%s:%s:%s:%s' % (fn.qual.split('.', 1)[1], param, where.name, what), pos(node),
                        'in %s, "%s" changes %sthe argument %s of the caller%s' % (where.name, what, 'what is inside ' if level else '', param, ' of ' + fn.name + via if len(chain) > 1 else ''))
    res.cover('steps', n)
    res.cover('parameters', p)
    res.cover('changes_seen', al.writes)
    res.cover('functions', len(al.done))
    res.cover('calls', al.calls)
