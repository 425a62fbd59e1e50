"""C05: per-DUT data stays with its DUT.

Every integer used as an index is classified as the number of a DUT or as a position in a particular list, every list, array axis and argument by
what it is indexed with.  Lists get the class of another list by the length check of the step, by being built from it element by element, by being
filled once per turn of the loop over it, or by the shape they are created with; private functions and helpers get the classes of their callers.
R1 index    - an entry is taken with an index of the class of that list or array axis
R2 name     - what is put into a name ending in the DUT (column, table, label) is a DUT number
R3 bit      - a flag is shifted by a DUT number
R4 member, compare - DUT numbers are compared with DUT numbers
R5 argument - a parameter for a DUT number, or a list of them, receives DUT numbers
R6 zip      - lists walked in parallel belong to the same selection
R7 stale    - the counter of a loop that has ended selects nothing
R8 fixed    - inside the loop over a selection no list of that selection is read at a fixed position
R9 first    - where the planes are ordered along the beam, no DUT is singled out by a fixed number
R10 order    - the telescope yields its DUTs in the order of their numbers
"""
import ast

from ..loader import AnalysisError, dotted, pos
from ..slots import analyse

ID = 'C05'
TECHNIQUE = 'abstract interpretation of every function over index kinds (DUT number, position in a list) with inferred list classes; clashes where an index is used'
MINIMUM = {'functions': 150, 'index_meetings': 150}
LEVEL_NOTE = 'static analysis of all functions of the steps and their tools; an index whose origin is not understood is not judged; DUT numbers are taken to run from 0 without gaps, as the package does'
MODULES = ['hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'telescope.dut', 'telescope.telescope', 'tools.data_selection', 'tools.kalman', 'tools.analysis_utils', 'tools.plot_utils', 'tools.smc']


def run(prog, res, tier):
    def report(fn, rule, node, what, text):
        res.add(rule, '%s:%s' % (fn.qual.split('.', 1)[1], what[:100]), pos(node), 'in %s, %s: %s' % (fn.name, what, text))
    fns = [f for q, f in sorted(prog.fns.items()) if f.name != '<lambda>' and any(f.module.name.endswith('.' + m) for m in MODULES)]
    an = analyse(prog, fns, report)
    res.cover('functions', len(an))
    res.cover('index_meetings', sum(len(a.met) for a in an.values()))
    order(prog, res)


def order(prog, res):
    """Telescope.__iter__ walks the DUT numbers in ascending order, __getitem__ takes a number."""
    it = prog.fns.get('beam_telescope_analysis.telescope.telescope.Telescope.__iter__')
    if it is None:
        raise AnalysisError('Telescope.__iter__ not found')
    bodies = [it.node] + [c.node for c in it.cls.methods.values() if any(isinstance(n, ast.Attribute) and n.attr == c.name for n in ast.walk(it.node))]
    good = bad = False
    for n in (x for b in bodies for x in ast.walk(b)):
        if isinstance(n, ast.Call) and (dotted(n.func) == 'sorted' or isinstance(n.func, ast.Attribute) and n.func.attr == 'sort'):
            key = next((k.value for k in n.keywords if k.arg == 'key'), None)
            rev = next((k.value for k in n.keywords if k.arg == 'reverse'), None)
            first = isinstance(key, ast.Lambda) and (isinstance(key.body, ast.Name) or isinstance(key.body, ast.Subscript) and isinstance(key.body.slice, ast.Constant) and key.body.slice.value == 0)
            getter = isinstance(key, ast.Call) and (dotted(key.func) or '').endswith('itemgetter') and len(key.args) == 1 and isinstance(key.args[0], ast.Constant) and key.args[0].value == 0
            ok = (key is None or first or getter or dotted(key) == 'int') and (rev is None or isinstance(rev, ast.Constant) and not rev.value)
            good, bad = good or ok, bad or not ok
        if isinstance(n, ast.Call) and dotted(n.func) == 'range':
            good = True
        if isinstance(n, ast.Call) and dotted(n.func) == 'reversed' or isinstance(n, ast.Slice) and n.step is not None:
            bad = True
    if bad or not good:
        res.add('order', 'Telescope.__iter__', pos(it.node), 'the telescope does not yield its DUTs in ascending order of their numbers, on which every enumeration of the telescope relies')
    res.cover('iteration_order', 1)
