"""C04: plotting never changes results and can be switched off.

A step is a function with a parameter plot.
R1 off     - with plot=False, propagated through every function the step calls, no plot file is created and nothing is drawn into a PDF that does not exist
R2 result  - nothing a step writes to a data file, puts into a telescope or returns depends on plot, neither by its value nor by the branch it is written in
R3 change  - plot functions change none of the arrays, lists and dictionaries they are given; statements under a test of plot change nothing that is used outside of such tests
R4 random  - plot functions draw no random numbers
"""
import ast

from ..alias import Aliases
from ..loader import Fn, dotted, pos
from ..plotting import Off, PlotTable, full, only_own, own_names

ID = 'C04'
TECHNIQUE = 'constant propagation of plot=False through the call graph, dependence of every data sink on plot, and may-alias analysis of the plot functions'
MINIMUM = {'steps': 8, 'plot_functions': 15, 'sinks': 60}
LEVEL_NOTE = 'static analysis of every step with a plot option and all it calls; values are followed through variables, arguments and return values, not through attributes of objects of other packages'
PDF = ('output_pdf', 'pdf', 'fig', 'ax', 'axes', 'cax', 'self', 'artist')
STEPS = ('hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'tools.data_selection', 'converter.pybar_fei4_converter', 'converter.pymosa_converter')


def run(prog, res, tier):
    steps = [(q, fn) for q, fn in sorted(prog.fns.items()) if fn.parent is None and not isinstance(fn.node, ast.Lambda) and 'plot' in fn.all_params and fn.module.name.split('.', 1)[1] in STEPS]
    al = Aliases(prog)
    off, table = Off(prog), PlotTable(prog, al)
    sinks = 0
    for q, fn in steps:
        short = q.split('.', 1)[1]
        known = {p: ('unknown',) for p in fn.all_params}
        known['plot'] = False
        r, files, crashes = off.run(fn, known)
        for n, where in files.values():
            res.add('off', '%s:%s' % (short, where.name), pos(n), '%s creates a plot file in %s although plot is False: %s' % (fn.name, where.name, ast.unparse(n)[:80]))
        for n, where in crashes.values():
            res.add('nopdf', '%s:%s:%s' % (short, where.name, ast.unparse(n.value)), pos(n), 'with plot=False %s draws into %s in %s, which is None' % (fn.name, ast.unparse(n.value), where.name))
        table.of(fn)
        d = table.deps[id(fn.node)]
        own = own_names(fn, d, 'plot')
        for v, n in d.sinks:
            sinks += 1
            if 'plot' in v and not only_own(n, own):
                res.add('result', '%s:%s' % (short, ast.unparse(n)[:60]), pos(n), 'what %s writes by "%s" depends on plot' % (fn.name, ast.unparse(n)[:80]))
        texts = {t for v, c, t, n in d.rets}
        for v, c, t, n in d.rets:
            sinks += 1
            if fn.is_public() and ('plot' in v or 'plot' in c and len(texts) > 1):
                res.add('result', '%s:return' % short, pos(n), 'what %s returns (%s) depends on plot' % (fn.name, t[:60]))
        guarded(prog, res, al, short, fn, d)
    plots = 0
    for q, fn in sorted(prog.fns.items()):
        if not fn.module.name.endswith('.plot_utils') or isinstance(fn.node, ast.Lambda) or fn.parent is not None:
            continue
        plots += 1
        s = al.of(fn)
        for (p, level), evs in sorted(s.changes.items()):
            if p in PDF:
                continue
            for n, chain in evs:
                what = ast.unparse(n).split('\n')[0][:70]
                res.add('change', '%s:%s:%s' % (fn.name, p, chain[-1].name), pos(n), 'the plot function %s changes its argument %s by "%s"%s' % (fn.name, p, what, '' if len(chain) == 1 else ' in ' + chain[-1].name))
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call):
                d = full(fn, dotted(n.func) or '')
                if d.startswith('numpy.random.') and not d.endswith(('default_rng', 'RandomState')) or d.startswith('random.'):
                    res.add('random', '%s:%s' % (fn.name, d), pos(n), 'the plot function %s changes the state of the random numbers: %s' % (fn.name, d))
    res.cover('steps', len(steps))
    res.cover('plot_functions', plots)
    res.cover('sinks', sinks)
    res.cover('calls_with_plot_off', off.calls)
    res.cover('functions_with_plot_off', len(off.memo))


def guarded(prog, res, al, short, fn, d):
    """Blocks under a test of plot."""
    blocks = [s for t, s in d.guarded if 'plot' in t]
    inside = {id(n) for s in blocks for n in ast.walk(s)}
    used = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside}
    seen = set()
    for s in blocks:
        if id(s) in seen:
            continue
        seen |= {id(n) for n in ast.walk(s)}
        names = sorted({n.id for n in ast.walk(s) if isinstance(n, ast.Name)} & ({n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inside} | set(fn.all_params)))
        node = ast.FunctionDef(name=fn.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                               body=[s], decorator_list=[], returns=None, lineno=s.lineno, col_offset=0)
        node._module = getattr(s, '_module', None)
        node._evidence = fn.node
        for (p, level), evs in sorted(al.of(Fn(fn.module, node, fn.qual)).changes.items()):
            if p in PDF or p not in used:
                continue
            for n, chain in evs:
                res.add('change', '%s:%s:%s' % (short, p, chain[-1].name), pos(n), 'under a test of plot, %s changes %s by "%s"' % (fn.name, p, ast.unparse(n).split('\n')[0][:70]))
