"""C18: malformed per-DUT arguments are rejected before processing, errors are not swallowed.

The beginning of every step is interpreted over the shapes of its arguments (shapes.py), with all other arguments unknown.
R1 length - a list with one entry per selected DUT, per telescope DUT or per set of DUTs to align, given with any other number of entries, leads to an error on every path before a file is opened, a pool or PDF is made or another step is called
R2 form - a list with one entry that does not have the documented number of items (two, or one per DUT of the set to align) leads to an error in the same way, wherever the entry is
R3 number - a DUT number below zero or not below the number of DUTs leads to an error in the same way in the steps on hits and for the DUTs used for extrapolation
R4 swallow - no handler for all exceptions continues without raising or keeping the exception, no handler for an error type surrounds code of the package that raises this error, and the result of every asynchronous call is fetched
"""
import ast
import re

from ..calls import callee, handed
from ..loader import PKG, AnalysisError, dotted, pos, walk_local
from ..shapes import Limit, Shapes, UNK, V, const, num, seq, NONE

ID = 'C18'
TECHNIQUE = 'abstract interpretation of the argument checks over shapes (symbolic lengths, representative entries, three-valued conditions); exception-handler rule over the call graph'
MINIMUM = {'length_scenarios': 120, 'accepted_scenarios': 70, 'form_scenarios': 20, 'number_scenarios': 8, 'handlers': 10}
LEVEL_NOTE = ('static analysis of the argument checks for every wrong length (a symbol that differs from the right one), every position of a malformed entry and all values of the other arguments; '
              'the table of per-DUT parameters is taken from the documentation of the steps')

S, N, D, W, B, F = num('S'), num('N'), num('D'), num('W'), num('B'), num('F')
FLOAT = V('num', '?', 0, 'float')
INT = num('IN')
STR = V('str', True)
BOOL = V('bool?')
PAIR = seq('tuple', num(None, 2), [FLOAT, FLOAT])
PAIRS = seq('tuple', num(None, 2), [PAIR, PAIR])
INTS = seq('list', V('num', 'L', 0, 'int'), [INT] * 3)
NAMES = seq('list', D, [seq('list', V('num', 'L', 0, 'int'), [STR] * 3)] * 3)
PERDUT = seq('list', D, [FLOAT] * 3)
SHAPES_ = seq('list', D, [seq('list', V('num', 'L', 0, 'int'), [num('?')] * 3)] * 3)
REGIONS = seq('list', V('num', 'L', 0, 'int'), [PAIRS] * 3)
MASK = V('array')
SIZES = seq('tuple', num(None, 2), [num('?'), num('?')])


def other(v, n):
    """The same entry with another number of items."""
    return seq(v.a, n, [v.c[0]] * 3)


BAD_PAIR = [('two values', other(PAIR, B)), ('two values (but one number)', FLOAT)]
BAD_LIST = [('a list of DUTs', INT)]
BAD_PAIRS = [('two ranges', other(PAIRS, B)), ('two limits per range', seq('tuple', num(None, 2), [PAIR, other(PAIR, B)])), ('two limits per range (first)', seq('tuple', num(None, 2), [other(PAIR, B), PAIR])), ('two ranges (but one number)', FLOAT)]
BAD_REGIONS = [('two ranges per region', seq('list', V('num', 'L', 0, 'int'), [other(PAIRS, B)] * 3)),
               ('two limits per range', seq('list', V('num', 'L', 0, 'int'), [PAIRS, seq('tuple', num(None, 2), [other(PAIR, B), PAIR]), PAIRS])), ('a list of regions', FLOAT)]
# step -> (length symbol of the lists, {parameter: (an entry, [(what it must have, a malformed entry)])})
SEL, ALL = S, N
TABLE = {
    'hit_analysis.convert': {'input_hit_files': (SEL, STR, []), 'output_hit_files': (SEL, STR, [])},
    'hit_analysis.check': {'input_hit_files': (SEL, STR, []), 'output_check_files': (SEL, STR, []), 'event_ranges': (SEL, num('?'), []), 'resolutions': (SEL, PAIR, [])},
    'hit_analysis.mask': {'input_hit_files': (SEL, STR, []), 'output_mask_files': (SEL, STR, []), 'pixel_mask_names': (SEL, STR, []), 'iterations': (SEL, num('?'), []),
                          'thresholds': (SEL, FLOAT, []), 'filter_sizes': (SEL, SIZES, []), 'disable_masks': (SEL, MASK, [])},
    'hit_analysis.cluster': dict([(p, (SEL, STR, [])) for p in ('input_hit_files', 'input_mask_files', 'output_cluster_files')]
                                 + [(p, (SEL, FLOAT, [])) for p in ('min_hit_charges', 'max_hit_charges', 'charge_corrections')]
                                 + [(p, (SEL, BOOL, [])) for p in ('use_positions', 'charge_weighted_clustering')]
                                 + [(p, (SEL, num('?'), [])) for p in ('column_cluster_distances', 'row_cluster_distances', 'frame_cluster_distances')]),
    'hit_analysis.correlate': {'input_files': (SEL, STR, [])},
    'hit_analysis.merge_cluster_data': {'input_cluster_files': (ALL, STR, [])},
    'dut_alignment.align': {'alignment_parameters': (SEL, NAMES, [('one list per DUT of the set', other(NAMES, B))]), 'select_hit_duts': (SEL, INTS, BAD_LIST), 'select_fit_duts': (SEL, INTS, BAD_LIST),
                            'track_chi2': (SEL, PERDUT, [('one value per DUT of the set', other(PERDUT, B))]), 'cluster_shapes': (SEL, SHAPES_, [('one list per DUT of the set', other(SHAPES_, B))]),
                            'quality_distances': (ALL, PAIR, BAD_PAIR), 'isolation_distances': (ALL, PAIR, BAD_PAIR), 'max_iterations': (SEL, num('?'), []), 'max_events': (SEL, num('?'), [])},
    'dut_alignment.align_kalman': {'alignment_parameters': (SEL, NAMES, []), 'select_hit_duts': (SEL, INTS, BAD_LIST), 'select_fit_duts': (SEL, INTS, BAD_LIST), 'max_events': (SEL, num('?'), []), 'max_tracks': (SEL, num('?'), []),
                                   'track_chi2': (SEL, FLOAT, [])},
    'dut_alignment.calculate_transformation': {'select_alignment_parameters': (SEL, seq('list', V('num', 'L', 0, 'int'), [STR] * 3), [])},
    'track_analysis.fit_tracks': {'select_hit_duts': (SEL, INTS, BAD_LIST), 'select_fit_duts': (SEL, INTS, BAD_LIST), 'exclude_dut_hit': (SEL, BOOL, [('a boolean', num('?'))]), 'min_track_hits': (SEL, num('?'), []),
                                  'quality_distances': (ALL, PAIR, BAD_PAIR), 'isolation_distances': (ALL, PAIR, BAD_PAIR)},
    'result_analysis.calculate_efficiency': {'input_cluster_files': (SEL, STR, []), 'resolutions': (SEL, PAIR, BAD_PAIR), 'in_pixel_resolutions': (SEL, PAIR, BAD_PAIR), 'extend_areas': (SEL, PAIR, BAD_PAIR),
                                             'extend_in_pixel_areas': (SEL, PAIR, BAD_PAIR), 'plot_ranges': (SEL, PAIRS, BAD_PAIRS), 'efficiency_regions': (SEL, REGIONS, BAD_REGIONS),
                                             'efficiency_region_names': (SEL, seq('list', V('num', 'L', 0, 'int'), [STR] * 3), []), 'cut_distances': (SEL, PAIR, BAD_PAIR), 'disabled_pixel_masks': (SEL, MASK, [])},
    'tools.data_selection.select_tracks': dict([(p, (SEL, INTS, BAD_LIST)) for p in ('select_hit_duts', 'select_no_hit_duts', 'select_quality_duts', 'select_isolated_track_duts', 'select_isolated_hit_duts')] + [('query', (SEL, STR, [('a string', num('?'))]))]),
}
NUMBERS = {'hit_analysis.convert': 'select_duts', 'hit_analysis.check': 'select_duts', 'hit_analysis.mask': 'select_duts', 'hit_analysis.cluster': 'select_duts', 'hit_analysis.correlate': 'select_duts',
           'track_analysis.find_tracks': 'select_extrapolation_duts'}
SETS = ('dut_alignment.align', 'dut_alignment.align_kalman')
OPENERS = {'open_file', 'PdfPages', 'Pool', 'ThreadPool', 'SMC'}
STEP_MODULES = ('hit_analysis', 'dut_alignment', 'track_analysis', 'result_analysis', 'tools.data_selection', 'tools.plot_utils')
# handlers for an error type around code of the package that raises it, with the reason why this is right
EXPECTED = {
    ('_fit_tracks_kalman_loop', 'RuntimeError'): 'a track for which the numerical fit fails is left out of the alignment and reported',
    ('peak_detect', 'RuntimeError'): 'no peak in the histogram: a simpler estimate of its width is taken, only the range of result histograms depends on it',
    ('simple_peak_detect', 'RuntimeError'): 'no peak in the histogram: a default width is taken, only the range of result histograms depends on it',
}


def is_sink(prog, fn, n, d):
    last = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else '')
    if last in OPENERS:
        return last
    if last == 'save_configuration':
        return last
    if d is None:
        return None
    r = prog.resolve_in_module(fn.module, d)
    if r is not None and r[0] == 'fn':
        g = r[1]
        m = g.module.name[len(PKG) + 1:]
        if m in STEP_MODULES and g.is_public() and g.cls is None and g.parent is None and documented(g):
            return '%s.%s' % (m, g.node.name)
    return None


def documented(g):
    """A step (it is given files), not a helper."""
    return any(p.startswith(('input_', 'telescope_configuration')) or p.endswith(('_file', '_files')) for p in g.all_params)


def duts_value(q, length, entry=None):
    if q in SETS:
        return seq('list', length, [seq('list', D, [num('IN')] * 3)] * 3)
    return seq('list', length, entry or [num('IN')] * 3)


def run(prog, res, tier):
    for k, v in (l.strip().split(' - ', 1) for l in __doc__.splitlines() if re.match(r'R\d', l)):
        res.rule(k, v)
    counts = {'length_scenarios': 0, 'form_scenarios': 0, 'number_scenarios': 0, 'accepted_scenarios': 0}
    followed = set()

    def scenario(fn, env):
        sh = Shapes(prog, is_sink)
        try:
            o = sh.run(fn, env, free=True)
        except Limit:
            raise AnalysisError('%s: the argument checks are too large to interpret' % fn.qual)
        followed.update(sh.followed)
        reached = list(sh.sinks)
        if not reached and (o.go or o.ret):
            reached = [(fn, fn.node, 'the end of the step')]
        return reached

    for q, params in sorted(TABLE.items()):
        fn = prog.fn(q)
        for p in params:
            if p not in fn.all_params:
                raise AnalysisError('anchor vanished: parameter %s of %s' % (p, q))
        for p, (size, entry, bad) in sorted(params.items()):
            worlds = [('given', duts_value(q, S), size)]
            if 'select_duts' not in fn.all_params:
                worlds = [('given', None, size)]
            elif q not in SETS and has_default(fn, 'select_duts'):
                worlds.append(('all', NONE, N))
            for w, sel, right in worlds:
                env = {'select_duts': sel} if sel is not None else {}
                # control: the right length and form get through
                if scenario(fn, dict(env, **{p: seq('list', right, [entry] * 3)})):
                    counts['accepted_scenarios'] += 1
                wrongs = [(env, W, '')]
                if w == 'given' and sel is not None:
                    # some of the DUTs are selected: as many entries as the telescope has DUTs are wrong for a list per selected DUT, and the other way round
                    wrongs.append(({'select_duts': duts_value(q, F)}, N if right == S else F, ', one for each %s DUT' % ('telescope' if right == S else 'selected')))
                for e, wrong, text in wrongs:
                    counts['length_scenarios'] += 1
                    hit = scenario(fn, dict(e, **{p: seq('list', wrong, [entry] * 3)}))
                    if hit:
                        f, n, why = hit[0]
                        res.add('length', '%s: %s' % (q, p), pos(n), '%s reaches %s with a list for %s that has a wrong number of entries%s (select_duts %s)' % (q, why, p, text, w))
                for what, v in bad:
                    for k in range(3):
                        counts['form_scenarios'] += 1
                        items = [entry] * 3
                        items[k] = v
                        hit = scenario(fn, dict(env, **{p: seq('list', right, items)}))
                        if hit:
                            f, n, why = hit[0]
                            res.add('form', '%s: %s: %s' % (q, p, what), pos(n), '%s reaches %s with an entry of %s that does not have %s' % (q, why, p, what))
    for q, p in sorted(NUMBERS.items()):
        fn = prog.fn(q)
        if p not in fn.all_params:
            raise AnalysisError('anchor vanished: parameter %s of %s' % (p, q))
        if scenario(fn, {p: seq('list', S, [num('IN')] * 3)}):
            counts['accepted_scenarios'] += 1
        for s, what in (('OUT', 'not below the number of DUTs'), ('NEG', 'below zero')):
            for k in range(3):
                counts['number_scenarios'] += 1
                items = [num('IN')] * 3
                items[k] = num(s)
                hit = scenario(fn, {p: seq('list', S, items)})
                if hit:
                    f, n, why = hit[0]
                    res.add('number', '%s: %s: %s' % (q, p, what), pos(n), '%s reaches %s with a DUT number in %s that is %s' % (q, why, p, what))
    for k, v in counts.items():
        res.cover(k, v)
    res.cover('helpers_followed', sorted(followed))
    swallowed(prog, res)


def has_default(fn, p):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return p in names[len(names) - len(a.defaults):] or p in [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]


# -- R4 ---------------------------------------------------------------------------------------------------------

BROAD = {'Exception', 'BaseException'}
TYPES = {'ValueError', 'RuntimeError', 'KeyError', 'TypeError', 'IndexError', 'AssertionError', 'NotImplementedError', 'ZeroDivisionError'}


def fns_of(prog):
    for f in prog.fns.values():
        short = f.module.name[len(PKG) + 1:]
        if short.startswith(('testing', 'tests', 'examples')) or short.split('.')[-1] == 'test_tools':
            continue
        yield f


def raises(prog):
    """Function -> names of exceptions it raises itself or in the package functions it calls (handlers inside are not considered)."""
    direct, calls = {}, {}
    for f in fns_of(prog):
        out = set()
        to = set()
        for n in walk_local(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                out.add((dotted(e) or '').split('.')[-1])
            if isinstance(n, ast.Call):
                g, _ = callee(prog, f, n.func)
                if g is not None:
                    to.add(g.qual)
                for g, _ in handed(prog, f, n):
                    to.add(g.qual)
        direct[f.qual], calls[f.qual] = out, to
    change = True
    while change:
        change = False
        for q in direct:
            for t in calls[q]:
                new = direct.get(t, set()) - direct[q]
                if new:
                    direct[q] |= new
                    change = True
    return direct


def keeps(h):
    """The handler raises, or keeps the exception for later."""
    for n in ast.walk(h):
        if isinstance(n, ast.Raise):
            return True
        if h.name and isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == h.name and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            return True
        if h.name and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'put', 'set_exception') and any(isinstance(a, ast.Name) and a.id == h.name for a in n.args):
            return True
        if isinstance(n, ast.Call) and dotted(n.func) in ('sys.exit', 'os._exit'):
            return True
    return False


def swallowed(prog, res):
    rs = raises(prog)
    n_handlers, n_async = 0, 0
    for f in fns_of(prog):
        short = f.qual[len(PKG) + 1:] if f.qual.startswith(PKG) else f.qual
        for n in walk_local(f.node):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    n_handlers += 1
                    ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = {(dotted(t) or '').split('.')[-1] for t in ts}
                    if keeps(h):
                        continue
                    if h.type is None or names & BROAD:
                        res.add('swallow', '%s: %s' % (short, 'all exceptions'), pos(h), 'a handler for all exceptions continues without the error being raised or kept')
                        continue
                    if not names & TYPES:
                        continue
                    got = set()
                    for s in n.body:
                        for c in ast.walk(s):
                            if isinstance(c, ast.Call):
                                g, _ = callee(prog, f, c.func)
                                if g is not None:
                                    got |= {(g.node.name, t) for t in rs.get(g.qual, set()) & names}
                            elif isinstance(c, ast.Raise) and c.exc is not None:
                                t = (dotted(c.exc.func if isinstance(c.exc, ast.Call) else c.exc) or '').split('.')[-1]
                                if t in names:
                                    got.add((f.node.name, t))
                    for g, t in sorted(got):
                        if (g, t) in EXPECTED:
                            continue
                        res.add('swallow', '%s: %s of %s' % (short, t, g), pos(h), 'the %s raised in %s is caught here and the step goes on' % (t, g))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('apply_async', 'map_async', 'starmap_async', 'submit'):
                n_async += 1
                if not fetched(f, n):
                    res.add('swallow', '%s: %s' % (short, n.func.attr), pos(n), 'the result of the asynchronous call is never fetched: an error in it is lost')
            elif isinstance(n, ast.With):
                for i in n.items:
                    d = dotted(i.context_expr.func) if isinstance(i.context_expr, ast.Call) else None
                    if d and d.split('.')[-1] == 'suppress':
                        n_handlers += 1
                        names = {(dotted(a) or '').split('.')[-1] for a in i.context_expr.args}
                        if names & (BROAD | TYPES):
                            res.add('swallow', '%s: suppress' % short, pos(n), 'errors of kind %s are suppressed' % ', '.join(sorted(names)))
    res.cover('handlers', n_handlers)
    res.cover('asynchronous_calls', n_async)


def fetched(f, call):
    """The result of the call is used: .get(..) on it, stored somewhere, returned or passed on."""
    p = call._parent
    return not isinstance(p, ast.Expr)
