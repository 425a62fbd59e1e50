"""C09: events are never split between chunks and none is lost or repeated.

R1 reader  - the event-aligned reader, interpreted over all abstract worlds (relation of chunk, table end, event range), delivers
             chunks that end at event boundaries, continue where the last one ended and reach the end of the table or range
R2 resume  - a reader call resumes with exactly the index that the same call delivered before, and starts afresh for every new table
R3 range   - an event range handed to a reader is [first event of a chunk, last event of the same chunk + 1), or open
R4 raw     - tables are read by plain row ranges only in row-wise functions, and these ranges tile the table
R5 stop    - a chunk loop is left early only when something accumulated over the chunks says so
R6 smc     - the parallel map reads through the event-aligned reader and hands on what it delivers
R7 combine - files are put together with event numbers shifted by the last event number so far plus one
"""
import ast

from .. import reader
from ..defs import Defs, bind_args, calls_to
from ..inline import inlined, same_class, same_module
from ..loader import AnalysisError, dotted, pipeline_fns, pos, walk_local

ID = 'C09'
TECHNIQUE = 'abstract interpretation of the event-aligned reader over a finite set of size and event-number relations; def-use rules on every reader call, resumption index and row-range read'
MINIMUM = {'reader_worlds': 500, 'reader_data_iterations': 200, 'reader_calls': 18, 'resumed_calls': 3, 'range_calls': 3, 'raw_reads': 3, 'chunk_loops': 15}
LEVEL_NOTE = ('static analysis of the reader and of every call of it; assumes that event numbers in a table are sorted (the reader documents this) and that an event fits into a chunk '
              '(the reader raises otherwise); plotting-only reads and the row-wise functions named in the rule are exempt from alignment')

READER = 'data_aligned_at_events'
# row-wise functions: what they do to a row does not depend on the other rows of its event
ROWWISE = {
    'tools.data_selection.combine_files': 'copies rows and shifts the event number',
    'converter.pymosa_converter.format_hit_table': 'converts each hit on its own',
    'converter.pymosa_converter.process_dut': 'converts each hit on its own',
    'converter.pybar_fei4_converter.format_hit_table': 'converts each hit on its own',
    'converter.pybar_fei4_converter.process_dut': 'converts each hit on its own',
    'dut_alignment.calculate_transformation': 'uses each track on its own',
    'tools.plot_utils.plot_residual_correlation': 'uses each residual on its own',
}
LEGACY = {'result_analysis.calculate_residual_correlation': 'reads the same table against itself with a sliding reference (function is a known finding of C16)'}


def short(fn):
    return fn.qual.split('beam_telescope_analysis.', 1)[-1]


def only_from(prog, fn, names, seen=()):
    """The function is one of the names, or a private helper called only from them."""
    if short(fn) in names:
        return True
    if fn.name in seen:
        return True
    users = [f for f in fn.module.functions.values() if f is not fn and any(isinstance(n, ast.Name) and n.id == fn.name for n in ast.walk(f.node))]
    return bool(users) and all(only_from(prog, f, names, seen + (fn.name,)) for f in users)


def edge(defs, e):
    """(text of the event number array, 'first'|'last', constant) of expressions like X[-1] + 1, or None."""
    c = 0
    while isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        if isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
            c += e.right.value if isinstance(e.op, ast.Add) else -e.right.value
            e = e.left
        elif isinstance(e.left, ast.Constant) and isinstance(e.left.value, int) and isinstance(e.op, ast.Add):
            c += e.left.value
            e = e.right
        else:
            return None
        if isinstance(e, ast.Name):
            alts = defs.alternatives(e)
            if len(alts) == 1:
                e = alts[0]
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
        e = e.args[0]
    which, arr = None, None
    if isinstance(e, ast.Call):
        name = (dotted(e.func) or '').split('.')[-1]
        if name in ('max', 'amax', 'min', 'amin'):
            which = 'last' if 'max' in name else 'first'
            if e.args:
                arr = e.args[0]
            elif isinstance(e.func, ast.Attribute):
                arr = e.func.value
    elif isinstance(e, ast.Subscript):
        try:
            i = ast.literal_eval(e.slice)
        except ValueError:
            i = None
        if i in (0, -1):
            which, arr = 'last' if i == -1 else 'first', e.value
        elif i == 'event_number' and isinstance(e.value, ast.Subscript):     # chunk[-1]['event_number']
            try:
                i = ast.literal_eval(e.value.slice)
            except ValueError:
                i = None
            if i in (0, -1):
                arr = ast.Subscript(e.value.value, ast.Constant('event_number'), ast.Load())
                which = 'last' if i == -1 else 'first'
    if which is None or arr is None:
        return None
    return defs.text(arr), which, c


def loops_of(defs, call):
    """The for loop that iterates the call (possibly through one name, enumerate or tqdm), or None."""
    p = defs.parent.get(call)
    while isinstance(p, ast.Call) and (dotted(p.func) or '').split('.')[-1] in ('tqdm', 'iter', 'enumerate'):
        p = defs.parent.get(p)
    if isinstance(p, ast.For):
        return p
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name = p.targets[0].id
        for n in walk_local(defs.node):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == name:
                return n
    return None


def received(defs, loop):
    """Expressions that receive the index delivered for the next chunk."""
    t = loop.target
    if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2:
        if isinstance(t.elts[1], (ast.Tuple, ast.List)) and len(t.elts[1].elts) == 2:
            t = t.elts[1]
        return [t.elts[1]]
    if isinstance(t, ast.Name):
        out = []
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == t.id and isinstance(n.targets[0], (ast.Tuple, ast.List)) and len(n.targets[0].elts) == 2:
                out.append(n.targets[0].elts[1])
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and ast.unparse(n.value) == t.id + '[1]':
                out.append(n.targets[0])
        return out
    return []


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def zero(e):
    return isinstance(e, ast.Constant) and e.value in (None, 0)


def call_sites(prog, fn):
    """(caller, Defs, arguments, node) of direct calls of the function and of apply/apply_async/partial with it."""
    out = []
    for f in fn.module.functions.values():
        if f is fn:
            continue
        d = None
        for n in walk_local(f.node):
            if not isinstance(n, ast.Call):
                continue
            args = None
            if (dotted(n.func) or '').split('.')[-1] == fn.name:
                args = bind_args(n, fn.params)
            elif n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == fn.name:
                args = {}
                for k in n.keywords:
                    if k.arg in ('kwds', 'kwargs'):
                        d = d or Defs(f.node)
                        alts = d.alternatives(k.value)
                        v = alts[0] if len(alts) == 1 else None
                        if isinstance(v, ast.Dict):
                            args.update({x.value: y for x, y in zip(v.keys, v.values) if isinstance(x, ast.Constant)})
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
                            args.update({x.arg: x.value for x in v.keywords if x.arg})
                    elif k.arg in fn.params:
                        args[k.arg] = k.value
            if args is not None:
                d = d or Defs(f.node)
                out.append((f, d, args, n))
    return out


def check_range(prog, res, fn, defs, call, a, construct, depth=0):
    """R3 for the start/stop arguments; parameters are followed into the callers."""
    start, stop = a.get('start_event_number'), a.get('stop_event_number')
    where = '%s:%s' % (fn.module.rel, call.lineno)
    if depth < 3:
        names = [e.id for e in (start, stop) if isinstance(e, ast.Name) and e.id in defs.params and len(defs.of(e.id)) == 1]
        if names and not fn.is_public():
            for f, d, args, n in call_sites(prog, fn):
                b = {}
                for k, e in (('start_event_number', start), ('stop_event_number', stop)):
                    if isinstance(e, ast.Name) and e.id in names:
                        if e.id in args:
                            b[k] = args[e.id]
                    elif e is not None and zero(e):
                        b[k] = e
                check_range(prog, res, f, d, n, b, construct, depth + 1)
            return
    ends = {}
    for k, e in (('start', start), ('stop', stop)):
        if e is None:
            continue
        alts = defs.alternatives(e)
        forms = []
        for x in alts:
            if is_none(x):
                forms.append(None)
                continue
            f = edge(defs, x)
            if f is None:
                forms.append('?')
                continue
            arr, which, c = f
            # start at the first event, or after the last one; stop after the last one
            ok = (which, c) == ('last', 1) or (k == 'start' and (which, c) == ('first', 0))
            if not ok:
                res.add('range', '%s|%s' % (construct, k), where, '%s event of the range is %s event %+d of the chunk; events would be lost or repeated' % (k, which, c))
            forms.append((arr, which, c))
        ends[k] = forms
    s, t = [x for x in ends.get('start', []) if isinstance(x, tuple)], [x for x in ends.get('stop', []) if isinstance(x, tuple)]
    for x in s:
        if x[1] == 'first':
            for y in t:
                if y[0] != x[0]:
                    res.add('range', construct + '|pair', where, 'the range starts at the first event of %s but ends after the last event of %s' % (x[0], y[0]))
    # ranges that tile the event axis (open start, then continue after the last range) must also be open at the end
    if None in ends.get('start', []) and any(x[1:] == ('last', 1) for x in s) and t and None not in ends.get('stop', []):
        res.add('tail', construct, where, 'the ranges cover the events from the start, but nothing covers the events after the last range')


def check_resume(prog, res, fn, defs, call, loop, e, construct, calls, depth=0):
    where = '%s:%s' % (fn.module.rel, call.lineno)
    if e is None or zero(e):
        return
    got = [ast.unparse(x) for x in received(defs, loop)] if loop is not None else []
    txt = ast.unparse(e)
    base = e
    while isinstance(base, ast.Subscript):
        base = base.value
    key = txt
    own_param = isinstance(base, ast.Name) and base.id in defs.params
    ok = txt in got
    stores = [d for d in defs.of(txt) + (defs.of(base.id) if isinstance(base, ast.Name) and txt != base.id else [])]
    for d in stores:
        v = d.value
        if d.kind == 'param' or (d.kind == 'expr' and (zero(v) or initial_list(v))):
            continue
        if loop is not None and d.kind == 'iter' and d.stmt is loop:
            continue
        if d.kind == 'expr' and ast.unparse(v) in got:
            ok = True
            continue
        if d.kind == 'iter' or d.kind == 'expr' and isinstance(v, ast.Name) and any(x.kind == 'iter' for x in defs.of(v.id)):
            res.add('resume', construct, where, 'resumes at %s, which another loop (line %s) also sets' % (txt, getattr(d.stmt, 'lineno', '?')))
            return
        if d.kind in ('aug',) or isinstance(v, ast.BinOp):
            res.add('resume', construct, where, 'resumes at %s, which is computed and not the index that the reader delivered' % txt)
            return
    if isinstance(e, ast.BinOp):
        res.add('resume', construct, where, 'resumes at %s and not at the index that the reader delivered' % txt)
        return
    if not ok and isinstance(base, ast.Name) and got and not own_param and stores:
        res.add('resume', construct, where, 'resumes at %s but the index of the next chunk is stored in %s' % (txt, got[0]))
        return
    fresh(res, defs, call, e, base, construct, where)


def initial_list(v):
    """[None] * n, [0, 0], [None for _ in ..]"""
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
        return any(isinstance(x, (ast.List, ast.Tuple)) and all(zero(y) for y in x.elts) for x in (v.left, v.right))
    if isinstance(v, (ast.List, ast.Tuple)):
        return all(zero(y) for y in v.elts)
    if isinstance(v, ast.ListComp):
        return zero(v.elt)
    if isinstance(v, ast.Dict):
        return all(zero(y) for y in v.values)
    return False


def drivers(defs, node):
    """Reader loops around the node, outermost last."""
    return [l for l in defs.enclosing(node, ast.For) if any(isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] == READER for x in ast.walk(l.iter))]


def fresh(res, defs, node, e, base, construct, where):
    """The resumption state is set up again for every repetition of the outermost chunk loop, and once per table inside it."""
    if not isinstance(base, ast.Name):
        return
    loop = loops_of(defs, node)
    outer = [l for l in drivers(defs, node) if l is not loop]
    if not outer:
        return
    top = outer[-1]
    inits = [d for d in defs.of(base.id) if d.kind == 'expr' and (zero(d.value) or initial_list(d.value))]
    if not inits:
        return
    around = [l for l in defs.enclosing(top, (ast.For, ast.While))]
    table = set()
    for l in around:
        init_ok = any(l in defs.enclosing(d.stmt, (ast.For, ast.While)) for d in inits)
        if not init_ok:
            res.add('fresh', construct, where, 'the index in %s is not reset when the loop at line %s goes on to the next file' % (base.id, l.lineno))
            return
    # inside the driving loop the state must survive from one chunk to the next
    for d in inits:
        if top in defs.enclosing(d.stmt, (ast.For, ast.While)):
            return  # restarted for every chunk: slower, still complete
    # one state per table: the loops between the driver and the call must index the state
    inner = [l for l in defs.enclosing(node, ast.For) if l is not loop and l not in around and l is not top and not any(l is x for x in outer)]
    idx = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
    for l in inner:
        if not (top in defs.enclosing(l, ast.For)):
            continue
        names = {n.id for n in ast.walk(l.target) if isinstance(n, ast.Name)}
        if not names & idx:
            res.add('fresh', construct, where, 'one index (%s) is shared by all tables of the loop at line %s' % (ast.unparse(e), l.lineno))


def check_exchange(prog, res, fn, defs, name, construct):
    """The index handed in as parameter and returned is stored by the caller where it came from."""
    positions = set()
    for n in walk_local(fn.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            positions |= {i for i, e in enumerate(n.value.elts) if isinstance(e, ast.Name) and e.id == name}
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == name:
            positions.add(None)
    n_checked = 0
    for f, d, args, n in call_sites(prog, fn):
        e = args.get(name)
        if e is None or zero(e):
            continue
        n_checked += 1
        where = '%s:%s' % (f.module.rel, n.lineno)
        if not positions:
            res.add('resume', construct + '|exchange', where, 'the index reached is not returned, so %s is never advanced' % ast.unparse(e))
            continue
        txt = ast.unparse(e)
        bases = base_name(e)
        stored = []
        for s in d.of(bases + '[]') + d.of(bases):
            if s.kind == 'elem' and s.path and s.path[0] in positions:
                stored.append(s)
            elif s.kind == 'elem' and s.path:
                stored.append(None)
            elif s.kind == 'expr' and isinstance(s.value, ast.Subscript):
                try:
                    stored.append(s if ast.literal_eval(s.value.slice) in positions else None)
                except ValueError:
                    pass
            elif s.kind == 'aug' or s.kind == 'expr' and isinstance(s.value, ast.BinOp) and not initial_list(s.value):
                stored.append(None)
        if None in stored:
            res.add('resume', construct + '|exchange', where, '%s is set to something else than the index returned' % bases)
            continue
        if isinstance(e, ast.BinOp):
            res.add('resume', construct + '|exchange', where, 'the index handed in is %s and not the one returned' % txt)
            continue
        if not stored:
            res.add('resume', construct + '|exchange', where, 'the index returned is not stored in %s' % txt)
            continue
        fresh_exchange(res, d, n, e, construct + '|exchange', where)
    return n_checked


def base_name(e):
    while isinstance(e, (ast.Subscript, ast.BinOp)):
        e = e.value if isinstance(e, ast.Subscript) else e.left
    return e.id if isinstance(e, ast.Name) else ast.unparse(e)


def fresh_exchange(res, d, node, e, construct, where):
    b = e
    while isinstance(b, ast.Subscript):
        b = b.value
    fresh(res, d, node, e, b, construct, where)


def chunk_vars(loop):
    return {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}


def check_stops(prog, res, fn, defs, loop, construct):
    """R5: break/return out of the loop depends on something carried from chunk to chunk."""
    n = 0
    todo = [(s, []) for s in loop.body]
    while todo:
        s, conds = todo.pop()
        if isinstance(s, (ast.Break, ast.Return)):
            n += 1
            dep = set()
            for c in conds:
                dep |= {x.id for x in ast.walk(c) if isinstance(x, ast.Name)}
            if 'self' not in dep and not carried(defs, loop, dep, s.lineno):
                res.add('stop', '%s|%s' % (construct, type(s).__name__.lower()), '%s:%s' % (fn.module.rel, s.lineno),
                        'the chunk loop is left depending on the current chunk only; the events after it are lost')
        elif isinstance(s, ast.If):
            todo += [(x, conds + [s.test]) for x in s.body + s.orelse]
        elif isinstance(s, ast.With):
            todo += [(x, conds) for x in s.body]
        elif isinstance(s, ast.Try):
            todo += [(x, conds) for x in s.body + s.orelse + s.finalbody]
            for h in s.handlers:
                todo += [(x, conds) for x in h.body]
    return n


def carried(defs, loop, names, at, seen=None):
    """Does one of the names, as read at line `at`, depend on something kept from earlier chunks (or on the index reached)?"""
    seen = set() if seen is None else seen
    inside = set(ast.walk(loop))
    t = loop.target
    for nm in names:
        if nm in seen:
            continue
        seen.add(nm)
        if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name) and t.elts[1].id == nm:
            return True
        ds = defs.of(nm)
        inn = [d for d in ds if d.stmt in inside]
        out = [d for d in ds if d.stmt is None or d.stmt not in inside]
        before = [d for d in inn if d.stmt is not loop and d.stmt.lineno < at]
        reset = any(d.stmt is loop or (d.stmt in loop.body and d.kind not in ('aug',) and d.stmt.lineno < at and nm not in {x.id for x in ast.walk(d.value) if isinstance(x, ast.Name)}) for d in inn)
        if not reset and out and [d for d in inn if d.stmt is not loop]:
            return True
        for d in before:
            if d.value is not None and carried(defs, loop, {x.id for x in ast.walk(d.value) if isinstance(x, ast.Name)}, d.stmt.lineno, seen):
                return True
    return False


def raw_reads(prog, res, fns):
    """R4."""
    n = 0
    for fn in fns:
        if fn.name == READER:
            continue
        defs = None
        for c in walk_local(fn.node):
            lo = hi = recv = None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'read' and (c.args or c.keywords):
                a = bind_args(c, ['start', 'stop', 'step', 'field'])
                if a is None or not ({'start', 'stop'} & set(a)):
                    continue
                lo, hi, recv = a.get('start'), a.get('stop'), c.func.value
                if a.get('step') is not None:
                    res.add('raw', '%s|step' % short(fn), '%s:%s' % (fn.module.rel, c.lineno), 'reads only every n-th row')
            elif isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Slice) and isinstance(c.ctx, ast.Load):
                p = c.value
                defs = defs or Defs(fn.node)
                alts = defs.alternatives(p)
                if not alts or not all(node_expr(x) for x in alts):
                    continue
                lo, hi, recv = c.slice.lower, c.slice.upper, p
                if lo is None and hi is None:
                    continue
            else:
                continue
            n += 1
            defs = defs or Defs(fn.node)
            construct = '%s|%s' % (short(fn), ast.unparse(recv))
            where = '%s:%s' % (fn.module.rel, c.lineno)
            reader_like = any(READER == f.name for f in fn.module.functions.values()) and only_from(prog, fn, {'tools.analysis_utils.' + READER})
            if reader_like:
                continue
            if not only_from(prog, fn, set(ROWWISE) | set(LEGACY)):
                res.add('raw', construct, where, 'reads a row range that ignores event boundaries')
                continue
            tile(res, fn, defs, c, lo, hi, recv, construct, where)
    return n


def node_expr(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get_node':
        return True
    d = dotted(e) if isinstance(e, ast.Attribute) else None
    return bool(d and '.root.' in d)


def tile(res, fn, defs, c, lo, hi, recv, construct, where):
    """read(i, i + n) in range(0, rows, n), or read(edges[k], edges[k + 1]) with k counted up by one."""
    if isinstance(lo, ast.Subscript) and isinstance(hi, ast.Subscript):
        if ast.unparse(lo.value) != ast.unparse(hi.value):
            res.add('tile', construct, where, 'the row range starts in %s but ends in %s' % (ast.unparse(lo.value), ast.unparse(hi.value)))
            return
        k = ast.unparse(lo.slice)
        if ast.unparse(hi.slice) not in (k + ' + 1', '1 + ' + k):
            res.add('tile', construct, where, 'the row range does not end where the next one starts')
        e = defs.alternatives(lo.value)
        for x in e:
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and (dotted(y.func) or '').split('.')[-1] == 'linspace':
                    if not (isinstance(y.args[0], ast.Constant) and y.args[0].value == 0):
                        res.add('tile', construct, where, 'the row ranges do not start at row 0')
                    if len(y.args) > 1 and not rows_of(defs, y.args[1], recv):
                        res.add('tile', construct, where, 'the row ranges do not end at the last row of the table')
        for d in defs.of(k):
            if d.kind == 'aug' and not (isinstance(d.value, ast.Constant) and d.value.value == 1):
                res.add('tile', construct, where, 'ranges of rows are left out')
        return
    if isinstance(lo, ast.Subscript) and isinstance(hi, ast.BinOp) and any(isinstance(x, ast.Subscript) and ast.unparse(x.value) == ast.unparse(lo.value) for x in ast.walk(hi)):
        res.add('tile', construct, where, 'the row range does not end where the next one starts')
        return
    if not isinstance(lo, ast.Name):
        return
    ds = [d for d in defs.of(lo.id) if d.kind == 'iter']
    for d in ds:
        it = d.value
        while isinstance(it, ast.Call) and (dotted(it.func) or '').split('.')[-1] in ('tqdm', 'list', 'iter') and it.args:
            it = it.args[0]
        if not isinstance(it, ast.Call) or (dotted(it.func) or '').split('.')[-1] not in ('range', 'arange', 'xrange'):
            continue
        a = bind_args(it, ['start', 'stop', 'step'])
        if a is None or len(a) < 3:
            continue
        if not zero(a['start']):
            res.add('tile', construct, where, 'the row ranges start at %s and not at row 0' % ast.unparse(a['start']))
        if not rows_of(defs, a['stop'], recv, True):
            res.add('tile', construct, where, 'the row ranges end at %s, not at the end of %s' % (ast.unparse(a['stop']), ast.unparse(recv)))
        step = defs.text(a['step'])
        alts = [defs.text(x) for x in defs.alternatives(hi)] if hi is not None else []
        want = {'%s + %s' % (lo.id, step), '%s + %s' % (step, lo.id)}
        for x in alts:
            y = x
            if y.startswith('min('):
                call = ast.parse(y, mode='eval').body
                if any(ast.unparse(z) in want for z in call.args):
                    continue
            if y.replace('(', '').replace(')', '') not in {w.replace('(', '').replace(')', '') for w in want}:
                res.add('tile', construct, where, 'the row range ends at %s but the next one starts %s rows further' % (x, step))


def rows_of(defs, e, recv, any_table=False):
    """The expression is the number of rows of the table (or of a sibling, for plots with two tables of equal length)."""
    for x in defs.alternatives(e):
        t = ast.unparse(x)
        r = ast.unparse(recv)
        if t in (r + '.nrows', r + '.shape[0]', 'len(%s)' % r):
            continue
        if isinstance(x, (ast.Attribute, ast.Subscript)) and (t.endswith('.nrows') or t.endswith('.shape[0]')):
            if any_table:
                continue
        if isinstance(x, ast.BinOp) or isinstance(x, ast.Constant):
            return False
    return True


def check_smc(prog, res):
    cls = prog.cls('tools.smc.SMC')
    n = 0
    for name, m in sorted(cls.methods.items()):
        v = inlined(m, same_class(prog, cls), 2)
        calls = calls_to(prog, m, READER, v.node)
        if not calls:
            continue
        defs = Defs(v.node)
        for c in calls:
            n += 1
            where = '%s:%s' % (m.module.rel, c.lineno)
            a = bind_args(c, prog.fn('tools.analysis_utils.' + READER).params) or {}
            for k in ('start_index', 'stop_index', 'start_event_number', 'stop_event_number'):
                if k in a and not zero(a[k]):
                    res.add('smc', 'range|' + k, where, 'the parallel map reads only a part of the table (%s)' % k)
            p = defs.parent.get(c)
            name = p.targets[0].id if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name) else None
            for x in walk_local(v.node):
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'next' and x.value.args and isinstance(x.value.args[0], ast.Name) and x.value.args[0].id == name:
                    if ast.unparse(x.slice) != '0':
                        res.add('smc', 'item', where, 'hands on item %s of what the reader delivers' % ast.unparse(x.slice))
                    q = defs.parent.get(x)
                    if isinstance(q, ast.Subscript) and q.value is x:
                        res.add('smc', 'cut', where, 'hands on only a part of the chunk')
    if not n:
        res.add('smc', 'reader', cls.module.rel, 'the parallel map does not read its table through the event-aligned reader')
    return n


def check_combine(prog, res):
    fn = prog.fn('tools.data_selection.combine_files')
    v = inlined(fn, same_module(fn), 2)
    defs = Defs(v.node)
    n = 0
    where = '%s:%s' % (fn.module.rel, fn.node.lineno)
    adds = [x for x in walk_local(v.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and ast.unparse(x.target.slice) == "'event_number'"]
    for x in adds:
        n += 1
        if not isinstance(x.op, ast.Add):
            res.add('combine', 'sign', '%s:%s' % (fn.module.rel, x.lineno), 'event numbers are not shifted upwards')
        name = x.value.id if isinstance(x.value, ast.Name) else None
        if name is None:
            continue
        terms = [d for d in defs.of(name) if d.kind in ('aug', 'expr')]
        good = False
        for d in terms:
            e = d.value
            for y in defs.alternatives(e):
                if isinstance(y, ast.BinOp) and isinstance(y.op, ast.Add):
                    side = y.right if isinstance(y.left, ast.Constant) or not isinstance(y.right, ast.Constant) else y.left
                    const = y.right if side is y.left else y.left
                    if isinstance(const, ast.Constant) and isinstance(const.value, int) and const.value >= 1 and carried_last(defs, side):
                        good = True
        if not good:
            res.add('combine', 'offset', '%s:%s' % (fn.module.rel, x.lineno), 'the shift is not the last event number written plus one, so events of different files get the same number')
        # the last event number is taken after the shift
    order = []
    for x in walk_local(v.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.value, (ast.Subscript,)) and "'event_number'" in ast.unparse(x.value):
            i = edge(defs, x.value)
            if i is not None:
                order.append(x)
                if i[1:] != ('last', 0):
                    res.add('combine', 'last', '%s:%s' % (fn.module.rel, x.lineno), 'the number kept for the next file is not the last event number written')
    for x in order:
        for y in adds:
            if y.lineno > x.lineno:
                res.add('combine', 'order', '%s:%s' % (fn.module.rel, x.lineno), 'the last event number is taken before the shift is applied')
    if not adds or not order:
        raise AnalysisError('combine_files: shift of the event numbers not found')
    return n


def carried_last(defs, e):
    base = e
    while isinstance(base, ast.Subscript):
        base = base.value
    if not isinstance(base, ast.Name):
        return False
    return any(d.value is not None and 'event_number' in ast.unparse(d.value) for d in defs.of(base.id + '[]') + defs.of(base.id))


def run(prog, res, tier):
    res.rule('R1 reader', 'the event-aligned reader delivers whole events, continues where it ended and reaches the end, for every relation of chunk size, table end and event range')
    res.rule('R2 resume/fresh', 'a resumed reader call gets the index it delivered before; the index is set up again for each new table')
    res.rule('R3 range/tail', 'event ranges are first to last event (+1) of the same chunk; ranges tiling the event axis are open at the end')
    res.rule('R4 raw/tile', 'row ranges are read only in row-wise functions and tile the table')
    res.rule('R5 stop', 'a chunk loop ends early only depending on accumulated state')
    res.rule('R6 smc, R7 combine', 'the parallel map reads event-aligned chunks; combined files get disjoint event numbers')
    res.assumptions += ['event numbers of a table are sorted', 'an event fits into a chunk (otherwise the reader raises)']
    rd = prog.fn('tools.analysis_utils.' + READER)
    reports, n, seen = reader.analyse(prog, rd)
    for msg, (kind, node, w) in sorted(reports.items()):
        res.add('reader', msg, '%s:%s' % (rd.module.rel, getattr(node, 'lineno', rd.node.lineno)), '%s [e.g. %s]' % (msg, w.get('kind')))
    res.cover('reader_worlds', n)
    res.cover('reader_data_iterations', seen['data'])
    allf = [f for f in prog.fns.values() if '.examples' not in f.qual and '.tests' not in f.qual and not f.module.name.endswith('test_tools')]
    n_calls = n_resume = n_range = n_loops = n_stops = 0
    for fn in allf:
        calls = calls_to(prog, fn, READER)
        if not calls or fn is rd:
            continue
        defs = Defs(fn.node)
        for i, c in enumerate(calls):
            a = bind_args(c, rd.params)
            if a is None:
                continue
            n_calls += 1
            node_txt = ast.unparse(a['table']) if 'table' in a else '?'
            construct = '%s|%s' % (short(fn), node_txt)
            where = '%s:%s' % (fn.module.rel, c.lineno)
            loop = loops_of(defs, c)
            if 'stop_index' in a and not zero(a['stop_index']) and not rows_of(defs, a['stop_index'], a.get('table', c)):
                res.add('range', construct + '|stop_index', where, 'the table is read only up to row %s' % ast.unparse(a['stop_index']))
            if 'first_event_aligned' in a and not (isinstance(a['first_event_aligned'], ast.Constant) and a['first_event_aligned'].value):
                res.add('range', construct + '|aligned', where, 'the first event after the start index is skipped')
            if short(fn) not in LEGACY:
                if 'start_index' in a:
                    n_resume += 1
                    e = a['start_index']
                    check_resume(prog, res, fn, defs, c, loop, e, construct, calls)
                    if isinstance(e, ast.Name) and e.id in defs.params:
                        check_exchange(prog, res, fn, defs, e.id, construct)
                if 'start_event_number' in a or 'stop_event_number' in a:
                    n_range += 1
                    check_range(prog, res, fn, defs, c, a, construct)
            if loop is not None:
                n_loops += 1
                n_stops += check_stops(prog, res, fn, defs, loop, construct)
    res.cover('reader_calls', n_calls)
    res.cover('resumed_calls', n_resume)
    res.cover('range_calls', n_range)
    res.cover('chunk_loops', n_loops)
    res.cover('early_exits', n_stops)
    res.cover('raw_reads', raw_reads(prog, res, allf))
    res.cover('smc_readers', check_smc(prog, res))
    res.cover('combine_shifts', check_combine(prog, res))
