"""C01: running a step again on the same input gives the same output.

Entered from every step, every function it reaches is analysed (repeat.py).
R1 seed - every random draw a step reaches, also in a worker or in compiled code, follows a seeding of the same generator with a value on every path from the entry of the step; the simulation seeds its generator when it is constructed
R2 order - results of workers are collected in the order they were asked for: no unordered map, no completion callbacks, no polling loop over the results, first in first out between threads
R3 clock - no value of the clock, the process, the host or an object identity becomes data of a step; the date written by save_arguments is the one exception
R4 listing - the order of a set of texts or of a directory listing does not reach data
R5 state - no function changes a module variable, a class variable or a mutable default value
R6 memory - no uninitialised array is read before all of it is written
R7 fresh - an output is created or removed before it is appended to, and no intermediate file left by an earlier run is used
"""
import ast
import re

from ..alias import Aliases, MUTATORS
from ..calls import callee
from ..defs import Defs
from ..loader import dotted, walk_local, pos, pipeline_fns, PKG
from ..paths import results, steps_of, short
from ..repeat import Draws, Clock, Order, Filled, ext

ID = 'C01'
TECHNIQUE = ('interprocedural must-be-seeded analysis of every random draw; taint analysis from clock, identity, hash order and directory order to data; '
             'escape analysis of module state; definite-assignment analysis of uninitialised arrays; order of file openings from the abstract interpretation of file names')
MINIMUM = {'steps': 20, 'draws': 3, 'functions': 60, 'empty_arrays': 4, 'openings': 20, 'asynchronous': 3}
LEVEL_NOTE = ('static analysis of every function a step reaches in the package; random draws, clocks and uninitialised memory inside third-party libraries and in the compiled '
              'extension are not followed; the number of worker processes is taken to be the same')
SKIP = {'tools.test_tools'}
# data a step may depend on besides its arguments, with the reason
KEEPS = {'dut_alignment.align': 'an existing output configuration is kept for the DUTs that are not aligned (documented)',
         'dut_alignment.align_kalman': 'an existing output configuration is kept for the DUTs that are not aligned (documented)'}
ASYNC = {'apply_async', 'map_async', 'starmap_async', 'imap', 'map', 'starmap', 'submit'}


def run(prog, res, tier):
    for l in __doc__.splitlines():
        m = re.match(r'R\d (\w+) - (.*)', l)
        if m:
            res.rule(m.group(1), m.group(2))
    fns = [f for q, f in sorted(prog.fns.items()) if not any(short(q).startswith(s) for s in SKIP)]
    steps = {f.qual: f for f in steps_of(prog)}
    for f in pipeline_fns(prog):
        if f.is_public() and any(re.search(r'_files?$|^input_|telescope_configuration', p) for p in f.all_params):
            steps[f.qual] = f
    seed(prog, res, steps)
    order(prog, res, fns)
    clock(prog, res, fns, steps)
    state(prog, res, fns)
    memory(prog, res, fns)
    fresh(prog, res)
    res.cover('steps', len(steps))
    res.cover('functions', len(fns))


def seed(prog, res, steps):
    d = Draws(prog)
    for q, f in sorted(steps.items()):
        d.run(f)
    for c in prog.classes.values():
        if c.module.name.endswith('simulate_data') and '__init__' in c.methods:
            st = d.run(c.methods['__init__'])
            for n, m in sorted(c.methods.items()):
                if not n.startswith('_'):
                    d.run(m, st)
    for (q, where, text), (what, chain) in sorted(d.found.items()):
        res.add('seed', '%s: %s' % (short(q), text), where, '%s without a fixed seed: %s%s' % (what, text, '' if len(chain) < 2 else ' (reached through %s)' % ' -> '.join(f.name for f in chain)))
    res.cover('draws', len(d.sites))
    res.cover('seedings', len(d.seeds))
    res.cover('functions_reached', len(d.visited))


def order(prog, res, fns):
    n_async = 0
    for fn in fns:
        me = short(fn.qual)
        for n in walk_local(fn.node):
            if isinstance(n, ast.Call):
                d = dotted(n.func) or (n.func.attr if isinstance(n.func, ast.Attribute) else '')
                last = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else '')
                if isinstance(n.func, ast.Attribute) and last in ASYNC or last in ('Thread', 'SMC'):
                    n_async += 1
                if last in ('imap_unordered', 'as_completed'):
                    res.add('order', '%s: %s' % (me, last), pos(n), '%s takes results in the order they are completed (%s)' % (fn.name, last))
                if last in ('apply_async', 'map_async', 'starmap_async') and any(k.arg == 'callback' for k in n.keywords):
                    res.add('order', '%s: callback' % me, pos(n), '%s collects results in a callback, in the order they are completed' % fn.name)
                if last == 'add_done_callback':
                    res.add('order', '%s: callback' % me, pos(n), '%s collects results in a callback, in the order they are completed' % fn.name)
                if last in ('LifoQueue', 'PriorityQueue') and (ext(prog, fn, n.func) or '').startswith(('queue.', 'multiprocessing.')):
                    res.add('order', '%s: %s' % (me, last), pos(n), '%s hands results over in another order than they were asked for (%s)' % (fn.name, last))
        # a loop over results that takes the ones that are ready
        for n in walk_local(fn.node):
            if isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp)):
                targets = {x.id for g in ([n] if isinstance(n, ast.For) else n.generators) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'ready' and isinstance(c.func.value, ast.Name) and c.func.value.id in targets:
                        res.add('order', '%s: ready' % me, pos(c), '%s takes the results that are ready, in the order they are completed' % fn.name)
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == 'key' and isinstance(k.value, ast.Lambda) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'ready' for c in ast.walk(k.value)):
                        res.add('order', '%s: ready' % me, pos(n), '%s sorts the results by whether they are ready' % fn.name)
    # queues between threads
    queues = 0
    for c in prog.classes.values():
        ms = list(c.methods.values())
        if not any(isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'Thread' for m in ms for n in ast.walk(m.node)):
            continue
        attrs = {}
        for m in ms:
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] in ('deque', 'list') or isinstance(n, ast.Assign) and isinstance(n.value, ast.List) and not n.value.elts:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            attrs[t.attr] = {}
        for m in ms:
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == 'self' and n.func.value.attr in attrs:
                    op = n.func.attr
                    if op == 'pop':
                        op = 'popleft' if n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == 0 else 'pop'
                    if op == 'insert':
                        op = 'appendleft' if n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == 0 else 'insert'
                    attrs[n.func.value.attr].setdefault(op, []).append((m, n))
        for a, ops in sorted(attrs.items()):
            put = {o for o in ops if o in ('append', 'appendleft')}
            take = {o for o in ops if o in ('pop', 'popleft')}
            if put and take:
                queues += 1
                if {'append': 'popleft', 'appendleft': 'pop'}.get(next(iter(put))) != next(iter(take)) or len(put) > 1 or len(take) > 1:
                    m, n = ops[sorted(take)[0]][0]
                    res.add('order', '%s.%s' % (short(c.qual), a), pos(n), 'the queue %s between the threads of %s is not first in, first out (%s and %s)' % (a, c.name, ', '.join(sorted(put)), ', '.join(sorted(take))))
    res.cover('asynchronous', n_async)
    res.cover('queues', queues)


def clock(prog, res, fns, steps):
    c = Clock(prog, {'date_created', 'timeout'})
    c.step = lambda fn: fn.qual in steps
    c.scan([f for f in fns])
    for (q, what), n in sorted(c.found.items()):
        res.add('clock', '%s: %s' % (short(q), what), pos(n), 'a value of the clock, the process or an object identity is %s in %s' % (what, short(q)))
    res.cover('clock_sources', c.sources)
    o = Order(prog, set())
    o.step = lambda fn: fn.qual in steps
    o.scan([f for f in fns if not f.module.name.endswith('simulate_data')])
    for (q, what), n in sorted(o.found.items()):
        res.add('listing', '%s: %s' % (short(q), what), pos(n), 'a value in the order of a set of texts or of a directory listing is %s in %s' % (what, short(q)))
    res.cover('unordered_sources', o.sources)


def mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in (
        'list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque', 'Counter', 'zeros', 'ones', 'array', 'full', 'empty', 'arange', 'count', 'cycle', 'iter', 'RandomState', 'default_rng', 'zeros_like')


def state(prog, res, fns):
    al = Aliases(prog)
    watched = set()
    for fn in fns:
        me = short(fn.qual)
        mod = fn.module
        shared = {g for g, e in mod.globals.items() if mutable(e)}
        imported = {}
        for name, target in mod.imports.items():
            r = prog.resolve(target)
            if r[0] == 'global' and mutable(r[1][0].globals.get(r[1][1])):
                imported[name] = '%s.%s' % (short(r[1][0].name), r[1][1])
        watched |= {mod.name + '.' + g for g in shared} | set(imported.values())
        local, f = set(), fn
        while f is not None:
            ds = Defs(f.node)
            declared = {x for n in walk_local(f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            local |= {k for k in ds.table if not k.endswith('[]') and '.' not in k and '[' not in k and k not in declared}
            f = f.parent
        names = {n: n for n in shared if n not in local}
        names.update({n: t for n, t in imported.items() if n not in local})
        ds = Defs(fn.node)
        for n in walk_local(fn.node):
            if isinstance(n, ast.Global):
                for x in n.names:
                    if any(isinstance(m, ast.Name) and m.id == x and isinstance(m.ctx, (ast.Store, ast.Del)) for m in walk_local(fn.node)):
                        res.add('state', '%s: global %s' % (me, x), pos(n), '%s assigns the module variable %s: the next call starts from another state' % (fn.name, x))
        for k, v in ds.table.items():       # names that may be the shared object
            for d in v:
                if d.kind == 'expr' and not k.endswith('[]'):
                    for a in ([d.value.body, d.value.orelse] if isinstance(d.value, ast.IfExp) else d.value.values if isinstance(d.value, ast.BoolOp) else [d.value]):
                        if isinstance(a, ast.Name) and a.id in names and a.id not in local:
                            names.setdefault(k, names[a.id])
        classes = {c.name: c for c in prog.classes.values() if prog.resolve_in_module(mod, c.name) == ('cls', c)}
        watch_cls = {}
        if fn.cls is not None:
            for c in prog.mro(fn.cls):
                for a, e in c.attrs.items():
                    if mutable(e) and not any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr == a and isinstance(t.ctx, ast.Store) for m in c.methods.values() for t in ast.walk(m.node)):
                        watch_cls['self.' + a] = c.name + '.' + a
                        watch_cls['cls.' + a] = c.name + '.' + a
        for cn, c in classes.items():
            for a in c.attrs:
                watch_cls[cn + '.' + a] = cn + '.' + a
        watched |= set(watch_cls.values())

        def subject(e):
            t = e
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                d = dotted(t)
                if d in watch_cls:
                    return watch_cls[d]
                t = t.value
            if isinstance(t, ast.Name) and t.id in names:
                return names[t.id]
            return None

        def flag(n, s):
            res.add('state', '%s: %s' % (me, s), pos(n), '%s changes %s, which every call shares: the next call starts from another state' % (fn.name, s))
        for n in walk_local(fn.node):
            for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript):
                        s = subject(x.value)
                        if s:
                            flag(n, s)
                    elif isinstance(x, ast.Attribute):
                        d = dotted(x)
                        if d in watch_cls and not d.startswith('self.'):
                            flag(n, watch_cls[d])
                        elif subject(x.value):
                            flag(n, subject(x.value))
                        elif isinstance(x.value, ast.Name) and x.value.id not in local and x.value.id not in mod.imports and (x.value.id in mod.functions or x.value.id in classes):
                            flag(n, '%s.%s' % (x.value.id, x.attr))
                    elif isinstance(x, ast.Name) and isinstance(n, ast.AugAssign) and x.id in names:
                        flag(n, names[x.id])
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not (isinstance(n.func.value, ast.Name) and n.func.value.id in mod.imports and n.func.value.id not in names):
                    s = subject(n.func.value)
                    if s:
                        flag(n, s)
                if isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and subject(n.args[0]):
                    flag(n, subject(n.args[0]))
                g, skip = callee(prog, fn, n.func)
                if g is not None and not getattr(g, 'is_property', False):
                    ps = g.params[skip:]
                    for p, a in [(ps[i], a) for i, a in enumerate(n.args) if i < len(ps)] + [(k.arg, k.value) for k in n.keywords if k.arg]:
                        s = subject(a)
                        if s and any(q == p for q, _ in al.of(g).changes):
                            flag(n, s)
        if any(d and d.split('.')[-1] in ('lru_cache', 'cache', 'cached_property', 'memoize') for d in fn.decorators):
            watched.add(fn.qual)
            reads = [n for n in walk_local(fn.node) if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('open_file', 'open', 'Telescope', 'load_configuration', 'load', 'safe_load', 'open_configuration', 'isfile', 'exists')]
            if reads:
                res.add('state', '%s: cache' % me, pos(fn.node), '%s keeps what it read from a file for later calls, the file may have changed (%s)' % (fn.name, ast.unparse(reads[0])[:60]))
        for p, d in fn.defaults.items():
            if mutable(d):
                watched.add(fn.qual + ':' + p)
                if any(q == p for q, _ in al.of(fn).changes):
                    res.add('state', '%s: default of %s' % (me, p), pos(fn.node), '%s changes the default value of its argument %s, which all calls share' % (fn.name, p))
    res.cover('shared_objects', len(watched))


def memory(prog, res, fns):
    f = Filled(prog)
    for fn in fns:
        f.function(fn)
    for fn, n, construct, msg in f.found:
        res.add('memory', '%s: %s' % (short(fn.qual), construct), pos(n), 'in %s, %s' % (fn.name, msg))
    res.cover('empty_arrays', f.sites)


def fresh(prog, res):
    openings = set()
    for mode in ('given', 'none'):
        for q, (f, pl, val, it) in sorted(results(prog, mode).items()):
            made = set()
            for chain, g, n, what, ts, m in pl.sinks:
                key = frozenset(ts or ())
                if not key or m in ('r', 'rb', 'rt'):
                    continue
                if what == 'open':
                    openings.add((g, pos(n)))
                if what == 'remove' or what == 'open' and m is not None and m.startswith(('w', 'x')):
                    made.add(key)
                elif what == 'open' and key not in made and not any(key <= k for k in made):
                    res.add('fresh', '%s: %s' % (short(g), m), pos(n), '%s opens its output with mode %s although it was neither created nor removed before: what an earlier run left there stays' % (short(q), m))
    res.cover('openings', len(openings))
    # decisions by what an earlier run left
    for fn in pipeline_fns(prog):
        me = short(fn.qual)
        removed = []
        for n in walk_local(fn.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('remove', 'unlink') and len(n.args) == 1 and ext(prog, fn, n.func) in ('os.remove', 'os.unlink'):
                removed.append((n, ast.unparse(n.args[0])))
        for n in walk_local(fn.node):
            if not isinstance(n, ast.If):
                continue
            for neg, c in tests(n.test):
                name = (dotted(c.func) or '').split('.')[-1]
                if name not in ('isfile', 'exists', 'lexists', 'access') or ext(prog, fn, c.func) is None:
                    continue
                arg = ast.unparse(c.args[0])
                done = n.orelse if neg else n.body
                other = n.body if neg else n.orelse
                if me in KEEPS and 'configuration' in arg:
                    continue
                if not neg and all(harmless(s, arg) for s in done) and not other:
                    continue
                if any(x.lineno < n.lineno and t == arg and cleanup(fn, x) for x, t in removed):
                    continue
                res.add('fresh', '%s: %s' % (me, arg), pos(n), '%s depends on whether %s was left by an earlier run' % (fn.name, arg))


def tests(t, neg=False):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        for x in tests(t.operand, not neg):
            yield x
    elif isinstance(t, ast.BoolOp):
        for v in t.values:
            for x in tests(v, neg):
                yield x
    elif isinstance(t, ast.Call):
        yield neg, t


def harmless(s, arg):
    """Removes the file, logs or raises."""
    if isinstance(s, (ast.Raise, ast.Pass)):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        d = dotted(s.value.func) or ''
        return d.split('.')[0] == 'logging' or d == 'print' or d.split('.')[-1] in ('remove', 'unlink', 'rmtree') and ast.unparse(s.value.args[0]) == arg
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def cleanup(fn, call):
    """The removal is unconditional, or depends only on whether the file exists."""
    n = call
    while getattr(n, '_parent', None) is not None and n is not fn.node:
        n = n._parent
        if isinstance(n, ast.If) and not any(True for neg, c in tests(n.test) if not neg and (dotted(c.func) or '').split('.')[-1] in ('isfile', 'exists', 'lexists')):
            return False
        if isinstance(n, (ast.ExceptHandler,)):
            return False
    return True
