"""Sources of results that differ between two runs: random draws, arrival order, clock and identity, hash order, state kept in the process, memory that was never written."""
import ast

from .alias import Aliases
from .calls import callee, handed
from .defs import Defs
from .loader import dotted, walk_local, pos

# ---------------------------------------------------------------- names

NP_SETUP = {'seed', 'set_state', 'get_state'}
NP_MAKE = {'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64', 'PCG64DXSM', 'BitGenerator'}
PY_DRAW = set('random randint randrange choice choices shuffle sample uniform gauss normalvariate expovariate betavariate triangular lognormvariate vonmisesvariate '
              'gammavariate paretovariate weibullvariate getrandbits randbytes'.split())
EXT_DRAW = {'scipy.optimize.differential_evolution', 'scipy.optimize.dual_annealing', 'scipy.optimize.basinhopping', 'scipy.cluster.vq.kmeans', 'scipy.cluster.vq.kmeans2'}
CLOCK = {'time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter', 'time.perf_counter_ns', 'time.process_time', 'time.asctime', 'time.ctime', 'time.localtime', 'time.gmtime', 'time.strftime',
         'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'os.getpid', 'os.getppid', 'os.urandom', 'uuid.uuid1', 'uuid.uuid4', 'secrets.token_hex',
         'secrets.token_bytes', 'secrets.randbelow', 'threading.get_ident', 'threading.current_thread', 'multiprocessing.current_process', 'socket.gethostname', 'platform.node', 'os.getlogin', 'getpass.getuser',
         'tempfile.mktemp', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'os.times', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime', 'os.stat'}
CLOCK_WITH_ARG = {'time.asctime', 'time.ctime', 'time.localtime', 'time.gmtime', 'time.strftime'}
BUILTIN_ID = {'id', 'hash'}
LISTING = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob'}
TALK = {'logging.info', 'logging.debug', 'logging.warning', 'logging.error', 'logging.critical', 'logging.exception', 'logging.log', 'print', 'warnings.warn', 'tqdm.write'}


def ext(prog, fn, f):
    """Absolute dotted name of a function outside the package (None for names of the package and of the function)."""
    d = dotted(f)
    if d is None:
        return None
    head = d.split('.')[0]
    g = fn
    while g is not None:
        if head in getattr(g, 'local_imports', {}):
            return '.'.join([g.local_imports[head]] + d.split('.')[1:])
        g = g.parent
    r = prog.resolve_in_module(fn.module, d)
    if r is not None:
        return r[1] if r[0] == 'ext' else None
    if head in fn.all_params or head in fn.module.global_names:
        return None
    return d if '.' not in d else None


def jitted(fn):
    return any(d and d.split('.')[-1] in ('njit', 'jit', 'vectorize', 'guvectorize', 'cfunc') for d in fn.decorators)


# ---------------------------------------------------------------- random draws

class Draws(object):
    """Forward analysis of which generators are fixed; draws from others are reported with the call chain."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.found = {}      # (fn, node) -> (what, chain)
        self.sites = set()
        self.seeds = set()
        self.visited = set()
        self.methods = {}
        for c in prog.classes.values():
            for n, m in c.methods.items():
                self.methods.setdefault(n, []).append(m)

    def run(self, fn, state=frozenset(), chain=()):
        key = (fn.qual, state)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = state
        self.visited.add(fn.qual)
        w = _Draw(self, fn, chain + (fn,))
        out = w.block(fn.node.body, state) if isinstance(fn.node.body, list) else w.expr(fn.node.body, state)
        for r in w.returns:
            out = r if out is None else out & r
        out = state if out is None else out
        self.memo[key] = out
        return out


class _Draw(object):
    def __init__(self, d, fn, chain):
        self.d, self.fn, self.chain = d, fn, chain
        self.returns = []
        self.jit = any(jitted(f) for f in chain)

    def gen(self, g):
        return ('jit ' if self.jit else '') + g

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def meet(a, b):
        return b if a is None else a if b is None else a & b

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            return self.meet(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.While)):
            st = self.expr(s.iter if isinstance(s, ast.For) else s.test, st)
            one = self.block(s.body, st)
            again = self.meet(st, one)
            self.block(s.body, again)
            return self.block(s.orelse, again) if s.orelse else again
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            b = self.block(s.body, st)
            mid = self.meet(st, b)
            out = self.block(s.orelse, b) if b is not None else None
            for h in s.handlers:
                out = self.meet(out, self.block(h.body, mid))
            if s.finalbody:
                f = self.block(s.finalbody, self.meet(out, mid))
                out = f if out is None else self.block(s.finalbody, out)
            return out
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                st = self.expr(c, st)
            if isinstance(s, ast.Return):
                self.returns.append(st)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            return None
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
        return st

    def expr(self, e, st):
        if isinstance(e, ast.Lambda):
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                st = self.expr(g.iter, st)
                for i in g.ifs:
                    st = self.expr(i, st)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                st = self.expr(x, st)
            return st
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword)):
                st = self.expr(c.value if isinstance(c, ast.keyword) else c, st)
        if isinstance(e, ast.Call):
            st = self.call(e, st)
        return st

    def call(self, c, st):
        d, prog, fn = self.d, self.d.prog, self.fn
        for g, _ in handed(prog, fn, c):
            d.run(g, frozenset(), self.chain)
        name = ext(prog, fn, c.func)
        if name is not None:
            last = name.split('.')[-1]
            args = list(c.args) + [k.value for k in c.keywords]
            given = bool(args) and not all(isinstance(a, ast.Constant) and a.value is None for a in args)
            if name.startswith('numpy.random.') or name.startswith('random.') and name.count('.') == 1:
                g = self.gen('numpy' if name.startswith('numpy') else 'random')
                if last == 'seed':
                    d.seeds.add(pos(c))
                    return st | {g} if given else st - {g}
                if last in NP_SETUP or last in ('setstate', 'getstate'):
                    return st | {g} if last in ('set_state', 'setstate') else st
                if last in NP_MAKE or last in ('Random', 'SystemRandom'):
                    if not given or last == 'SystemRandom':
                        self.hit(c, 'a generator made without a seed')
                    else:
                        d.seeds.add(pos(c))
                    return st
                if g.startswith('random') and last not in PY_DRAW:
                    return st
                self.draw(c, g, name, st)
            elif last == 'rvs' or name in EXT_DRAW:
                if not any(k.arg in ('random_state', 'seed', 'rng') and not (isinstance(k.value, ast.Constant) and k.value.value is None) for k in c.keywords):
                    self.draw(c, self.gen('numpy'), name, st)
            # package functions handed over by name
        elif isinstance(c.func, ast.Attribute) and c.func.attr == 'rvs' and not any(k.arg == 'random_state' for k in c.keywords):
            self.draw(c, self.gen('numpy'), 'rvs', st)
        for g in self.targets(c.func):
            st = d.run(g, st, self.chain)
        for a in list(c.args) + [k.value for k in c.keywords]:
            if isinstance(a, (ast.Name, ast.Attribute)):
                for g in self.targets(a, strict=True):
                    d.run(g, st if not self.elsewhere(c) else frozenset(), self.chain)
        return st

    @staticmethod
    def elsewhere(c):
        f = (dotted(c.func) or '').split('.')[-1]
        return f in ('apply_async', 'apply', 'map', 'map_async', 'starmap', 'imap', 'imap_unordered', 'submit', 'Process', 'Thread', 'SMC')

    def targets(self, f, strict=False):
        g = self.fn
        while isinstance(f, ast.Name) and g is not None:
            if f.id in getattr(g, 'nested', {}):
                return [g.nested[f.id]]
            g = g.parent
        t, _ = callee(self.d.prog, self.fn, f)
        if t is not None:
            return [t]
        if not strict and isinstance(f, ast.Attribute) and f.attr in self.d.methods and ext(self.d.prog, self.fn, f) is None:
            return self.d.methods[f.attr]
        return []

    def draw(self, c, g, name, st):
        self.d.sites.add(pos(c))
        if g not in st:
            self.hit(c, '%s draws from %s' % (name, 'the generator of the compiled code' if g.startswith('jit') else 'the generator of the process'))

    def hit(self, c, what):
        self.d.sites.add(pos(c))
        self.d.found.setdefault((self.fn.qual, pos(c), ast.unparse(c)[:80]), (what, self.chain))


# ---------------------------------------------------------------- values that differ between runs

class Taint(object):
    """Follows values of a set of source calls through names, calls and attributes; reports where one becomes data."""

    def __init__(self, prog, allowed):
        self.prog = prog
        self.allowed = allowed      # names (parameters and attributes) the value may go to
        self.done = set()
        self.sources = 0
        self.found = {}
        self.ret = set()
        self.loaded = {n.attr for m in prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}

    grows = False       # what is collected in a loop gets the order of the loop

    def source(self, fn, e):
        raise NotImplementedError

    def clean(self, fn, c):
        return False

    def scan(self, fns):
        fns = list(fns)
        before = None
        while before != (len(self.done), len(self.ret)):
            before = (len(self.done), len(self.ret))
            self.sources = 0
            for fn in fns:
                self.function(fn, frozenset())

    def function(self, fn, params):
        names = set(params)
        body = list(walk_local(fn.node))
        hot = {}
        while True:
            n0 = len(names)
            hot = {}
            for n in body:
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None and self.tainted(fn, n.value, names):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(x, ast.Name):
                                names.add(x.id)
                elif isinstance(n, ast.For) and self.tainted(fn, n.iter, names):
                    loop = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                    names |= {(x, n) for x in loop}
                    for c in ast.walk(n):
                        if self.grows and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') and isinstance(c.func.value, ast.Name) and any(
                                isinstance(x, ast.Name) and x.id in loop for a in c.args for x in ast.walk(a)):
                            names.add(c.func.value.id)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None and self.tainted(fn, i.context_expr, names):
                            for x in ast.walk(i.optional_vars):
                                if isinstance(x, ast.Name):
                                    names.add(x.id)
            if len(names) == n0:
                break
        for n in body:
            if isinstance(n, (ast.Call, ast.Set, ast.SetComp, ast.Attribute, ast.BinOp)) and self.source(fn, n):
                self.sources += 1
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and self.tainted(fn, n.value, names):
                self.ret.add(fn.qual)
                if fn.is_public() and fn.cls is None and self.step(fn):
                    self.report(fn, n, 'returned by the step')
            if isinstance(n, (ast.Assign, ast.AugAssign)) and self.tainted(fn, n.value, names):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Subscript):
                            k = x.slice
                            if not (isinstance(k, ast.Constant) and k.value in self.allowed):
                                self.report(fn, n, 'stored in %s' % ast.unparse(x)[:60])
                        elif isinstance(x, ast.Attribute) and x.attr not in self.allowed and (x.attr in self.loaded or any(isinstance(y, ast.Attribute) and y.attr in ('attrs', '_v_attrs') for y in ast.walk(x.value))):
                            self.report(fn, n, 'stored in %s' % ast.unparse(x)[:60])
            if isinstance(n, ast.Call):
                self.into(fn, n, names)

    def step(self, fn):
        return False

    def into(self, fn, c, names):
        hot = [(None, a) for a in c.args if self.tainted(fn, a, names)] + [(k.arg, k.value) for k in c.keywords if self.tainted(fn, k.value, names)]
        if not hot or self.source(fn, c) or self.clean(fn, c):
            return
        d = dotted(c.func) or ''
        e = ext(self.prog, fn, c.func)
        if d in TALK or e in TALK or (c.func.attr if isinstance(c.func, ast.Attribute) else d.split('.')[-1]) in ('info', 'debug', 'warning', 'error', 'exception', 'sleep', 'set_description', 'set_postfix', 'wait', 'format', 'join', 'isinstance', 'len', 'str', 'repr',
                                                         'float', 'int', 'round', 'tuple', 'list', 'dict', 'zip', 'enumerate', 'iter', 'reversed', 'map', 'filter', 'set', 'frozenset'):
            return
        if d.endswith('Error') or d.endswith('Exception') or d.endswith('Warning'):
            return
        g, skip = callee(self.prog, fn, c.func)
        if g is None:
            h = fn
            while isinstance(c.func, ast.Name) and h is not None and g is None:
                g = getattr(h, 'nested', {}).get(c.func.id)
                h = h.parent
            skip = 0
        if g is not None:
            ps = g.params[skip:]
            new = set()
            for k, (name, a) in enumerate(hot):
                if name is None:
                    i = c.args.index(a)
                    name = ps[i] if i < len(ps) else None
                if name is not None and name not in self.allowed:
                    new.add(name)
            if new:
                key = (g.qual, frozenset(new))
                if key not in self.done:
                    self.done.add(key)
                    self.function(g, frozenset(new))
            return
        hot = [(n, a) for n, a in hot if n not in self.allowed]
        if hot and not isinstance(c.func, ast.Name):
            if isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend', 'add', 'insert', 'update') and isinstance(c.func.value, ast.Name) and c.func.value.id in names:
                return
            self.report(fn, c, 'handed to %s' % ast.unparse(c.func)[:60])

    def tainted(self, fn, e, names):
        if isinstance(e, ast.Name):
            if e.id in names:
                return True
            p = getattr(e, '_parent', None)
            while p is not None and not isinstance(p, ast.FunctionDef):
                if (e.id, p) in names:
                    return True
                p = getattr(p, '_parent', None)
            return False
        if isinstance(e, (ast.Constant, ast.Lambda)):
            return False
        if self.source(fn, e):
            return True
        if isinstance(e, ast.Compare):
            return False
        if isinstance(e, ast.Call):
            if self.clean(fn, e):
                return False
            g, _ = callee(self.prog, fn, e.func)
            if g is not None:
                return g.qual in self.ret
            return any(self.tainted(fn, a, names) for a in e.args) or any(self.tainted(fn, k.value, names) for k in e.keywords) or isinstance(e.func, ast.Attribute) and self.tainted(fn, e.func.value, names)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if any(self.tainted(fn, g.iter, names) for g in e.generators):
                return self.ordered(e)
            return any(self.tainted(fn, x, names) for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]))
        return any(self.tainted(fn, c, names) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr))

    def ordered(self, e):
        return True

    def report(self, fn, n, what):
        self.found.setdefault((fn.qual, what), n)


class Clock(Taint):
    def source(self, fn, e):
        if not isinstance(e, ast.Call):
            return False
        if isinstance(e.func, ast.Name) and e.func.id in BUILTIN_ID and e.func.id not in fn.module.global_names:
            return True
        n = ext(self.prog, fn, e.func)
        return n in CLOCK and not (n in CLOCK_WITH_ARG and (e.args or e.keywords) and n != 'time.strftime') and not (n == 'time.strftime' and len(e.args) > 1)


class Order(Taint):
    """Order of a set of texts and of a directory listing."""
    grows = True

    def source(self, fn, e):
        if isinstance(e, ast.Call):
            n = ext(self.prog, fn, e.func)
            if n in LISTING or isinstance(e.func, ast.Attribute) and e.func.attr in ('iterdir', 'rglob') or isinstance(e.func, ast.Attribute) and e.func.attr == 'glob' and n is None:
                return True
        return self.textset(fn, e)

    def defs(self, fn):
        if not hasattr(fn, '_defs'):
            fn._defs = Defs(fn.node)
        return fn._defs

    def textset(self, fn, e, depth=4):
        """The expression is a set whose elements are evidently texts."""
        if isinstance(e, ast.Set):
            return any(self.text(fn, x, depth) for x in e.elts)
        if isinstance(e, ast.SetComp):
            return self.text(fn, e.elt, depth) or any(self.texts(fn, g.iter, depth) and isinstance(e.elt, ast.Name) for g in e.generators)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') and e.args:
            return self.texts(fn, e.args[0], depth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.textset(fn, e.left, depth) or self.textset(fn, e.right, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return self.textset(fn, e.func.value, depth)
        return False

    def text(self, fn, e, depth):
        return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str) or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) \
            or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' or isinstance(e, ast.Attribute) and e.attr in ('name', '__name__', '_v_name', '_v_pathname')

    def texts(self, fn, e, depth):
        """The expression is a sequence whose elements are evidently texts."""
        if isinstance(e, (ast.List, ast.Tuple)):
            return bool(e.elts) and any(self.text(fn, x, depth) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.text(fn, e.elt, depth) or isinstance(e.elt, ast.Name) and any(self.texts(fn, g.iter, depth) and isinstance(g.target, ast.Name) and g.target.id == e.elt.id for g in e.generators)
        if isinstance(e, ast.Attribute):
            return e.attr in ('names', 'colnames', 'dut_attributes', 'telescope_attributes', 'fields', '_v_children', 'coldescrs')
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return e.func.attr in ('split', 'splitlines', 'listdir') or e.func.attr == 'keys' and self.texts(fn, e.func.value, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'set') and e.args:
            return self.texts(fn, e.args[0], depth)
        if isinstance(e, ast.Name) and depth > 0:
            ds = self.defs(fn).of(e.id)
            return any(d.kind == 'expr' and self.texts(fn, d.value, depth - 1) for d in ds) or any(d.kind == 'param' for d in ds) and e.id.endswith(('_files', '_names'))
        return False

    def clean(self, fn, c):
        f = dotted(c.func) or ''
        return f.split('.')[-1] in ('sorted', 'len', 'sum', 'any', 'all', 'min', 'max', 'unique', 'isinstance', 'issubset', 'issuperset', 'isdisjoint', 'set', 'frozenset', 'sort') and not self.textset(fn, c) \
            or f.split('.')[-1] in ('sorted', 'len', 'any', 'all', 'min', 'max')

    def ordered(self, e):
        return not isinstance(e, (ast.SetComp, ast.DictComp))

    def tainted(self, fn, e, names):
        # a set itself is only as bad as what is made of it: set operations and membership do not show the order
        if isinstance(e, ast.DictComp):
            return False
        if isinstance(e, ast.Subscript):
            return self.tainted(fn, e.value, names)
        return Taint.tainted(self, fn, e, names)


# ---------------------------------------------------------------- memory that was never written

EMPTY = {'numpy.empty', 'numpy.empty_like', 'numpy.ndarray'}


class Filled(object):
    def __init__(self, prog):
        self.prog = prog
        self.al = Aliases(prog)
        self.sites = 0
        self.found = []

    def changes(self, g, call, a, skip):
        """The function changes the argument in place."""
        ps = g.params[skip:]
        names = [ps[i] for i, x in enumerate(call.args) if x is a and i < len(ps)] + [k.arg for k in call.keywords if k.value is a]
        return not names or any(p in names for p, _ in self.al.of(g).changes)

    def is_empty(self, fn, e):
        if not isinstance(e, ast.Call) or ext(self.prog, fn, e.func) not in EMPTY:
            return False
        a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == 'shape'), None)
        dims = a.elts if isinstance(a, (ast.Tuple, ast.List)) else [a]
        return not any(isinstance(x, ast.Constant) and x.value == 0 for x in dims)

    def function(self, fn):
        defs = Defs(fn.node)
        body = list(walk_local(fn.node))
        arrays = {}
        for n in body:
            if isinstance(n, ast.Assign) and self.is_empty(fn, n.value):
                for t in n.targets:
                    arrays.setdefault(ast.unparse(t), []).append(n)
                    self.sites += 1
            elif isinstance(n, ast.Call) and self.is_empty(fn, n):
                p = defs.parent.get(n)
                if not isinstance(p, ast.Assign):
                    self.sites += 1
                    if isinstance(p, ast.keyword):
                        p = defs.parent.get(p)
                    if isinstance(p, ast.Call) and n is not p.func and not self.fills(fn, p, n):
                        self.found.append((fn, n, 'given on', 'memory of %s is given on without being written' % ast.unparse(n)[:60]))
        for name, alloc in arrays.items():
            self.array(fn, defs, body, name, alloc)

    def fills(self, fn, call, a):
        """The call may write the array given to it."""
        g, skip = callee(self.prog, fn, call.func)
        name = ext(self.prog, fn, call.func)
        return g is not None and self.changes(g, call, a, skip) or self.compiled(fn, call.func) or any(k.arg == 'out' and k.value is a for k in call.keywords) \
            or name is not None and not name.startswith('numpy.') or (dotted(call.func) or '').split('.')[-1] in ('copyto', 'place', 'put', 'nditer')

    def array(self, fn, defs, body, name, alloc):
        first = min(a.lineno for a in alloc)
        writes, augs, passed, reads = [], [], False, []
        for n in body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Subscript) and self.base(x) == name:
                            writes.append((x, n))
            elif isinstance(n, ast.AugAssign):
                if ast.unparse(n.target) == name or isinstance(n.target, ast.Subscript) and self.base(n.target) == name:
                    augs.append(n)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == name and n.func.attr in ('fill', 'put', 'itemset'):
                    writes.append((None, n))
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if ast.unparse(a) == name or isinstance(a, ast.Subscript) and self.base(a) == name:
                        if self.fills(fn, n, a):
                            passed = True
        full = [(x, n) for x, n in writes if x is None or not self.mask(defs, body, x)]
        if augs and not passed:
            for a in augs:
                if not any(n.lineno < a.lineno for x, n in full):
                    self.found.append((fn, a, '%s: %s' % (name, ast.unparse(a)[:60]), '%s adds to memory of %s that was never written' % (ast.unparse(a)[:60], name)))
                    return
        if not writes and not augs and not passed:
            if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) for n in body):
                self.found.append((fn, alloc[0], '%s: never written' % name, '%s is used but never written' % name))
            return
        if passed and not full:
            return
        if len(writes) == 1 and not augs and not passed and writes[0][0] is not None and self.partial(writes[0][0]):
            self.found.append((fn, writes[0][1], '%s: part' % name, 'only a part of %s is written (%s), the rest is memory that was never written' % (name, ast.unparse(writes[0][0])[:60])))
            return
        # columns that are written only where a mask holds
        groups = {}
        for x, n in writes:
            if x is not None:
                groups.setdefault(self.key(x), []).append((x, n))
        for key, ws in sorted(groups.items(), key=lambda kv: kv[0]):
            masks = [(self.mask(defs, body, x), n) for x, n in ws]
            total = [n for m, n in masks if not m]
            part = [(m, n) for m, n in masks if m]
            for m, n in part:
                if any(self.together(defs, n, o) for o in total) or any(self.together(defs, n, o) and self.complement(m, k) for k, o in part):
                    continue
                if key != '' and any(self.key(x) == '' and self.together(defs, n, o) for x, o in full):
                    continue
                self.found.append((fn, n, '%s%s[%s]' % (name, key, m), '%s%s is written only where %s holds, the rest is memory that was never written' % (name, key, m)))
                break

    def compiled(self, fn, f):
        d = dotted(f)
        r = self.prog.resolve_in_module(fn.module, d) if d else None
        return r is not None and r[0] == 'missing'

    @staticmethod
    def partial(x):
        for p in Filled.parts(x):
            for q in (p.elts if isinstance(p, ast.Tuple) else [p]):
                if isinstance(q, ast.Slice) and any(b is not None and not (isinstance(b, ast.Constant) and b.value in (0, None)) for b in (q.lower, q.upper)):
                    return True
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'tuple' and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'slice' for y in ast.walk(q)):
                    return True
        return False

    @staticmethod
    def base(x):
        while isinstance(x, ast.Subscript):
            if isinstance(x.value, ast.Subscript):
                x = x.value
                continue
            return ast.unparse(x.value)
        return None

    @staticmethod
    def parts(x):
        out = []
        while isinstance(x, ast.Subscript):
            out.insert(0, x.slice)
            x = x.value
        return out

    def istext(self, s):
        return isinstance(s, ast.JoinedStr) or isinstance(s, ast.Constant) and isinstance(s.value, str) or isinstance(s, ast.BinOp) and isinstance(s.op, ast.Mod) and isinstance(s.left, ast.Constant) and isinstance(s.left.value, str) \
            or isinstance(s, ast.BinOp) and isinstance(s.op, ast.Add) and (self.istext(s.left) or self.istext(s.right)) or isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'format'

    def key(self, x):
        ps = self.parts(x)
        return ''.join('[%s]' % ast.unparse(p) for p in ps if self.istext(p))

    def mask(self, defs, body, x):
        """Text of the selection the write is restricted to, None if it may be the whole."""
        for p in self.parts(x):
            for q in (p.elts if isinstance(p, ast.Tuple) else [p]):
                if isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Invert) or isinstance(q, ast.Compare):
                    return ast.unparse(q)
                if isinstance(q, ast.Name):
                    ds = defs.of(q.id)
                    if any(d.kind == 'expr' and self.boolean(d.value) for d in ds) or any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert) and isinstance(n.operand, ast.Name) and n.operand.id == q.id for n in body):
                        return q.id
        return None

    def boolean(self, e):
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return self.boolean(e.left) or self.boolean(e.right)
        return isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('isnan', 'isfinite', 'isinf', 'logical_and', 'logical_or', 'logical_not', 'isin', 'in1d')

    @staticmethod
    def complement(a, b):
        strip = lambda s: s.replace('(', '').replace(')', '').replace(' ', '')
        a, b = strip(a), strip(b)
        return a == '~' + b or b == '~' + a

    @staticmethod
    def together(defs, a, b):
        """b runs whenever a runs (it is not under a condition that a is not under)."""
        def path(n):
            out = []
            p = defs.parent.get(n)
            c = n
            while p is not None and p is not defs.node:
                if isinstance(p, ast.If):
                    out.append((id(p), c in p.body))
                elif isinstance(p, ast.ExceptHandler):
                    out.append((id(p), True))
                c, p = p, defs.parent.get(p)
            return set(out)
        return path(b) <= path(a)
