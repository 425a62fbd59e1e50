"""Which parameters of a function the value of an expression depends on.

Flow-sensitive: an assignment replaces what the name depended on; an assignment under a test also depends on the test; a test that only leads to an
error adds nothing.  Call results depend on all arguments.
"""
import ast
import re

from .loader import dotted

EMPTY = frozenset()
STEP = re.compile(r'telescope_configuration|_files?$|^input_')
PURE = ('np', 'numpy', 'math', 'stats', 'scipy', 'itertools', 'os', 'copy', 're')
TEXT = set('format join split strip lower upper startswith endswith get keys values items index count copy replace tolist astype'.split())
BUILTINS = set(dir(__import__('builtins'))) | {'dotted', 'tqdm', 'Iterable', 'List', 'deepcopy', 'OrderedDict', 'defaultdict'}
LOG = ('logging', 'logger', 'log', 'warnings', 'print', 'pbar', 'progress_bar')


def is_log(call):
    d = dotted(call.func) or ''
    return d.split('.')[0] in LOG or d.split('.')[-1] in ('warning', 'info', 'debug', 'write') and d.split('.')[0] in LOG


def quiet(body):
    """Statements that only report: errors, log lines."""
    return all(isinstance(s, (ast.Raise, ast.Pass)) or isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and is_log(s.value)) or
               isinstance(s, (ast.If, ast.For, ast.While)) and quiet(s.body) and quiet(s.orelse) for s in body)


class Deps(object):
    def __init__(self, fn, callee=None):
        """callee(call) -> (function of the package or None, {parameter: argument}, parameters without effect)"""
        self.fn, self.callee = fn, callee
        self.env = {p: frozenset([p]) for p in fn.all_params}
        for p in (fn.node.args.vararg, fn.node.args.kwarg):
            if p is not None:
                self.env[p.arg] = frozenset([p.arg])
        self.ctl = []
        self.at = {}       # id of an expression -> dependences
        self.effect = {}   # param -> first node where it takes effect
        self.calls = []    # (call node)
        self.dead = False
        self.testing = False
        self.tests = []    # (parameters a test is about, the test asks for the form of the value and not for its absence)
        self.lost = []     # (param, node): the value given by the caller is replaced by one that does not depend on it
        self.block(fn.node.body)

    # ------------------------------------------------------------------
    def c(self):
        out = EMPTY
        for x in self.ctl:
            out |= x
        return out

    def take(self, deps, node):
        for p in deps:
            self.effect.setdefault(p, node)

    def block(self, body):
        for s in body:
            self.stmt(s)
            if self.dead:
                return

    @staticmethod
    def merge(a, b):
        return {n: a.get(n, EMPTY) | b.get(n, EMPTY) for n in set(a) | set(b)}

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.replaced(t, v, s)
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = self.env.get(s.target.id, EMPTY) | v | self.c()
            else:
                self.bind(s.target, v, s.value)
        elif isinstance(s, ast.If):
            self.testing = quiet(s.body) and quiet(s.orelse)
            t = self.ev(s.test)
            self.testing = False
            if not (quiet(s.body) and quiet(s.orelse)) and not self.own(s):
                self.take(t, s)
            start = dict(self.env)
            self.ctl.append(t if not (quiet(s.body) and quiet(s.orelse)) else EMPTY)
            self.tests.append((t, self.form(s.test)))
            self.block(s.body)
            then, d1 = self.env, self.dead
            self.env, self.dead = start, False
            self.block(s.orelse)
            d2 = self.dead
            self.ctl.pop()
            self.tests.pop()
            if d1 and not d2:
                self.dead = False
            elif d2 and not d1:
                self.env, self.dead = then, False
            else:
                self.env = self.merge(then, self.env)
                self.dead = d1 and d2
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            t = self.ev(s.iter if not isinstance(s, ast.While) else s.test)
            if not quiet(s.body):
                self.take(t, s)
            for _ in range(3):
                start = dict(self.env)
                if not isinstance(s, ast.While):
                    self.bind_iter(s.target, s.iter)
                self.ctl.append(EMPTY if quiet(s.body) else self.ev(s.iter if not isinstance(s, ast.While) else s.test))
                self.block(s.body)
                self.ctl.pop()
                self.dead = False
                self.env = self.merge(start, self.env)
                if self.env == start:
                    break
            end = self.env
            self.block(s.orelse)
            if s.orelse and any(isinstance(x, ast.Break) for x in ast.walk(s)):
                self.env, self.dead = self.merge(end, self.env), False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                self.take(v, s)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            d = self.dead
            self.dead = False
            if not d:
                self.block(s.orelse)
                d = self.dead
                self.dead = False
            for h in s.handlers:
                end, dd = self.env, d
                self.env = self.merge(start, self.env)
                self.block(h.body)
                if self.dead:
                    self.env = end
                    self.dead = False
                else:
                    d = False
                    self.env = self.merge(end, self.env)
            self.block(s.finalbody)
            self.dead = self.dead or d
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.take(self.ev(s.value), s)
            self.take(self.c(), s)
            self.dead = True
        elif isinstance(s, ast.Raise):
            self.testing = True
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x)
            self.testing = False
            self.dead = True
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.dead = True
        elif isinstance(s, ast.Expr):
            v = self.ev(s.value)
            if isinstance(s.value, ast.Call) and not is_log(s.value):
                if not self.by_callee(s.value):
                    self.take(v | self.c(), s)
                self.take(self.c(), s)
                if isinstance(s.value.func, ast.Attribute):
                    self.hold(s.value.func.value, v)
            elif isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.take(v | self.c(), s)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = EMPTY
            for n in ast.walk(s):
                if isinstance(n, ast.Name):
                    v |= self.env.get(n.id, EMPTY)
            self.env[s.name] = v
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(n)

    @staticmethod
    def form(test):
        """Tests of the kind of a value (one number or a list), true for any number of different values."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test = test.operand
        return isinstance(test, ast.Call) and (dotted(test.func) or '').split('.')[-1] in ('isinstance', 'hasattr', 'isscalar', 'iterable', 'is_iterable')

    def replaced(self, t, v, node):
        b = t
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name) and b.id in self.fn.all_params and self.tests:
            about, form = self.tests[-1]
            if form and b.id in about and b.id not in v:
                self.lost.append((b.id, node))

    def own(self, s):
        """A test that only prepares the tested argument itself: if x is None: x = ..."""
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}

        def plain(b):
            return all(isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) and t.id in names for t in x.targets) or isinstance(x, (ast.Raise, ast.Pass)) or
                       isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and is_log(x.value) for x in b)
        return plain(s.body) and plain(s.orelse)

    def hold(self, base, v):
        while isinstance(base, (ast.Subscript, ast.Attribute)):
            base = base.value
        if isinstance(base, ast.Name) and base.id in self.env:     # not a module
            self.env[base.id] = self.env[base.id] | v | self.c()

    def bind(self, t, v, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v | self.c()
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            same = isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(value.elts))
            vals = [self.ev(x) for x in value.elts] if same else [v] * len(t.elts)
            for x, w, e in zip(t.elts, vals, value.elts if same else [None] * len(t.elts)):
                self.bind(x, w, e)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            if isinstance(t, ast.Subscript):
                v = v | self.ev(t.slice)
            self.ev(t.value)
            self.hold(t, v)
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if not (isinstance(b, ast.Name) and b.id in self.fn.all_params):
                self.take(v | self.c(), t)
            elif not (self.fn.is_public() and any(STEP.search(p) for p in self.fn.all_params)):   # arrays a tool fills for its caller
                self.take(v | self.c() | frozenset([b.id]), t)

    def bind_iter(self, t, src):
        d = dotted(src.func) if isinstance(src, ast.Call) else None
        if isinstance(src, ast.Call) and isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(a, ast.Starred) for a in src.args):
            if d == 'enumerate' and len(t.elts) == 2 and src.args:
                n = self.ev(src.args[0])
                self.bind(t.elts[0], n)
                return self.bind_iter(t.elts[1], src.args[0])
            if d == 'zip' and len(t.elts) == len(src.args):
                for x, a in zip(t.elts, src.args):
                    self.bind_iter(x, a)
                return
            if d in ('tqdm', 'list') and src.args:
                return self.bind_iter(t, src.args[0])
        self.bind(t, self.ev(src))

    def by_callee(self, call):
        """Arguments of a function of the package count where their parameter has an effect."""
        r = self.callee(call) if self.callee is not None else None
        if r is None:
            return False
        for p, e in r[0].items():
            if p not in r[1]:
                self.take(self.ev(e), call)
        return True

    # ------------------------------------------------------------------
    def ev(self, n):
        if n is None:
            return EMPTY
        v = self._ev(n)
        self.at[id(n)] = self.at.get(id(n), EMPTY) | v
        return v

    def _ev(self, n):
        if isinstance(n, ast.Name):
            return self.env.get(n.id, EMPTY)
        if isinstance(n, ast.Constant):
            return EMPTY
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.bind(n.target, v, n.value)
            return v
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            v = EMPTY
            for g in n.generators:
                v |= self.ev(g.iter)
                self.bind_iter(g.target, g.iter)
                for i in g.ifs:
                    v |= self.ev(i)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                v |= self.ev(e)
            targets = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.env = {k: w if k in targets else self.env.get(k, w) for k, w in save.items()}
            return v
        if isinstance(n, ast.Lambda):
            save = dict(self.env)
            for a in n.args.args:
                self.env[a.arg] = EMPTY
            v = self.ev(n.body)
            self.env = save
            return v
        if isinstance(n, ast.Call):
            self.calls.append(n)
            self.at[('ctl', id(n))] = self.at.get(('ctl', id(n)), EMPTY) | self.c()
            v = self.ev(n.func.value) if isinstance(n.func, ast.Attribute) else self.env.get(n.func.id, EMPTY) if isinstance(n.func, ast.Name) else self.ev(n.func)
            for a in n.args:
                v |= self.ev(a.value if isinstance(a, ast.Starred) else a)
            for k in n.keywords:
                v |= self.ev(k.value)
            if not is_log(n) and not self.testing:
                if not self.by_callee(n):
                    d = dotted(n.func) or ''
                    if isinstance(n.func, ast.Name) and d not in BUILTINS and d not in self.env:
                        self.take(v, n)
                    if isinstance(n.func, ast.Attribute) and d.split('.')[0] not in PURE and not (self.callee is not None and n.func.attr in TEXT):
                        for a in n.args:
                            self.take(self.ev(a.value if isinstance(a, ast.Starred) else a), n)
                        for k in n.keywords:
                            self.take(self.ev(k.value), n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'update', 'insert', 'add', 'setdefault'):
                self.hold(n.func.value, v)
            return v
        v = EMPTY
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                v |= self.ev(c)
        return v
