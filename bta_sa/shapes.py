"""Abstract interpretation of the beginning of a step over the shapes of its arguments (for C18).

A value is a number (symbol plus offset), a constant, a sequence with a symbolic length and three representative elements (first, inner, last),
an object, or unknown.  Lengths are symbols: N DUTs of the telescope, S selected DUTs, F selected DUTs that are not N, D DUTs of a set, W a wrong length (not S, not N), B a wrong
length of an entry (not 2, not D).  A condition that is not decided by this is followed both ways.  A path ends when an error is raised; it
reaches processing when a file is opened, a pool or a PDF is made, another step is called, or the function returns.
"""
import ast
import builtins

from .calls import bound
from .loader import dotted

INF = float('inf')


class V(object):
    __slots__ = ('k', 'a', 'b', 'c', 'd')

    def __init__(self, k, a=None, b=None, c=None, d=None):
        self.k, self.a, self.b, self.c, self.d = k, a, b, c, d

    def key(self):
        return (self.k, self.a, self.b, self.c, self.d)

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.k, repr(self.a)))

    def __repr__(self):
        return 'V(%s)' % ', '.join(repr(x) for x in self.key() if x is not None)


UNK = V('unk')


def num(base, off=0, typ='int'):
    return V('num', base, off, typ)


def const(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return num(None, v, type(v).__name__)
    return V('const', v)


def seq(kind, length, items, sure=True, rng=None):
    """kind, length (number or None), representative elements, are they there for sure, upper end if it is range(..)."""
    return V('seq', kind, length, tuple(items), (sure, rng))


def items(v):
    return v.c


NONE = const(None)
# what is known of a symbol: lower and upper bound, absolute and relative to N
ABS = {'N': (1, INF), 'S': (1, INF), 'D': (1, INF), 'W': (1, INF), 'B': (0, INF), 'IN': (0, INF), 'OUT': (1, INF), 'NEG': (-INF, -1), 'F': (1, INF), 'L': (2, INF), 'POS': (1, INF), 'CUT': (0, INF)}
REL = {'IN': (-INF, -1), 'OUT': (0, INF), 'NEG': (-INF, -1)}
APART = [{'W', 'S'}, {'W', 'N'}, {'B', 'D'}, {'F', 'N'}]


def bounds(base):
    if isinstance(base, tuple):                       # ('I', k, length): index below a length
        return (0, INF)
    return ABS.get(base, (-INF, INF))


def diff(a, b):
    """Interval of a - b."""
    if a.a == b.a and a.a not in ('IN', 'OUT', 'NEG', '?', 'POS', 'CUT', 'L'):
        return (a.b - b.b,) * 2 if not isinstance(a.a, tuple) or a.a[1] is not None else (-INF, INF)
    off = a.b - b.b
    if a.a is None:
        lo, hi = bounds(b.a)
        return (-hi + off, -lo + off)
    if b.a is None:
        lo, hi = bounds(a.a)
        return (lo + off, hi + off)
    if b.a == 'N' and a.a in REL:
        return (REL[a.a][0] + off, REL[a.a][1] + off)
    if a.a == 'N' and b.a in REL:
        return (-REL[b.a][1] + off, -REL[b.a][0] + off)
    if isinstance(a.a, tuple) and a.a[2] == b.a:
        return (-INF, -1 + off)
    if isinstance(b.a, tuple) and b.a[2] == a.a:
        return (1 + off, INF)
    if {a.a, b.a} == {'OUT', 'NEG'}:
        return (2 + off, INF) if a.a == 'OUT' else (-INF, -2 + off)
    if {a.a, b.a} == {'IN', 'NEG'}:
        return (1 + off, INF) if a.a == 'IN' else (-INF, -1 + off)
    if {a.a, b.a} == {'IN', 'OUT'}:
        return (1 + off, INF) if a.a == 'OUT' else (-INF, -1 + off)
    return (-INF, INF)


def apart(a, b):
    if a.b == b.b and {a.a, b.a} in APART:
        return True
    for x, y in ((a, b), (b, a)):
        if x.a == 'B' and x.b == 0 and y.a is None and y.b == 2:
            return True
    return False


def compare(op, a, b):
    if a.k == 'num' and b.k == 'num':
        lo, hi = diff(a, b)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            r = True if lo == hi == 0 else False if lo > 0 or hi < 0 or apart(a, b) else None
            return r if r is None or isinstance(op, (ast.Eq, ast.Is)) else not r
        if isinstance(op, ast.Lt):
            return True if hi < 0 else False if lo >= 0 else None
        if isinstance(op, ast.LtE):
            return True if hi <= 0 else False if lo > 0 else None
        if isinstance(op, ast.Gt):
            return True if lo > 0 else False if hi <= 0 else None
        if isinstance(op, ast.GtE):
            return True if lo >= 0 else False if hi < 0 else None
    if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        neg = isinstance(op, (ast.NotEq, ast.IsNot))
        if a.k == 'const' and b.k == 'const':
            return (a.a == b.a and type(a.a) is type(b.a)) != neg
        for x, y in ((a, b), (b, a)):
            if x == NONE and y.k != 'unk' and y != NONE:
                return neg
        if a.k == 'seq' and b.k == 'seq':
            e, f = length(a), length(b)
            if e is not None and f is not None and compare(ast.Eq(), e, f) is False:
                return neg
    return None


def length(v):
    if v.k == 'seq':
        if v.b is not None and v.b.a is None and v.a == 'set':
            return None if not (v.d[0] and items(v)) else num('POS')
        if v.b is None and v.d[0] and items(v):
            return num('POS')
        if v.b is None and v.a == 'set' and v.d[0]:
            return num(None, 0)
        return v.b
    if v.k == 'obj' and v.a == 'telescope':
        return num('N')
    if v.k == 'const' and isinstance(v.a, str):
        return num(None, len(v.a))
    return None


def truth(v):
    if v.k == 'const':
        return bool(v.a)
    if v.k == 'num':
        lo, hi = diff(v, num(None, 0))
        return True if lo > 0 or hi < 0 else False if lo == hi == 0 else None
    if v.k == 'str':
        return True if v.a else None
    if v.k == 'seq':
        if v.d[0] and items(v):
            return True
        n = length(v)
        if n is not None:
            return truth(n)
        if v.a == 'set' and not items(v) and v.d[0]:
            return False
        return None
    if v.k in ('obj', 'func', 'type'):
        return True if v.k != 'obj' or v.a == 'telescope' else None
    return None


def kleene(op, xs):
    if op is any:
        return True if any(x is True for x in xs) else False if all(x is False for x in xs) else None
    return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None


def tri(r):
    return V('bool?') if r is None else const(r)


TYPES = {'seq': {'list': {'list', 'Iterable', 'Sequence', 'Sized', 'Collection', 'Container', 'MutableSequence', 'object'},
                 'tuple': {'tuple', 'Iterable', 'Sequence', 'Sized', 'Collection', 'Container', 'object'},
                 'set': {'set', 'Iterable', 'Sized', 'Collection', 'Container', 'Set', 'object'},
                 'iter': {'Iterable', 'Iterator', 'object'},
                 'range': {'range', 'Iterable', 'Sequence', 'Sized', 'Collection', 'object'},
                 'array': {'ndarray', 'Iterable', 'Sized', 'Collection', 'object'},
                 'dict': {'dict', 'Iterable', 'Sized', 'Collection', 'Mapping', 'object'}}}
KNOWN = set().union(*TYPES['seq'].values()) | {'int', 'float', 'bool', 'str', 'bytes', 'Number', 'Integral', 'Real', 'integer', 'floating', 'number', 'complex', 'frozenset', 'NoneType', 'Hashable'}
NUMS = {'int': {'int', 'Number', 'Integral', 'Real', 'object', 'Hashable'}, 'float': {'float', 'Number', 'Real', 'object', 'Hashable'}}


def types_of(v):
    if v.k == 'seq':
        return TYPES['seq'].get(v.a)
    if v.k == 'num':
        return NUMS.get(v.c)
    if v.k == 'str' or v.k == 'const' and isinstance(v.a, str):
        return {'str', 'Iterable', 'Sequence', 'Sized', 'Collection', 'Container', 'object', 'Hashable'}
    if v.k == 'const' and isinstance(v.a, bool) or v.k == 'bool?':
        return NUMS['int'] | {'bool'}
    if v == NONE:
        return {'NoneType', 'object', 'Hashable'}
    return None


class Raised(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class Limit(Exception):
    pass


class Reached(Exception):
    """The path has reached processing."""


def join(a, b):
    if a == b:
        return a
    if a.k == 'num' and b.k == 'num':
        return num('?', 0, a.c if a.c == b.c else None)
    if a.k == 'seq' and b.k == 'seq' and a.a == b.a and len(items(a)) == len(items(b)):
        return seq(a.a, a.b if a.b == b.b else None, [join(x, y) for x, y in zip(items(a), items(b))], a.d[0] and b.d[0])
    return UNK


def join_env(x, y):
    out = {}
    for k in set(x) | set(y):
        out[k] = join(x[k], y[k]) if k in x and k in y else UNK
    return out


class Out(object):
    """What becomes of a block: environments that go on, and those that leave it."""

    def __init__(self):
        self.go, self.brk, self.cont, self.ret, self.exc = [], [], [], [], []

    def leave(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.exc += o.exc


def merge(envs, cap=12):
    out = []
    for e in envs:
        if e not in out:
            out.append(e)
    while len(out) > cap:
        a = out.pop()
        out[-1] = join_env(out[-1], a)
    return out


class Shapes(object):
    def __init__(self, prog, sinks):
        self.prog, self.is_sink = prog, sinks
        self.sinks = []                    # (function, node, text)
        self.depth = 0
        self.steps = 0
        self.followed = set()
        self.forks = 0

    # -- functions --------------------------------------------------------------------------------------------

    def run(self, fn, env, free=False):
        """Parameters that are not in env have their default value, or any value if free."""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        full = {}
        for p, d in [] if free else list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            try:
                full[p] = self.ev(d, {}, fn)
            except Raised:
                full[p] = UNK
        for p in names + [x.arg for x in a.kwonlyargs]:
            full.setdefault(p, UNK)
        full.update({k: v for k, v in env.items()})
        return self.block(fn.node.body, [full], fn)

    def call_fn(self, g, skip, n, env, fn):
        if self.depth > 4:
            return UNK
        b = bound(g, skip, n)
        if b is None:
            return UNK
        args = {k: self.ev(e, env, fn) for k, e in b.items()}
        if skip:
            args['self'] = UNK
        self.depth += 1
        self.followed.add(g.qual)
        try:
            o = self.run(g, args)
        finally:
            self.depth -= 1
        rets = [r for _, r in o.ret] + [NONE for _ in o.go]
        if not rets:
            if not o.exc:
                raise Reached()
            raise Raised(o.exc[0][1])
        r = rets[0]
        for x in rets[1:]:
            r = join(r, x)
        return r

    # -- statements -------------------------------------------------------------------------------------------

    def block(self, stmts, envs, fn):
        out = Out()
        cur = [dict(e) for e in envs]
        for s in stmts:
            nxt = []
            for e in cur:
                self.steps += 1
                if self.steps > 200000:
                    raise Limit('too many steps')
                try:
                    o = self.stmt(s, e, fn)
                except Raised as r:
                    out.exc.append((e, r.name))
                    continue
                except Reached:
                    continue
                nxt += o.go
                out.leave(o)
            cur = merge(nxt)
            if not cur:
                break
        out.go = cur
        return out

    def stmt(self, s, env, fn):
        out = Out()
        if isinstance(s, ast.Raise):
            name = 'Exception'
            if s.exc is not None:
                f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                name = (dotted(f) or 'Exception').split('.')[-1]
            out.exc.append((env, name))
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env, fn) if s.value is not None else NONE
            out.ret.append((env, v))
        elif isinstance(s, ast.If):
            for t, b in ((True, s.body), (False, s.orelse)):
                e = dict(env)
                c = truth(self.ev(s.test, e, fn))
                if c is not None and c != t:
                    continue
                if c is None:
                    self.forks += 1
                    self.refine(s.test, e, t)
                o = self.block(b, [e], fn)
                out.leave(o)
                out.go += o.go
        elif isinstance(s, ast.Assert):
            c = truth(self.ev(s.test, env, fn))
            if c is not True:
                out.exc.append((env, 'AssertionError'))
            if c is not False:
                out.go.append(env)
        elif isinstance(s, (ast.For, ast.While)):
            self.loop(s, env, fn, out)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env, fn)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, fn)
            o = self.block(s.body, [env], fn)
            out.leave(o)
            out.go = o.go
        elif isinstance(s, ast.Try):
            o = self.block(s.body, [env], fn)
            done = Out()
            done.leave(o)
            done.exc = []
            if o.go:
                e = self.block(s.orelse, o.go, fn)
                done.leave(e)
                done.go += e.go
            for e, name in o.exc:
                h = next((h for h in s.handlers if catches(h.type, name)), None)
                if h is None:
                    done.exc.append((e, name))
                else:
                    e = dict(e)
                    if h.name:
                        e[h.name] = UNK
                    r = self.block(h.body, [e], fn)
                    done.leave(r)
                    done.go += r.go
            if s.finalbody:
                f = Out()
                for k in ('go', 'brk', 'cont'):
                    for e in getattr(done, k):
                        r = self.block(s.finalbody, [e], fn)
                        f.leave(r)
                        setattr(f, k, getattr(f, k) + r.go)
                for k in ('ret', 'exc'):
                    for e, v in getattr(done, k):
                        r = self.block(s.finalbody, [e], fn)
                        f.leave(r)
                        setattr(f, k, getattr(f, k) + [(x, v) for x in r.go])
                done = f
            out = done
        elif isinstance(s, ast.Break):
            out.brk.append(env)
        elif isinstance(s, ast.Continue):
            out.cont.append(env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, fn)
            for t in s.targets:
                self.bind(t, v, env, fn)
            out.go.append(env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, fn), env, fn)
            out.go.append(env)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(as_load(s.target), s.op, s.value), s)
            self.bind(s.target, self.ev(load, env, fn), env, fn)
            out.go.append(env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, fn)
            out.go.append(env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = V('func', s)
            out.go.append(env)
        elif isinstance(s, ast.Delete):
            out.go.append(env)
        else:
            out.go.append(env)
        return out

    def refine(self, test, env, t):
        """Knowledge about a variable from the outcome of a test (only: is it None)."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                and isinstance(test.ops[0], (ast.Is, ast.Eq)) and t:
            env[test.left.id] = NONE

    def loop(self, s, env, fn, out):
        if isinstance(s, ast.While):
            reps, certain, size = [UNK], False, None
            c = truth(self.ev(s.test, env, fn))
            if c is False:
                o = self.block(s.orelse, [env], fn)
                out.leave(o)
                out.go += o.go
                return
        else:
            it = self.ev(s.iter, env, fn)
            reps, certain, size = self.elements(it)
        envs = [dict(env)]
        ends = []
        skipped = [] if certain and reps else [dict(env)]
        before = {k: v for k, v in env.items() if v.k == 'seq' and v.a == 'list'}
        for r in reps:
            nxt = []
            for e in envs:
                e = dict(e)
                if isinstance(s, ast.For):
                    try:
                        self.bind(s.target, r, e, fn)
                    except Raised as x:
                        out.exc.append((e, x.name))
                        continue
                o = self.block(s.body, [e], fn)
                out.ret += o.ret
                out.exc += o.exc
                ends += o.brk
                nxt += o.go + o.cont
            envs = merge(nxt)
        envs = envs + skipped
        if size is not None and size.a is not None:
            for e in envs:
                for k, v in list(e.items()):
                    w = before.get(k)
                    if w is not None and v.k == 'seq' and v.a == 'list' and v.b is not None and w.b is not None and v.b.a is None and w.b == num(None, 0) and v.b.b == len(reps):
                        e[k] = seq('list', size, items(v), v.d[0])
                    elif w is not None and v != w and v.k == 'seq' and v.b != w.b:
                        e[k] = seq('list', None, items(v), False)
        if s.orelse:
            o = self.block(s.orelse, merge(envs), fn)
            out.leave(o)
            envs = o.go
        out.go += merge(envs + ends)

    def elements(self, v):
        """(representative elements, there for sure, length)."""
        if v.k == 'num' or v == NONE or v.k == 'const' and isinstance(v.a, bool):
            raise Raised('TypeError')
        if v.k == 'seq':
            if v.a == 'dict':
                return [p.c[0] for p in items(v)], v.d[0], v.b
            return list(items(v)), v.d[0], v.b
        if v.k == 'obj' and v.a == 'telescope':
            return [V('obj', 'dut')] * 3, True, num('N')
        return [UNK], False, None

    def bind(self, t, v, env, fn):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.k == 'seq' and v.b is not None and v.b.a is None and len(items(v)) == len(t.elts) and v.a != 'set':
                for e, x in zip(t.elts, items(v)):
                    self.bind(e, x, env, fn)
            else:
                if v.k == 'seq' and v.b is not None and compare(ast.Eq(), v.b, num(None, len(t.elts))) is False and not any(isinstance(e, ast.Starred) for e in t.elts):
                    raise Raised('ValueError')
                for e in t.elts:
                    self.bind(e.value if isinstance(e, ast.Starred) else e, UNK, env, fn)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            b = env.get(t.value.id, UNK)
            if b.k != 'seq':
                return
            i = self.ev(t.slice, env, fn) if not isinstance(t.slice, ast.Slice) else UNK
            k = self.position(b, i)
            new = list(items(b))
            if k is not None:
                new[k] = v
                env[t.value.id] = seq(b.a, b.b, new, b.d[0])
            else:
                env[t.value.id] = seq(b.a, b.b, [join(x, v) for x in new], b.d[0])

    def position(self, b, i):
        """Which representative element an index means."""
        n = len(items(b))
        if i.k != 'num' or not n:
            return None
        if isinstance(i.a, tuple) and i.b == 0 and i.a[1] < n:
            return i.a[1]
        if i.a is None:
            if b.b is not None and b.b.a is None:
                return int(i.b) if -n <= i.b < n else None
            if i.b == 0:
                return 0
            if i.b == -1:
                return n - 1
        if b.b is not None and i.a == b.b.a and i.b == b.b.b - 1:
            return n - 1
        return None

    # -- expressions ------------------------------------------------------------------------------------------

    def ev(self, n, env, fn):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is not None:
            return m(n, env, fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env, fn)
        return UNK

    def ev_Constant(self, n, env, fn):
        return const(n.value)

    def ev_Name(self, n, env, fn):
        if n.id in env:
            return env[n.id]
        return V('ref', n.id)

    def ev_NamedExpr(self, n, env, fn):
        v = self.ev(n.value, env, fn)
        env[n.target.id] = v
        return v

    def ev_JoinedStr(self, n, env, fn):
        return V('str', True)

    def ev_Lambda(self, n, env, fn):
        return V('func', n, )

    def ev_Tuple(self, n, env, fn):
        return self.display('tuple', n, env, fn)

    def ev_List(self, n, env, fn):
        return self.display('list', n, env, fn)

    def ev_Set(self, n, env, fn):
        return self.display('set', n, env, fn)

    def display(self, kind, n, env, fn):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env, fn)
                if v.k == 'seq' and v.b is not None and v.b.a is None and v.a != 'set':
                    out += items(v)
                    continue
                if len(n.elts) == 1 and v.k == 'seq':
                    return seq(kind, v.b, items(v), v.d[0])
                return seq(kind, None, [UNK], False)
            out.append(self.ev(e, env, fn))
        return seq(kind, num(None, len(out)), out)

    def ev_Dict(self, n, env, fn):
        ps = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.ev(v, env, fn)
                return UNK
            ps.append(seq('tuple', num(None, 2), [self.ev(k, env, fn), self.ev(v, env, fn)]))
        return seq('dict', num(None, len(ps)), ps)

    def ev_IfExp(self, n, env, fn):
        c = truth(self.ev(n.test, env, fn))
        if c is True:
            return self.ev(n.body, env, fn)
        if c is False:
            return self.ev(n.orelse, env, fn)
        return join(self.ev(n.body, env, fn), self.ev(n.orelse, env, fn))

    def ev_BoolOp(self, n, env, fn):
        vals = []
        stop = isinstance(n.op, ast.Or)
        for e in n.values:
            v = self.ev(e, env, fn)
            t = truth(v)
            vals.append((v, t))
            if t is stop:
                break
        if len(vals) == 1:
            return vals[0][0]
        ts = [t for _, t in vals]
        if all(t is (not stop) for t in ts[:-1]):
            return vals[-1][0]
        return tri(kleene(any if stop else all, ts))

    def ev_UnaryOp(self, n, env, fn):
        v = self.ev(n.operand, env, fn)
        if isinstance(n.op, ast.Not):
            t = truth(v)
            return tri(None if t is None else not t)
        if isinstance(n.op, ast.USub) and v.k == 'num' and v.a is None:
            return num(None, -v.b, v.c)
        return UNK

    def ev_Compare(self, n, env, fn):
        left = self.ev(n.left, env, fn)
        rs = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env, fn)
            rs.append(self.compare(op, left, right))
            left = right
        return tri(kleene(all, rs))

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b)
            return r if r is None or isinstance(op, ast.In) else not r
        if a.k == 'seq' and b.k == 'seq' and a.a == 'set' and b.a == 'set' and isinstance(op, (ast.LtE, ast.Lt)):
            r = self.subset(a, b)
            return r if isinstance(op, ast.LtE) or r is False else None
        if a.k == 'seq' and b.k == 'seq' and a.a == 'set' and b.a == 'set' and isinstance(op, (ast.GtE, ast.Gt)):
            r = self.subset(b, a)
            return r if isinstance(op, ast.GtE) or r is False else None
        return compare(op, a, b)

    def member(self, v, s):
        if s.k == 'obj' and s.a == 'telescope':
            s = seq('range', num('N'), (), True, num('N'))
        if s.k != 'seq':
            return None
        if s.d[1] is not None and v.k == 'num':
            return kleene(all, [compare(ast.GtE(), v, num(None, 0)), compare(ast.Lt(), v, s.d[1])])
        rs = [compare(ast.Eq(), v, x) for x in items(s)]
        if s.d[0] and any(r is True for r in rs):
            return True
        if s.b is not None and s.b.a is None and s.b.b == len(items(s)) and all(r is False for r in rs):
            return False
        return None

    def subset(self, a, b):
        rs = [self.member(x, b) for x in items(a)]
        return False if a.d[0] and any(r is False for r in rs) else None

    def ev_BinOp(self, n, env, fn):
        a, b = self.ev(n.left, env, fn), self.ev(n.right, env, fn)
        if isinstance(n.op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.k == 'seq' and y.k == 'num':
                    if len(items(x)) == 1 and x.b == num(None, 1):
                        if y.a is None:
                            return seq(x.a, num(None, y.b), [items(x)[0]] * int(y.b)) if 0 <= y.b < 50 else UNK
                        return seq(x.a, y, [items(x)[0]] * 3)
                    return seq(x.a, None, items(x), x.d[0])
        if a.k == 'num' and b.k == 'num':
            s = 1 if isinstance(n.op, ast.Add) else -1 if isinstance(n.op, ast.Sub) else 0
            if s and b.a is None:
                return num(a.a, a.b + s * b.b, a.c)
            if s == 1 and a.a is None:
                return num(b.a, b.b + a.b, b.c)
            if s == -1 and a.a == b.a and a.a in ('N', 'S', 'W', 'D', 'B'):
                return num(None, a.b - b.b)
            if a.a is None and b.a is None and isinstance(n.op, ast.Mult):
                return num(None, a.b * b.b, a.c)
            if s == -1 and apart(a, b):
                return V('nonzero')
            return num('?')
        if a.k == 'seq' and b.k == 'seq':
            if isinstance(n.op, ast.Sub) and a.a == 'set':
                keep = [(x, self.member(x, b)) for x in items(a)]
                out = [x for x, r in keep if r is False]
                if out:
                    return seq('set', None, out, a.d[0])
                return seq('set', None, [], not any(r is None for _, r in keep))
            if isinstance(n.op, ast.Add) and a.a == b.a:
                size = None
                if a.b is not None and b.b is not None and (a.b.a is None or b.b.a is None):
                    size = num(a.b.a or b.b.a, a.b.b + b.b.b)
                    if size.a is None:
                        return seq(a.a, size, items(a) + items(b))
                return seq(a.a, size, items(a) + items(b) if size is None else items(a), a.d[0] or b.d[0])
            return seq(a.a, None, [UNK], False)
        if a.k in ('str', 'const') and isinstance(n.op, (ast.Mod, ast.Add)):
            return V('str', None)
        return UNK

    def ev_Subscript(self, n, env, fn):
        b = self.ev(n.value, env, fn)
        if isinstance(n.slice, ast.Slice):
            part = [self.ev(x, env, fn) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if b.k == 'seq':
                if all(p is None for p in part):
                    return b
                if part[2] is None and b.b is not None and b.b.a is None and all(p is None or p.k == 'num' and p.a is None for p in part[:2]):
                    x = list(items(b))[slice(*[None if p is None else int(p.b) for p in part[:2]])]
                    return seq(b.a, num(None, len(x)), x)
                if part[0] is None and part[2] is None and part[1].k == 'num' and part[1].a is not None and b.b is not None:
                    # the first so many entries: at most that number
                    return seq(b.a, part[1] if b.b == part[1] else V('num', 'CUT', 0, 'int'), items(b), b.d[0])
                if part[0] is not None and part[0] == num(None, 1) and part[1] is None and part[2] is None and b.b is not None:
                    return seq(b.a, num(b.b.a, b.b.b - 1), items(b)[1:], False)
                return seq(b.a, None, items(b), False)
            return UNK
        i = self.ev(n.slice, env, fn)
        if b.k == 'num' or b == NONE:
            raise Raised('TypeError')
        if b.k == 'seq' and b.a in ('list', 'tuple', 'range', 'array'):
            k = self.position(b, i)
            if k is not None:
                return items(b)[k]
            if b.b is not None and b.b.a is None and i.k == 'num' and i.a is None and not -b.b.b <= i.b < b.b.b:
                raise Raised('IndexError')
            if items(b) and all(x == items(b)[0] for x in items(b)):
                return items(b)[0]
            return UNK
        if b.k == 'seq' and b.a == 'dict':
            for p in items(b):
                if compare(ast.Eq(), p.c[0], i) is True:
                    return p.c[1]
            return UNK
        if b.k == 'obj' and b.a == 'telescope':
            r = self.member(i, b)
            if r is False and i.k == 'num':
                raise Raised('KeyError')
            return V('obj', 'dut')
        return UNK

    def ev_Attribute(self, n, env, fn):
        d = dotted(n)
        if d is not None and d.split('.')[0] not in env and d.split('.')[0] != 'self':
            return V('ref', d)
        b = self.ev(n.value, env, fn)
        if b.k == 'obj' and b.a == 'telescope' and n.attr == 'dut':
            return b
        if b.k == 'seq' and n.attr == 'size':
            return b.b if b.b is not None else UNK
        return UNK

    def comp(self, n, kind, env, fn):
        env = dict(env)
        if len(n.generators) == 1:
            g = n.generators[0]
            reps, sure, size = self.elements(self.ev(g.iter, env, fn))
            out, exact = [], True
            for r in reps:
                e = dict(env)
                self.bind(g.target, r, e, fn)
                keep = kleene(all, [truth(self.ev(c, e, fn)) for c in g.ifs]) if g.ifs else True
                if keep is not True:
                    exact = False
                if keep is None:
                    sure = False
                if keep is not False:
                    out.append(self.ev(n.elt, e, fn))
            if not exact and size is not None and size.a is None and sure:
                return seq(kind, num(None, len(out)), out)
            return seq(kind, size if exact and kind != 'set' else None, out, sure)
        # nested: element of elements
        def turn(k, e):
            if k == len(n.generators):
                return [self.ev(n.elt, e, fn)], True
            g = n.generators[k]
            reps, sure, _ = self.elements(self.ev(g.iter, e, fn))
            out = []
            for r in reps:
                x = dict(e)
                self.bind(g.target, r, x, fn)
                keep = kleene(all, [truth(self.ev(c, x, fn)) for c in g.ifs]) if g.ifs else True
                if keep is False:
                    continue
                vs, s = turn(k + 1, x)
                sure = sure and s and keep is True
                out += vs
            return out, sure
        out, sure = turn(0, env)
        return seq(kind, None, out, sure)

    def ev_ListComp(self, n, env, fn):
        return self.comp(n, 'list', env, fn)

    def ev_GeneratorExp(self, n, env, fn):
        return self.comp(n, 'iter', env, fn)

    def ev_SetComp(self, n, env, fn):
        return self.comp(n, 'set', env, fn)

    def ev_DictComp(self, n, env, fn):
        return UNK

    # -- calls ------------------------------------------------------------------------------------------------

    def apply(self, f, args, env, fn):
        """Call of a local function or lambda, or of a function given by name, with abstract arguments."""
        if f.k == 'func':
            node = f.a
            names = [x.arg for x in node.args.posonlyargs + node.args.args]
            e = dict(env)
            e.update(zip(names, args))
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, e, fn)
            for p, d in zip(names[len(names) - len(node.args.defaults):], node.args.defaults):
                if names.index(p) >= len(args):
                    e[p] = self.ev(d, env, fn)
            if self.depth > 6:
                return UNK
            self.depth += 1
            try:
                o = self.block(node.body, [e], fn)
            finally:
                self.depth -= 1
            rets = [r for _, r in o.ret] + [NONE for _ in o.go]
            if not rets:
                raise Raised(o.exc[0][1] if o.exc else 'Exception')
            r = rets[0]
            for x in rets[1:]:
                r = join(r, x)
            return r
        if f.k == 'ref':
            r = self.builtin(f.a.split('.')[-1], args, {}, f.a, env, fn)
            return UNK if r is None else r
        return UNK

    def ev_Call(self, n, env, fn):
        d = dotted(n.func)
        last = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
        why = self.is_sink(self.prog, fn, n, d)
        if why:
            for a in list(n.args) + [k.value for k in n.keywords]:
                self.ev(a.value if isinstance(a, ast.Starred) else a, env, fn)
            self.sinks.append((fn, n, why))
            raise Reached()
        root = d.split('.')[0] if d else None
        if d is not None and root not in env:
            r = self.prog.resolve_in_module(fn.module, d)
            if r is not None and r[0] == 'fn':
                return self.call_fn(r[1], 0, n, env, fn)
            if r is not None and r[0] == 'cls':
                for a in list(n.args) + [k.value for k in n.keywords]:
                    self.ev(a.value if isinstance(a, ast.Starred) else a, env, fn)
                return V('obj', r[1].qual.split('.')[-1].lower())
            for k in n.keywords:
                if k.arg in ('key',):
                    continue
            args = []
            for a in n.args:
                if isinstance(a, ast.Starred):
                    v = self.ev(a.value, env, fn)
                    if v.k == 'seq' and v.b is not None and v.b.a is None:
                        args += items(v)
                        continue
                    args.append(UNK)
                else:
                    args.append(self.ev(a, env, fn))
            kw = {k.arg: self.ev(k.value, env, fn) for k in n.keywords if k.arg}
            r = self.builtin(last, args, kw, d, env, fn)
            return UNK if r is None else r
        if isinstance(n.func, ast.Name) and env.get(n.func.id, UNK).k == 'func':
            return self.apply(env[n.func.id], [self.ev(a, env, fn) for a in n.args], env, fn)
        if isinstance(n.func, ast.Attribute):
            b = self.ev(n.func.value, env, fn)
            args = [self.ev(a, env, fn) for a in n.args if not isinstance(a, ast.Starred)]
            for k in n.keywords:
                self.ev(k.value, env, fn)
            return self.method(b, n.func, args, env, fn)
        return UNK

    def method(self, b, f, args, env, fn):
        name = f.attr
        if b.k == 'seq':
            if name in ('copy', 'tolist', '__iter__'):
                return b if name == 'copy' else seq('list', b.b, items(b), b.d[0])
            if name in ('append', 'add') and isinstance(f.value, ast.Name) and args:
                size = num(b.b.a, b.b.b + 1) if b.b is not None and b.a == 'list' else None
                if size is not None and size.a is None or not items(b):
                    env[f.value.id] = seq(b.a, size, items(b) + (args[0],), True)
                else:
                    env[f.value.id] = seq(b.a, size, [join(x, args[0]) for x in items(b)], b.d[0])
                return NONE
            if name in ('extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'discard') and isinstance(f.value, ast.Name):
                if name not in ('sort', 'reverse'):
                    env[f.value.id] = seq(b.a, None, [UNK], False)
                return UNK
            if name == 'issubset' and args and args[0].k in ('seq', 'obj'):
                return tri(self.subset(b, args[0]))
            if name == 'issuperset' and args and args[0].k == 'seq':
                return tri(self.subset(args[0], b))
            if name == 'difference' and args and args[0].k == 'seq':
                keep = [(x, self.member(x, args[0])) for x in items(b)]
                out = [x for x, r in keep if r is False]
                return seq('set', None, out, b.d[0] if out else not any(r is None for _, r in keep))
            if b.a == 'dict' and name == 'items':
                return seq('list', b.b, items(b), b.d[0])
            if b.a == 'dict' and name in ('values', 'keys'):
                return seq('list', b.b, [p.c[name == 'values'] for p in items(b)], b.d[0])
            if name in ('any', 'all'):
                return self.builtin(name, [b], {}, name, env, fn)
        if b.k == 'obj' and b.a == 'telescope' and name in ('keys',):
            return b
        return UNK

    def builtin(self, name, args, kw, d, env, fn):
        a = args[0] if args else None
        if name == 'len' and a is not None:
            if a.k == 'num' or a == NONE or a.k == 'const' and isinstance(a.a, bool):
                raise Raised('TypeError')
            r = length(a)
            return UNK if r is None else r
        if name in ('isinstance', 'issubclass') and len(args) == 2:
            ts = types_of(a)
            names = self.type_names(args[1])
            if ts is None or names is None:
                return tri(None)
            return tri(True if ts & names else False if names <= KNOWN else None)
        if name in ('list', 'tuple', 'sorted', 'array', 'asarray', 'reversed', 'iter', 'deepcopy', 'copy', 'asanyarray', 'atleast_1d') and a is not None:
            kind = {'tuple': 'tuple', 'iter': 'iter', 'array': 'array', 'asarray': 'array', 'atleast_1d': 'array', 'asanyarray': 'array'}.get(name, 'list')
            if name in ('copy', 'deepcopy'):
                return a
            if a.k == 'obj' or a.k == 'seq':
                reps, sure, size = self.elements(a)
                return seq(kind, None if a.k == 'seq' and a.a == 'set' else size, reps if name != 'reversed' else reps[::-1], sure, a.d[1] if a.k == 'seq' else None)
            if name in ('list', 'tuple', 'sorted'):
                self.elements(a)
            return UNK
        if name in ('list', 'tuple', 'set', 'dict') and a is None:
            return seq(name, num(None, 0), [])
        if name in ('set', 'frozenset', 'unique') and a is not None:
            if a.k == 'seq':
                rng = a.d[1]
                out = []
                for x in items(a):
                    if x not in out:
                        out.append(x)
                return seq('set', None, out, a.d[0], rng)
            if a.k == 'obj' and a.a == 'telescope':
                return seq('set', None, [num('IN')] * 1, True, num('N'))
            self.elements(a)
            return UNK
        if name in ('range', 'xrange', 'arange') and args:
            hi = args[0] if len(args) == 1 else args[1]
            lo = num(None, 0) if len(args) == 1 else args[0]
            if hi.k == 'num' and lo == num(None, 0) and len(args) < 3:
                if hi.a is None:
                    return seq('range', hi, [num(None, i) for i in range(int(min(hi.b, 20)))], True, hi)
                if hi.b == 0:
                    return seq('range', hi, [num(('I', k, hi.a)) for k in range(3)], True, hi)
            if hi.k == 'num' and hi.a is not None and hi.b == 0 and lo.k == 'num' and lo.a is None and lo.b == 1 and len(args) == 2:
                return seq('range', num(hi.a, -1), [num(('I', k, hi.a)) for k in (1, 2)], False)
            return seq('range', None, [num('?')], False)
        if name == 'enumerate' and a is not None:
            reps, sure, size = self.elements(a)
            start = kw.get('start') or (args[1] if len(args) > 1 else None)
            if size is not None and size.a is None:
                ix = [num(None, k) for k in range(len(reps))]
            else:
                ix = [num(('I', k, size.a if size is not None and size.b == 0 else None)) for k in range(len(reps))]
            if start is not None:
                ix = [num('?')] * len(reps)
            return seq('iter', size, [seq('tuple', num(None, 2), p) for p in zip(ix, reps)], sure)
        if name in ('zip', 'zip_longest') and args:
            parts = [self.elements(x) for x in args]
            k = min(len(p[0]) for p in parts)
            if any(p[2] is None for p in parts):
                k = min([len(p[0]) for p in parts if p[2] is not None] or [1])
                parts = [(p[0] if p[2] is not None else [p[0][0] if p[0] else UNK] * k, p[1], p[2]) for p in parts]
            size = parts[0][2] if all(p[2] == parts[0][2] for p in parts) else None
            strict = kw.get('strict')
            if strict is not None and truth(strict) is True and len(parts) > 1 and all(p[2] is not None for p in parts) and compare(ast.Eq(), parts[0][2], parts[1][2]) is False:
                raise Raised('ValueError')
            return seq('iter', size, [seq('tuple', num(None, len(parts)), [p[0][i] for p in parts]) for i in range(k)], all(p[1] for p in parts))
        if name == 'map' and len(args) >= 2:
            parts = [self.elements(x) for x in args[1:]]
            k = min(len(p[0]) for p in parts)
            return seq('iter', parts[0][2] if len(parts) == 1 else None, [self.apply(a, [p[0][i] for p in parts], env, fn) for i in range(k)], all(p[1] for p in parts))
        if name == 'filter' and len(args) == 2:
            reps, sure, size = self.elements(args[1])
            ts = [truth(self.apply(a, [r], env, fn) if a != NONE else r) for r in reps]
            keep = [r for r, t in zip(reps, ts) if t is not False]
            return seq('iter', None, keep, sure and all(t is not None for t in ts))
        if name in ('any', 'all') and a is not None:
            if a.k != 'seq':
                return tri(None)
            f = any if name == 'any' else all
            r = kleene(f, [truth(x) for x in items(a)])
            if not a.d[0] and r is (name == 'any'):
                r = None
            return tri(r)
        if name in ('max', 'min', 'amax', 'amin') and args:
            v = items(a) if len(args) == 1 and a.k == 'seq' else args
            if not v or any(x.k != 'num' for x in v):
                return UNK
            op = ast.GtE() if name in ('max', 'amax') else ast.LtE()
            for x in v:
                if all(y == x or compare(op, x, y) is True for y in v):
                    return x
            for s in ('IN',):
                if all(x.a == s or isinstance(x.a, tuple) and x.a[2] == 'N' for x in v):
                    return num(s)
            return num('?')
        if name in ('int', 'float', 'abs') and a is not None:
            return a if a.k == 'num' and name == 'int' else num('?')
        if name == 'bool' and a is not None:
            return tri(truth(a))
        if name == 'sum' and a is not None and a.k == 'seq':
            ts = [truth(x) for x in items(a)]
            if all(x.k == 'const' and isinstance(x.a, bool) or x.k == 'bool?' for x in items(a)) and a.d[0] and any(t is True for t in ts):
                return V('nonzero')
            return num('?')
        if name == 'str' or name == 'repr':
            return V('str', None)
        if name == 'type' and a is not None:
            return UNK
        return None

    def type_names(self, t):
        if t.k == 'ref':
            return {t.a.split('.')[-1]}
        if t.k == 'seq':
            out = set()
            for x in items(t):
                r = self.type_names(x)
                if r is None:
                    return None
                out |= r
            return out
        return None


def as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def catches(t, name):
    """Does a handler for type t catch an exception of this name?"""
    if t is None:
        return True
    ts = t.elts if isinstance(t, ast.Tuple) else [t]
    exc = getattr(builtins, name, None)
    for x in ts:
        d = (dotted(x) or '').split('.')[-1]
        if d == name or d in ('Exception', 'BaseException'):
            return True
        c = getattr(builtins, d, None)
        if isinstance(c, type) and isinstance(exc, type) and issubclass(exc, c):
            return True
    return False
