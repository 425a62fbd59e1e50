"""Value numbering of code that computes with small matrices: the normal form (algebra.py) of everything a function returns.

A column of a table is one generic element ('N' in a shape), matrices have their elements one by one.  A condition is decided
from the normal forms (two different forms count as different values); one that cannot be decided is followed both ways.
Nothing of the code under analysis is executed.
"""
import ast
from fractions import Fraction

from . import algebra as A
from .algebra import Num, Tooling
from .loader import dotted, PKG

TINY = Fraction(1, 10 ** 9)
EPS = Fraction(1, 2 ** 52)


class Unknown(object):
    def __repr__(self):
        return '?'


UNK = Unknown()


class NotANumber(object):
    def __repr__(self):
        return 'nan'

    def key(self):
        return 'nan'


NAN = NotANumber()


class Cond(object):
    """('cmp', op, diff) with op in < <= == over 0, ('and', ..), ('or', ..), ('not', c), ('is', bool), ('free', key)"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def key(self):
        return tuple(x.key() if isinstance(x, (Cond, Num)) else x for x in self.t)

    def __repr__(self):
        t = self.t
        if t[0] == 'cmp':
            return '%r %s 0' % (t[2], t[1])
        return '%s(%s)' % (t[0], ', '.join(map(repr, t[1:])))


class Arr(object):
    """Array: dimensions (numbers, or 'N' for the rows of a table) and the elements over the numbered ones."""
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def __repr__(self):
        return 'Arr%r%r' % (self.shape, self.data)


class Obj(object):
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class Ref(object):
    """Function, class, module or library name."""

    def __init__(self, kind, what, bound=None, env=None):
        self.kind, self.what, self.bound, self.env = kind, what, bound, env

    def __repr__(self):
        return '%s:%s' % (self.kind, self.what)


class Raised(Exception):
    def __init__(self, node=None):
        self.node = node


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


def scal(x):
    return Arr((), [x])


def col(n):
    """A column of a table as parameter."""
    return Arr(('N',), [A.sym(n)])


def val(n):
    return Arr((), [A.sym(n)])


def strides(shape):
    out, k = [], 1
    for d in reversed(shape):
        if d == 'N':
            out.append(0)
        else:
            out.append(k)
            k *= d
    return list(reversed(out)), k


def indices(shape):
    out = [()]
    for d in shape:
        out = [i + (k,) for i in out for k in (range(d) if d != 'N' else (0,))]
    return out


def get(a, idx):
    st, _ = strides(a.shape)
    return a.data[sum(i * s for i, s in zip(idx, st))]


def broadcast(*arrs):
    n = max(len(a.shape) for a in arrs)
    shapes = [(1,) * (n - len(a.shape)) + a.shape for a in arrs]
    out = []
    for ds in zip(*shapes):
        big = {d for d in ds if d != 1}
        if len(big) > 1:
            raise Tooling('shapes do not fit')
        out.append(big.pop() if big else 1)
    return tuple(out), shapes


def elementwise(f, *arrs, **kw):
    nan = kw.get('nan', NAN)
    shape, shapes = broadcast(*arrs)
    data = []
    for idx in indices(shape):
        vals = []
        for a, s in zip(arrs, shapes):
            b = Arr(s, a.data)
            vals.append(get(b, tuple(0 if d == 1 else i for i, d in zip(idx, s))))
        data.append(UNK if any(v is UNK for v in vals) else nan if any(v is NAN for v in vals) else f(*vals))
    return Arr(shape, data)


def transpose(a, axes=None):
    axes = list(reversed(range(len(a.shape)))) if axes is None else [x % len(a.shape) for x in axes]
    shape = tuple(a.shape[x] for x in axes)
    data = []
    for idx in indices(shape):
        src = [0] * len(axes)
        for k, x in enumerate(axes):
            src[x] = idx[k]
        data.append(get(a, tuple(src)))
    return Arr(shape, data)


def add(x, y):
    return UNK if x is UNK or y is UNK else NAN if x is NAN or y is NAN else x + y


def mul(x, y):
    # an element that is not known does not matter where it is multiplied with zero only if it is finite: not assumed
    return UNK if x is UNK or y is UNK else NAN if x is NAN or y is NAN else x * y


def dot(a, b):
    if not a.shape or not b.shape:
        return elementwise(mul, a, b)
    ka = len(a.shape) - 1
    kb = max(0, len(b.shape) - 2)
    if a.shape[ka] != b.shape[kb] or a.shape[ka] == 'N':
        raise Tooling('product')
    n = a.shape[ka]
    left, right = a.shape[:ka], b.shape[:kb] + b.shape[kb + 1:]
    data = []
    for i in indices(left):
        for j in indices(right):
            v = A.ZERO
            for k in range(n):
                v = add(v, mul(get(a, i + (k,)), get(b, j[:kb] + (k,) + j[kb:])))
            data.append(v)
    return Arr(left + right, data)


def det(m):
    n = m.shape[0]
    if n == 1:
        return m.data[0]
    out = A.ZERO
    for j in range(n):
        sub = Arr((n - 1, n - 1), [get(m, (r, c)) for r in range(1, n) for c in range(n) if c != j])
        out = add(out, mul(mul(A.num(-1 if j % 2 else 1), get(m, (0, j))), det(sub)))
    return out


def inverse(m):
    n = m.shape[0]
    if len(m.shape) != 2 or m.shape[1] != n or n == 'N' or any(x is UNK or x is NAN for x in m.data):
        raise Tooling('inverse')
    d = det(m)
    data = []
    for i in range(n):
        for j in range(n):
            sub = Arr((n - 1, n - 1), [get(m, (r, c)) for r in range(n) if r != j for c in range(n) if c != i])
            data.append(A.num(-1 if (i + j) % 2 else 1) * det(sub) / d)
    return Arr((n, n), data)


def eye(n, m=None):
    m = n if m is None else m
    return Arr((n, m), [A.UNIT if i == j else A.ZERO for i in range(n) for j in range(m)])


class Eval(object):
    """One run of a function over normal forms; paths() repeats it for every way the undecided conditions can go."""

    def __init__(self, prog, limit=20000):
        self.prog, self.limit = prog, limit

    def paths(self, body, most=64):
        """body(self) -> value; yields (value, conditions taken as (cond, truth), outcome 'value' | 'raise' | 'unknown')."""
        todo = [[]]
        out = []
        while todo:
            if len(out) >= most:
                out.append((UNK, [], 'unknown'))
                break
            trace = todo.pop()
            self.trace, self.at, self.taken, self.facts, self.steps, self.depth = list(trace), 0, [], {}, 0, 0
            self.wide_all = []
            try:
                v = body(self)
                res = (v, list(self.taken), 'value')
            except Raised as e:
                res = (e.node, list(self.taken), 'raise')
            except Exception as e:      # what is not modelled stays undecided
                res = (UNK, list(self.taken), 'unknown')
                self.why = str(e)
            out.append(res)
            for i in range(len(trace), len(self.trace)):
                todo.append(self.trace[:i] + [not self.trace[i]])
        return out

    # -- conditions -------------------------------------------------------
    def known(self, c):
        """True, False or None."""
        t = c.t
        if t[0] == 'is':
            return t[1]
        if t[0] == 'not':
            v = self.known(t[1])
            return None if v is None else not v
        if t[0] in ('and', 'or'):
            stop = t[0] == 'or'
            vs = [self.known(x) for x in t[1:]]
            if any(v is stop for v in vs):
                return stop
            if t[0] == 'and' and self.squeezed(t[1:]):
                return False
            return None if any(v is None for v in vs) else not stop
        if t[0] == 'free':
            return self.facts.get(c.key())
        op, d = t[1:]
        k = d.const()
        if k is not None:
            return {'<': k < 0, '<=': k <= 0, '==': k == 0}[op]
        if op == '==':
            return False
        s = self.sign(d)
        if s is not None:
            return s < 0
        if d.key() in self.facts:
            return self.facts[d.key()]
        if (-d).key() in self.facts:
            return not self.facts[(-d).key()]
        return None

    def squeezed(self, cs):
        """v between two numbers next to zero: as good as v == 0, which does not hold for a generic v."""
        up, low = set(), set()
        for c in flat('and', cs):
            if c.t[0] == 'cmp' and c.t[1] in ('<', '<='):
                d = c.t[2]
                if d.den == {A.ONE: 1}:
                    k = d.num.get(A.ONE, Fraction(0))
                    rest = {m: x for m, x in d.num.items() if m != A.ONE}
                    if rest and -TINY <= k <= 0:
                        up.add(A.pkey(rest))
                        low.add(A.pkey({m: -x for m, x in rest.items()}))
        return bool(up & low)

    def sign(self, d):
        """-1 or 1 if d cannot have the other sign."""
        if A.positive(d.den):
            n = d.num
        elif A.negative(d.den):
            n = {m: -c for m, c in d.num.items()}
        else:
            return None
        if A.positive(n):
            return 1
        if A.negative(n):
            return -1
        # a multiple of pi and one angle of known range
        angle = [(m, c) for m, c in n.items() if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in A.RANGE]
        if len(angle) == 1 and all(m == ((A.PI, 1),) for m in n if m != angle[0][0]) and d.den == {A.ONE: 1}:
            (m, c), k = angle[0], n.get(((A.PI, 1),), Fraction(0))
            lo, hi = A.RANGE[m[0][0][0]]
            own = Num({m: Fraction(1)})
            if own.key() in self.facts:
                lo, hi = (lo, min(hi, 0)) if self.facts[own.key()] else (max(lo, 0), hi)
            elif (-own).key() in self.facts:
                lo, hi = (max(lo, 0), hi) if self.facts[(-own).key()] else (lo, min(hi, 0))
            b = sorted((k + c * lo, k + c * hi))
            if b[0] >= 0:
                return 1
            if b[1] <= 0:
                return -1
        # k + c1 sin(a).. with |k| at least the sum of the others; a root is not below a number next to zero
        k = n.get(A.ONE, Fraction(0))
        rest = [(m, c) for m, c in n.items() if m != A.ONE]
        if all(len(m) and all(s[0] in ('sin', 'cos') for s, e in m) for m, c in rest) and abs(k) >= sum(abs(c) for m, c in rest):
            return 1 if k > 0 else -1
        if abs(k) <= TINY and A.positive(dict(rest)):
            return 1
        if abs(k) <= TINY and A.negative(dict(rest)):
            return -1
        if k < 0 or k > 0:
            # sqrt(p) against 1 where p is 1 minus squares: a cosine
            if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][0][0] == 'sqrt' and rest[0][0][0][1] == 1:
                p = A.RELATION[rest[0][0][0][0]]
                if all(all(s[0] in ('sin', 'cos') for s, e in m) for m in p) and sum(abs(c) for c in p.values()) * rest[0][1] ** 2 <= k ** 2:
                    return 1 if k > 0 else -1
        return None

    def decide(self, c):
        v = self.known(c)
        if v is not None:
            return v
        u = self.unknown_in(c)
        while v is None:
            t = self.next(u)
            self.settle(u, t)
            v = self.known(c)
            if v is None:
                u = self.unknown_in(c)
        self.taken.append((c, v))
        return v

    def unknown_in(self, c):
        if c.t[0] in ('and', 'or', 'not'):
            for x in c.t[1:]:
                if self.known(x) is None:
                    return self.unknown_in(x)
        return c

    def settle(self, u, t):
        if u.t[0] == 'free':
            self.facts[u.key()] = t
            inner = u.t[2] if len(u.t) > 2 else None
            if isinstance(inner, Cond) and t is u.t[3]:
                # all(c) holds / any(c) does not: so for the element
                self.suppose(inner, t)
            return
        self.facts[u.t[2].key()] = t

    def suppose(self, c, t):
        if c.t[0] == 'not':
            return self.suppose(c.t[1], not t)
        if c.t[0] == ('and' if t else 'or'):
            for x in c.t[1:]:
                self.suppose(x, t)
        elif c.t[0] == 'cmp' and self.known(c) is None:
            self.settle(c, t)
        if c.t[0] != 'is':
            self.taken.append((c, t))

    def next(self, u):
        if self.at < len(self.trace):
            t = self.trace[self.at]
        else:
            t = True
            self.trace.append(t)
            if len(self.trace) > 40:
                raise Stop('too many conditions')
        self.at += 1
        return t

    def truth(self, v, node=None):
        if isinstance(v, Arr):
            if v.shape and all(d == 1 for d in v.shape) or not v.shape:
                v = v.data[0]
            elif v.shape == ('N',):
                v = v.data[0]
            else:
                raise Tooling('truth of an array')
            if isinstance(v, Num):
                return not self.decide(Cond('cmp', '==', v))
        if isinstance(v, Cond):
            return self.decide(v)
        if v is UNK or isinstance(v, (Ref, Obj)):
            if isinstance(v, (Ref, Obj)):
                return True
            return self.decide(Cond('free', ('line', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), ast.dump(node)[:200] if node is not None else '')))
        return bool(v)

    # -- statements -------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Stop('too long')

    def block(self, stmts, env):
        for s in stmts:
            self.tick()
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, env))
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(s.target, s.op, s.value), s)
            if isinstance(s.target, ast.Name):
                env['vars'][s.target.id] = self.ev(load, env)
            else:
                self.bind(s.target, self.ev(load, env), env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env), s.test) else s.orelse, env)
        elif isinstance(s, ast.Raise):
            raise Raised(s)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                try:
                    self.ev(s.value, env)
                except Tooling:
                    pass
        elif isinstance(s, ast.FunctionDef):
            env['vars'][s.name] = Ref('def', s, env=env)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                table = {}
                self.prog._do_import(s, table)
                for k, v in table.items():
                    env['vars'][k] = self.ref(v)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env), s.test):
                raise Raised(s)
        elif isinstance(s, ast.For):
            seq = self.items(self.ev(s.iter, env))
            broke = False
            for x in seq:
                self.tick()
                self.bind(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    broke = True
                    break
                except Cnt:
                    continue
            if not broke:
                self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(50):
                self.tick()
                if not self.truth(self.ev(s.test, env), s.test):
                    self.block(s.orelse, env)
                    return
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cnt:
                    continue
            raise Stop('loop')
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cnt()
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, env)
                self.block(s.orelse, env)
            except Raised:
                if not s.handlers:
                    raise
                self.block(s.handlers[0].body, env)
            finally:
                if s.finalbody:
                    self.block(s.finalbody, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = UNK
                try:
                    v = self.ev(i.context_expr, env)
                except Tooling:
                    pass
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Delete):
            pass
        else:
            raise Tooling('statement %s' % type(s).__name__)

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, range):
            return [scal(A.num(i)) for i in v]
        if isinstance(v, Arr) and v.shape and v.shape[0] != 'N':
            return [self.index(v, [('int', i)]) for i in range(v.shape[0])]
        raise Tooling('not a sequence of known length')

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env['vars'][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            try:
                xs = self.items(v) if v is not UNK else None
            except Tooling:
                xs = None
            if xs is None:
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, UNK, env)
                return
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            if star is None:
                if len(xs) != len(t.elts):
                    raise Raised(t)
                for x, y in zip(t.elts, xs):
                    self.bind(x, y, env)
            else:
                tail = len(t.elts) - star - 1
                for x, y in zip(t.elts[:star], xs):
                    self.bind(x, y, env)
                self.bind(t.elts[star].value, xs[star:len(xs) - tail], env)
                for x, y in zip(t.elts[star + 1:], xs[len(xs) - tail:]):
                    self.bind(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            if isinstance(base, Arr):
                self.store(base, self.subscripts(t.slice, env), v)
            elif isinstance(base, dict):
                k = self.plain(self.ev(t.slice, env))
                base[k] = v
            elif isinstance(base, list):
                k = self.plain(self.ev(t.slice, env))
                if not isinstance(k, int):
                    raise Tooling('list index')
                base[k] = v
            elif base is not UNK:
                raise Tooling('store')
        else:
            raise Tooling('target')

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p = self.prog.find_prop(o.cls, name)
            if p and 'set' in p:
                self.call_fn(p['set'], [o, v], {})
                return
            o.attrs[name] = v
        elif o is not UNK:
            raise Tooling('attribute')

    # -- indexing ---------------------------------------------------------
    def subscripts(self, s, env):
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for p in parts:
            if isinstance(p, ast.Slice):
                lim = []
                for x in (p.lower, p.upper, p.step):
                    v = None if x is None else self.plain(self.ev(x, env))
                    if v is not None and not isinstance(v, int):
                        v = UNK
                    lim.append(v)
                out.append(('slice',) + tuple(lim))
                continue
            v = self.ev(p, env)
            if v is None:
                out.append(('new',))
            elif v is Ellipsis:
                out.append(('all',))
            else:
                w = self.plain(v)
                if isinstance(w, int) and not isinstance(w, bool):
                    out.append(('int', w))
                elif isinstance(v, Arr) and v.shape and all(isinstance(x, Cond) for x in v.data):
                    out.append(('mask', v))
                elif isinstance(w, list) and all(isinstance(x, int) for x in w):
                    out.append(('list', w))
                else:
                    raise Tooling('index')
        return out

    def expand(self, a, subs):
        """One subscript per axis."""
        n = sum(1 for s in subs if s[0] not in ('new', 'all')) + sum(len(s[1].shape) - 1 for s in subs if s[0] == 'mask')
        out = []
        done = False
        for s in subs:
            if s[0] == 'all' and not done:
                out += [('slice', None, None, None)] * (len(a.shape) - n)
                done = True
            elif s[0] != 'all':
                out.append(s)
        if not done:
            out += [('slice', None, None, None)] * (len(a.shape) - n)
        return out

    def picks(self, a, subs):
        """-> (shape, list of source indices)"""
        subs = self.expand(a, subs)
        axis = 0
        shape, choose = [], []
        for s in subs:
            if s[0] == 'new':
                shape.append(1)
                choose.append(None)
                continue
            if axis >= len(a.shape):
                raise Tooling('index')
            d = a.shape[axis]
            axis += 1
            if s[0] == 'int':
                if d == 'N':
                    choose.append(('one', 0))      # any row
                    continue
                if not -d <= s[1] < d:
                    raise Tooling('index out of range')
                choose.append(('one', s[1] % d))
            elif s[0] == 'slice':
                if d == 'N':
                    choose.append(('many', [0]))
                    shape.append('N')
                else:
                    if UNK in s:
                        raise Tooling('slice')
                    r = list(range(d))[slice(*s[1:])]
                    choose.append(('many', r))
                    shape.append(len(r))
            elif s[0] == 'list':
                if d == 'N':
                    raise Tooling('index')
                choose.append(('many', [x % d for x in s[1]]))
                shape.append(len(s[1]))
            elif s[0] == 'mask':
                if d != 'N' or len(s[1].shape) != 1:
                    raise Tooling('mask')
                choose.append(('many', [0]))
                shape.append('N')
        src = [()]
        for c in choose:
            if c is None:
                continue
            if c[0] == 'one':
                src = [i + (c[1],) for i in src]
            else:
                src = [i + (k,) for i in src for k in c[1]]
        return tuple(shape), src

    def index(self, a, subs):
        if len(subs) == 1 and subs[0][0] == 'mask' and subs[0][1].shape == a.shape and 'N' not in a.shape:
            raise Tooling('mask')
        shape, src = self.picks(a, subs)
        return Arr(shape, [get(a, i) for i in src])

    def store(self, a, subs, v):
        st, _ = strides(a.shape)
        v = self.arr(v)
        if len(subs) == 1 and subs[0][0] == 'mask' and subs[0][1].shape == a.shape:
            m = subs[0][1]
            if v.shape and v.shape != a.shape:
                raise Tooling('masked assignment')
            for k, c in enumerate(m.data):
                if self.decide(c):
                    a.data[k] = v.data[k if v.shape else 0]
            return
        mask = next((s[1] for s in subs if s[0] == 'mask'), None)
        if mask is not None and not self.decide(mask.data[0]):
            return
        shape, src = self.picks(a, subs)
        full = Arr(shape, list(range(len(src))))
        out, shapes = broadcast(full, v)
        if len(shapes[1]) > len(shape) or any(x != y for x, y in zip(out[::-1], shape[::-1]) if x != y and y != 1 and x != 1):
            raise Tooling('shapes do not fit')
        b = Arr(shapes[1], v.data)
        for idx, i in zip(indices(out), src):
            a.data[sum(x * y for x, y in zip(i, st))] = get(b, tuple(0 if d == 1 else k for k, d in zip(idx, shapes[1])))

    # -- expressions ------------------------------------------------------
    def plain(self, v):
        """Python number for a constant scalar."""
        if isinstance(v, Arr) and not v.shape and isinstance(v.data[0], Num):
            c = v.data[0].const()
            if c is not None:
                return int(c) if c.denominator == 1 else c
        if isinstance(v, (list, tuple)):
            return type(v)(self.plain(x) for x in v)
        return v

    def arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, bool):
            return scal(Cond('is', v))
        if isinstance(v, Cond):
            return scal(v)
        if isinstance(v, (int, float, Fraction)):
            return scal(A.number(v) if not isinstance(v, Fraction) else A.num(v))
        if v is UNK:
            return scal(UNK)
        if isinstance(v, (list, tuple)):
            parts = [self.arr(x) for x in v]
            if not parts:
                raise Tooling('empty')
            shape, _ = broadcast(*parts)
            data = []
            for p in parts:
                if p.shape != shape and p.shape != ():
                    raise Tooling('ragged')
                data += p.data if p.shape == shape else p.data * strides(shape)[1]
            return Arr((len(parts),) + shape, data)
        raise Tooling('not an array')

    def ref(self, target):
        r = self.prog.resolve(target)
        if r[0] == 'fn':
            return Ref('fn', r[1])
        if r[0] == 'cls':
            return Ref('cls', r[1])
        if r[0] == 'mod':
            return Ref('mod', r[1])
        if r[0] == 'global':
            m, n = r[1]
            if m.globals.get(n) is not None:
                return self.ev(m.globals[n], {'vars': {}, 'module': m, 'up': None})
            return UNK
        return Ref('ext', target)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e['vars']:
                return e['vars'][name]
            e = e.get('up')
        m = env['module']
        if name in m.functions:
            return Ref('fn', m.functions[name])
        if name in m.classes:
            return Ref('cls', m.classes[name])
        if name in m.imports:
            return self.ref(m.imports[name])
        if name in m.globals and m.globals[name] is not None:
            return self.ev(m.globals[name], {'vars': {}, 'module': m, 'up': None})
        if name in m.global_names:
            return UNK
        return Ref('builtin', name)

    def ev(self, n, env):
        self.tick()
        try:
            return getattr(self, 'e_' + type(n).__name__)(n, env)
        except AttributeError as e:
            if 'e_' + type(n).__name__ in str(e):
                raise Tooling(type(n).__name__)
            raise

    def e_Constant(self, n, env):
        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return scal(A.number(n.value))
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.elements(n, env))

    def e_List(self, n, env):
        return self.elements(n, env)

    def elements(self, n, env):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, env)
                if not isinstance(d, dict):
                    raise Tooling('dict')
                out.update(d)
            else:
                out[self.plain(self.ev(k, env))] = self.ev(v, env)
        return out

    def e_ListComp(self, n, env):
        out = []
        sub = {'vars': {}, 'module': env['module'], 'up': env, 'cls': env.get('cls'), 'self': env.get('self')}

        def go(gens):
            if not gens:
                out.append(self.ev(n.elt, sub))
                return
            g = gens[0]
            for x in self.items(self.ev(g.iter, sub)):
                self.bind(g.target, x, sub)
                if all(self.truth(self.ev(c, sub), c) for c in g.ifs):
                    go(gens[1:])
        go(n.generators)
        return out

    e_GeneratorExp = e_ListComp

    def e_JoinedStr(self, n, env):
        return UNK

    def e_Lambda(self, n, env):
        return Ref('lambda', n, env=env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env), n.test) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.bind(n.target, v, env)
        return v

    def e_Starred(self, n, env):
        raise Tooling('star')

    def e_BoolOp(self, n, env):
        # conditions are kept together so that they are decided as one
        vals = []
        for x in n.values:
            v = self.ev(x, env)
            c = self.condition(v, x)
            if not vals and not (isinstance(v, Cond) or isinstance(v, Arr) and v.data and isinstance(v.data[0], Cond)):
                # "a or b" of values is one of them
                if x is n.values[-1] or self.truth(v, x) is isinstance(n.op, ast.Or):
                    return v
                continue
            if c is None:
                t = self.truth(v, x)
                c = Cond('is', t)
            k = self.known(c)
            if k is (isinstance(n.op, ast.Or)):
                return v if not isinstance(v, (Arr, Cond)) and len(vals) == 0 else scal(c)
            if k is None:
                vals.append(c)
        if not vals:
            return v
        return scal(Cond('and' if isinstance(n.op, ast.And) else 'or', *vals) if len(vals) > 1 else vals[0])

    def condition(self, v, node=None):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Arr) and len(v.data) == 1:
            if isinstance(v.data[0], Cond):
                return v.data[0]
            if isinstance(v.data[0], Num):
                return Cond('not', Cond('cmp', '==', v.data[0]))
        if isinstance(v, bool):
            return Cond('is', v)
        return None

    def negate(self, c):
        return c.t[1] if c.t[0] == 'not' else Cond('is', not c.t[1]) if c.t[0] == 'is' else Cond('not', c)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            c = self.condition(v)
            if c is not None:
                return scal(self.negate(c))
            return not self.truth(v, n.operand)
        if v is UNK:
            return UNK
        a = self.arr(v)
        if isinstance(n.op, ast.USub):
            return elementwise(lambda x: -x, a)
        if isinstance(n.op, ast.UAdd):
            return a
        return elementwise(lambda c: self.negate(self.cond(c)), a)

    def cond(self, x):
        return x if isinstance(x, Cond) else Cond('not', Cond('cmp', '==', x))

    def compare(self, op, x, y):
        if isinstance(x, Cond) or isinstance(y, Cond):
            raise Tooling('comparison of conditions')
        d = x - y
        if op in (ast.Lt, ast.LtE):
            return Cond('cmp', '<' if op is ast.Lt else '<=', d)
        if op in (ast.Gt, ast.GtE):
            return Cond('cmp', '<' if op is ast.Gt else '<=', -d)
        c = Cond('cmp', '==', d)
        return c if op is ast.Eq else Cond('not', c)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        out = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            if isinstance(op, (ast.Is, ast.IsNot)):
                same = left is right or (left is None and right is None)
                if left is UNK or right is UNK:
                    c = UNK
                elif left is None or right is None or isinstance(left, bool):
                    c = same if isinstance(op, ast.Is) else not same
                else:
                    raise Tooling('is')
            elif isinstance(op, (ast.In, ast.NotIn)):
                if isinstance(right, (list, tuple, dict)) and not isinstance(left, Arr):
                    c = (left in right) is isinstance(op, ast.In)
                else:
                    c = UNK
            elif left is UNK or right is UNK:
                c = UNK
            elif isinstance(left, (str, type(None))) or isinstance(right, (str, type(None))):
                c = (left == right) is isinstance(op, ast.Eq) if isinstance(op, (ast.Eq, ast.NotEq)) else UNK
            else:
                try:
                    c = elementwise(lambda x, y: self.compare(type(op), x, y), self.arr(left), self.arr(right), nan=Cond('is', isinstance(op, ast.NotEq)))
                except Tooling:
                    c = UNK
            if out is None:
                out = c
            elif out is UNK or c is UNK:
                out = UNK
            else:
                out = elementwise(lambda x, y: Cond('and', x, y), self.arr(out), self.arr(c))
            left = right
        return out

    def e_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, ast.Mod) and isinstance(a, str):
            return UNK
        if isinstance(n.op, ast.Add) and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return a + b
        if isinstance(n.op, ast.Mult) and isinstance(a, list) and isinstance(self.plain(b), int):
            return a * self.plain(b)
        if a is UNK or b is UNK:
            return UNK
        return self.binop(type(n.op), self.arr(a), self.arr(b))

    def binop(self, op, a, b):
        if op is ast.MatMult:
            return dot(a, b)
        if op in (ast.BitAnd, ast.BitOr):
            return elementwise(lambda x, y: Cond('and' if op is ast.BitAnd else 'or', self.cond(x), self.cond(y)), a, b)
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: self.divide, ast.Pow: self.power}.get(op)
        if f is None:
            f = lambda x, y: A.atom(('f', op.__name__, x.key(), y.key()))
        return elementwise(f, a, b)

    def divide(self, x, y):
        if not y.num:
            return UNK
        return x / y

    def power(self, x, y):
        k = y.const()
        if k == Fraction(1, 2):
            return A.sqrt(x)
        if k is None or k.denominator != 1 or abs(k) > 8:
            raise Tooling('power')
        out = A.UNIT
        for _ in range(abs(int(k))):
            out = out * x
        return out if k >= 0 else A.UNIT / out

    def e_Subscript(self, n, env):
        base = self.ev(n.value, env)
        if base is UNK:
            return UNK
        if isinstance(base, Ref) and base.kind == 'ext':
            if base.what == 'numpy.r_' or base.what == 'numpy.c_':
                raise Tooling('r_')
            return UNK
        if isinstance(base, (list, tuple)):
            if isinstance(n.slice, ast.Slice):
                s = self.subscripts(n.slice, env)[0]
                return base[slice(*s[1:])]
            k = self.plain(self.ev(n.slice, env))
            if not isinstance(k, int):
                raise Tooling('index')
            if not -len(base) <= k < len(base):
                raise Raised(n)
            return base[k]
        if isinstance(base, dict):
            k = self.plain(self.ev(n.slice, env))
            if isinstance(k, Arr) or k is UNK:
                raise Tooling('key')
            if k not in base:
                raise Raised(n)
            return base[k]
        return self.index(self.arr(base), self.subscripts(n.slice, env))

    def e_Attribute(self, n, env):
        b = self.ev(n.value, env)
        return self.attribute(b, n.attr, n)

    def attribute(self, b, attr, n=None):
        if b is UNK:
            return UNK
        if isinstance(b, Ref):
            if b.kind == 'mod':
                return self.ref(b.what.name + '.' + attr)
            if b.kind == 'ext':
                full = b.what + '.' + attr
                if full in ('numpy.pi', 'math.pi'):
                    return scal(A.atom(A.PI))
                if full in ('numpy.nan', 'numpy.NaN', 'math.nan'):
                    return scal(NAN)
                if full in ('numpy.inf', 'math.inf'):
                    return scal(UNK)
                if full == 'numpy.newaxis':
                    return None
                return Ref('ext', full)
            if b.kind == 'finfo':
                return scal(A.num(EPS)) if attr in ('eps', 'resolution', 'tiny') else UNK
            if b.kind == 'super':
                for k in b.what:
                    if attr in k.methods:
                        return Ref('fn', k.methods[attr], bound=b.bound)
                    if attr in k.props:
                        return self.call_fn(k.props[attr]['get'], [b.bound], {})
                return Ref('builtin', 'object.' + attr)
            if b.kind == 'cls':
                m = self.prog.find_method(b.what, attr)
                if m:
                    return Ref('fn', m, bound=b if m.is_classmethod else None)
                for k in self.prog.mro(b.what):
                    if attr in k.attrs:
                        return self.ev(k.attrs[attr], {'vars': {}, 'module': k.module, 'up': None})
            return Ref('attr', (b, attr))
        if isinstance(b, Obj):
            if attr in b.attrs:
                return b.attrs[attr]
            p = self.prog.find_prop(b.cls, attr)
            if p and 'get' in p:
                return self.call_fn(p['get'], [b], {})
            m = self.prog.find_method(b.cls, attr)
            if m:
                return Ref('fn', m, bound=None if m.is_static else Ref('cls', b.cls) if m.is_classmethod else b)
            for k in self.prog.mro(b.cls):
                if attr in k.attrs:
                    return self.ev(k.attrs[attr], {'vars': {}, 'module': k.module, 'up': None})
            if attr == '__class__':
                return Ref('cls', b.cls)
            raise Raised(n)
        if isinstance(b, Arr):
            if attr == 'T':
                return transpose(b)
            if attr in ('real', 'flat'):
                return b
            if attr == 'ndim':
                return scal(A.num(len(b.shape)))
            if attr == 'shape':
                return tuple(scal(A.sym('N') if d == 'N' else A.num(d)) for d in b.shape)
            if attr == 'size':
                if 'N' not in b.shape:
                    return scal(A.num(len(b.data)))
                return UNK
            if attr == 'dtype':
                return Ref('ext', 'dtype')
        return Ref('method', (b, attr))

    # -- calls ------------------------------------------------------------
    def e_Call(self, n, env):
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                args += self.items(self.ev(x.value, env))
            else:
                args.append(self.ev(x, env))
        kws = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Tooling('keywords')
                kws.update(v)
            else:
                kws[k.arg] = v
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.lookup('super', env) is not UNK:
            me = env.get('self')
            cls = args[0].what if args and isinstance(args[0], Ref) and args[0].kind == 'cls' else env.get('cls')
            if not isinstance(me, Obj) or cls is None:
                raise Tooling('super')
            mro = self.prog.mro(me.cls)
            return Ref('super', mro[mro.index(cls) + 1:] if cls in mro else [], bound=me)
        f = self.ev(n.func, env)
        return self.call(f, args, kws, n)

    def call(self, f, args, kws, n=None):
        self.tick()
        if f is UNK:
            return UNK
        if isinstance(f, Ref):
            if f.kind == 'fn':
                return self.call_fn(f.what, ([f.bound] if f.bound is not None else []) + list(args), kws)
            if f.kind in ('def', 'lambda'):
                return self.call_node(f.what, args, kws, f.env['module'], up=f.env, cls=f.env.get('cls'), me=f.env.get('self'))
            if f.kind == 'cls':
                return self.make(f.what, args, kws)
            if f.kind == 'method':
                return self.method(f.what[0], f.what[1], args, kws, n)
            if f.kind in ('ext', 'builtin'):
                return self.library(f.what, args, kws, n)
        if isinstance(f, Obj):
            return self.call(self.attribute(f, '__call__'), args, kws, n)
        return UNK

    def make(self, cls, args, kws):
        o = Obj(cls)
        m = self.prog.find_method(cls, '__init__')
        if m:
            self.call_fn(m, [o] + list(args), kws)
        return o

    def call_fn(self, fn, args, kws):
        if fn.is_generator:
            raise Tooling('generator')
        return self.call_node(fn.node, args, kws, fn.module, cls=fn.cls, me=args[0] if args and isinstance(args[0], Obj) else None, fn=fn)

    def call_node(self, node, args, kws, module, up=None, cls=None, me=None, fn=None):
        self.depth += 1
        if self.depth > 30:
            raise Stop('too deep')
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {'vars': {}, 'module': module, 'up': up, 'cls': cls, 'self': me}
        v = env['vars']
        if len(args) > len(names) and not a.vararg:
            raise Raised(node)
        for p, x in zip(names, args):
            v[p] = x
        if a.vararg:
            v[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, x in kws.items():
            if k in names + [p.arg for p in a.kwonlyargs]:
                if k in v:
                    raise Raised(node)
                v[k] = x
            elif a.kwarg:
                extra[k] = x
            else:
                raise Raised(node)
        if a.kwarg:
            v[a.kwarg.arg] = extra
        outer = up or {'vars': {}, 'module': module, 'up': None}
        for p, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in v:
                v[p] = self.ev(d, outer)
        for p in names + [p.arg for p in a.kwonlyargs]:
            if p not in v:
                raise Raised(node)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            self.block(node.body, env)
            return None
        except Ret as r:
            return r.value
        finally:
            self.depth -= 1

    def method(self, b, name, args, kws, n):
        if isinstance(b, list):
            if name == 'append':
                b.append(args[0])
                return None
            if name == 'extend':
                b.extend(self.items(args[0]))
                return None
        if isinstance(b, dict):
            if name == 'get':
                return b.get(self.plain(args[0]), args[1] if len(args) > 1 else None)
            if name == 'items':
                return [(k, x) for k, x in b.items()]
            if name == 'values':
                return list(b.values())
            if name == 'keys':
                return list(b)
            if name == 'update':
                b.update(args[0] if args else {}, **kws)
                return None
        if isinstance(b, str):
            return UNK
        if isinstance(b, Arr):
            if name in ('copy', 'astype', 'conj', 'squeeze') or name == 'view':
                return Arr(b.shape, b.data) if name != 'squeeze' else Arr([d for d in b.shape if d != 1], b.data)
            if name in ('flatten', 'ravel'):
                if 'N' in b.shape and len(b.shape) > 1:
                    raise Tooling('flatten')
                return b if 'N' in b.shape else Arr((len(b.data),), b.data)
            if name == 'transpose':
                axes = self.plain(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else [self.plain(x) for x in args] or None
                return transpose(b, axes)
            if name == 'item':
                return scal(b.data[0]) if len(b.data) == 1 else UNK
            if name == 'tolist':
                return b
            if name == 'reshape':
                return self.reshape(b, self.plain(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(self.plain(x) for x in args))
            if name == 'fill':
                b.data = [self.arr(args[0]).data[0]] * len(b.data)
                return None
            if name in ('dot', 'sum', 'all', 'any', 'min', 'max', 'prod', 'trace', 'mean', 'clip'):
                return self.library('numpy.' + name, [b] + list(args), kws, n)
        return UNK

    def reshape(self, b, shape):
        if isinstance(shape, int):
            shape = (shape,)
        if 'N' in b.shape:
            if shape in ((-1, 1),) and b.shape == ('N',):
                return Arr(('N', 1), b.data)
            raise Tooling('reshape')
        n = 1
        for d in shape:
            if not isinstance(d, int):
                raise Tooling('reshape')
            n *= d if d != -1 else 1
        shape = tuple(len(b.data) // n if d == -1 else d for d in shape)
        return Arr(shape, b.data)

    def shape_of(self, v):
        v = self.plain(v)
        v = (v,) if not isinstance(v, (tuple, list)) else tuple(v)
        out = []
        for d in v:
            if isinstance(d, int):
                out.append(d)
            elif isinstance(d, Arr) and d.data[0] == A.sym('N'):
                out.append('N')
            else:
                raise Tooling('shape')
        return tuple(out)

    def fill(self, shape, v):
        return Arr(shape, [v] * strides(shape)[1])

    def reduce_axis(self, a, axis, f):
        axis = self.plain(axis)
        if axis is None:
            if 'N' in a.shape:
                raise Tooling('sum over rows')
            out = a.data[0]
            for x in a.data[1:]:
                out = f(out, x)
            return scal(out)
        axis %= len(a.shape)
        if a.shape[axis] == 'N':
            raise Tooling('sum over rows')
        shape = a.shape[:axis] + a.shape[axis + 1:]
        data = []
        for i in indices(shape):
            v = None
            for k in range(a.shape[axis]):
                x = get(a, i[:axis] + (k,) + i[axis:])
                v = x if v is None else f(v, x)
            data.append(v)
        return Arr(shape, data)

    def stack(self, parts, axis):
        parts = [self.arr(p) for p in parts]
        shape, _ = broadcast(*parts)
        parts = [p if p.shape == shape else elementwise(lambda x, y: x, p, self.fill(shape, A.ZERO)) for p in parts]
        n = len(shape) + 1
        axis %= n
        out = shape[:axis] + (len(parts),) + shape[axis:]
        return Arr(out, [get(parts[i[axis]], i[:axis] + i[axis + 1:]) for i in indices(out)])

    def concat(self, parts, axis):
        parts = [self.arr(p) for p in parts]
        n = len(parts[0].shape)
        if any(len(p.shape) != n for p in parts) or n == 0:
            raise Tooling('concatenate')
        axis %= n
        if any(p.shape[axis] == 'N' for p in parts):
            raise Tooling('concatenate rows')
        total = sum(p.shape[axis] for p in parts)
        rest = {p.shape[:axis] + p.shape[axis + 1:] for p in parts}
        if len(rest) > 1:
            raise Tooling('concatenate')
        out = parts[0].shape[:axis] + (total,) + parts[0].shape[axis + 1:]
        data = []
        for i in indices(out):
            k, j = i[axis], 0
            while k >= parts[j].shape[axis]:
                k -= parts[j].shape[axis]
                j += 1
            data.append(get(parts[j], i[:axis] + (k,) + i[axis + 1:]))
        return Arr(out, data)

    def library(self, name, args, kws, n):
        short = name.split('.')[-1]
        if name.startswith(('numpy.', 'math.')):
            return self.numpy(name, short, args, kws, n)
        if name == 'logging' or name.startswith('logging.') or short in ('print', 'warn'):
            return None
        if short in ('float', 'int'):
            v = args[0] if args else None
            if v is None:
                raise Raised(n)
            if isinstance(v, str) or v is UNK:
                return UNK
            v = self.arr(v)
            if short == 'int' and v.data[0] is not UNK and isinstance(v.data[0], Num):
                c = v.data[0].const()
                if c is not None:
                    return scal(A.num(int(c)))
            return v
        if short == 'bool':
            return self.truth(args[0], n)
        if short == 'str':
            return UNK
        if short == 'isinstance':
            v, t = args[0], args[1] if len(args) > 1 else UNK
            names = {x.what.split('.')[-1] if isinstance(x, Ref) and isinstance(x.what, str) else '?' for x in (t if isinstance(t, tuple) else (t,))}
            if v is UNK or '?' in names:
                return UNK
            if isinstance(v, (list, tuple)):
                return bool(names & {type(v).__name__, 'Iterable', 'Sequence', 'Sized'})
            if v is None or isinstance(v, (str, dict)):
                return type(v).__name__ in names
            if isinstance(v, Arr):
                if v.shape:
                    return bool(names & {'ndarray', 'Iterable', 'Sized'})
                if names & {'list', 'tuple', 'ndarray', 'Iterable', 'Sized', 'str', 'dict', 'Sequence'} and not names & {'float', 'int', 'floating', 'Number', 'Real'}:
                    return False
                return True
            return UNK
        if short == 'len':
            if isinstance(args[0], (list, tuple, dict)):
                return scal(A.num(len(args[0])))
            if isinstance(args[0], Arr) and args[0].shape:
                return scal(A.sym('N') if args[0].shape[0] == 'N' else A.num(args[0].shape[0]))
            return UNK
        if short in ('list', 'tuple'):
            v = self.items(args[0]) if args else []
            return v if short == 'list' else tuple(v)
        if short == 'dict':
            return dict(args[0] if args else {}, **kws)
        if short == 'range':
            k = [self.plain(x) for x in args]
            if all(isinstance(x, int) for x in k):
                return range(*k)
            raise Tooling('range')
        if short == 'zip':
            return [tuple(x) for x in zip(*[self.items(a) for a in args])]
        if short == 'enumerate':
            return [(scal(A.num(i)), x) for i, x in enumerate(self.items(args[0]))]
        if short == 'reversed':
            return self.items(args[0])[::-1]
        if short == 'abs':
            return elementwise(A.absolute, self.arr(args[0]))
        if short == 'sum':
            out = scal(A.ZERO)
            for x in self.items(args[0]):
                out = self.binop(ast.Add, self.arr(out), self.arr(x))
            return out
        if short in ('min', 'max'):
            xs = self.items(args[0]) if len(args) == 1 else list(args)
            best = xs[0]
            for x in xs[1:]:
                a, b = self.arr(best), self.arr(x)
                if not isinstance(a.data[0], Num) or not isinstance(b.data[0], Num):
                    return UNK
                if self.decide(Cond('cmp', '<', b.data[0] - a.data[0])) is (short == 'min'):
                    best = x
            return best
        if short in ('getattr',):
            if len(args) > 1 and isinstance(args[1], str):
                return self.attribute(args[0], args[1], n)
        if short == 'map':
            return [self.call(args[0], [x], {}, n) for x in self.items(args[1])]
        return UNK

    def numpy(self, name, short, args, kws, n):
        if any(a is UNK for a in args) and short not in ('array', 'asarray', 'column_stack', 'finfo', 'any', 'all'):
            return UNK
        one = {'cos': lambda x: A.sincos(x)[1], 'sin': lambda x: A.sincos(x)[0], 'sqrt': A.sqrt, 'square': lambda x: x * x, 'abs': A.absolute, 'absolute': A.absolute, 'fabs': A.absolute,
               'arcsin': A.arcsin, 'asin': A.arcsin, 'arccos': A.arccos, 'acos': A.arccos, 'arctan': A.arctan, 'atan': A.arctan, 'negative': lambda x: -x, 'nan_to_num': lambda x: x,
               'float64': lambda x: x, 'float_': lambda x: x, 'tan': lambda x: A.sincos(x)[0] / A.sincos(x)[1],
               'deg2rad': lambda x: x * A.atom(A.PI) / A.num(180), 'radians': lambda x: x * A.atom(A.PI) / A.num(180),
               'isnan': lambda x: Cond('is', False), 'isfinite': lambda x: Cond('is', True), 'logical_not': lambda c: self.negate(self.cond(c))}.get(short)
        if one and args:
            if 'where' in kws:
                raise Tooling('where')
            nan = {'isnan': Cond('is', True), 'isfinite': Cond('is', False), 'nan_to_num': A.ZERO}.get(short, NAN)
            return elementwise(one, self.arr(args[0]), nan=nan)
        two = {'arctan2': A.arctan2, 'atan2': A.arctan2, 'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y, 'divide': self.divide, 'true_divide': self.divide,
               'hypot': lambda x, y: A.sqrt(x * x + y * y), 'power': self.power,
               'logical_and': lambda x, y: Cond('and', self.cond(x), self.cond(y)), 'logical_or': lambda x, y: Cond('or', self.cond(x), self.cond(y)),
               'less': lambda x, y: self.compare(ast.Lt, x, y), 'less_equal': lambda x, y: self.compare(ast.LtE, x, y), 'greater': lambda x, y: self.compare(ast.Gt, x, y),
               'greater_equal': lambda x, y: self.compare(ast.GtE, x, y), 'equal': lambda x, y: self.compare(ast.Eq, x, y), 'not_equal': lambda x, y: self.compare(ast.NotEq, x, y),
               'isclose': lambda x, y: self.compare(ast.Eq, x, y)}.get(short)
        if two and len(args) >= 2:
            if 'where' in kws or 'out' in kws:
                raise Tooling('where')
            nan = Cond('is', short == 'not_equal') if short in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'isclose') else NAN
            return elementwise(two, self.arr(args[0]), self.arr(args[1]), nan=nan)
        if short == 'allclose':
            c = elementwise(lambda x, y: self.compare(ast.Eq, x, y), self.arr(args[0]), self.arr(args[1]), nan=Cond('is', False))
            if any(x is UNK for x in c.data):
                return UNK
            return scal(Cond('and', *c.data))
        if short in ('any', 'all'):
            if args and args[0] is UNK:
                return UNK
            a = elementwise(lambda x: self.cond(x), self.arr(args[0]))
            if kws or len(args) > 1 or any(x is UNK for x in a.data):
                return UNK
            if len(a.data) == 1:
                c = a.data[0]
            else:
                c = Cond('and' if short == 'all' else 'or', *a.data)
            if 'N' not in a.shape:
                return scal(c)
            k = self.known(c)
            return scal(Cond('is', k) if k is not None else Cond('free', (short, c.key()), c, short == 'all'))
        if short in ('array', 'asarray', 'asfarray', 'ascontiguousarray', 'atleast_1d', 'copy', 'array_like'):
            if args[0] is UNK:
                return UNK
            a = self.arr(args[0])
            if short == 'atleast_1d' and not a.shape:
                return Arr((1,), a.data)
            return Arr(a.shape, a.data)
        if short == 'atleast_2d':
            a = self.arr(args[0])
            return Arr((1,) * (2 - len(a.shape)) + a.shape, a.data)
        if short in ('eye', 'identity'):
            k = [self.plain(x) for x in args[:2]]
            if len(args) > 2 and self.plain(args[2]) != 0 or 'k' in kws:
                raise Tooling('eye')
            if not all(isinstance(x, int) for x in k):
                raise Tooling('eye')
            return eye(*k)
        if short in ('zeros', 'ones', 'empty'):
            return self.fill(self.shape_of(args[0] if args else kws['shape']), {'zeros': A.ZERO, 'ones': A.UNIT, 'empty': UNK}[short])
        if short == 'full':
            v = args[1] if len(args) > 1 else kws.get('fill_value')
            return self.fill(self.shape_of(args[0] if args else kws['shape']), self.arr(v).data[0])
        if short in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
            a = self.arr(args[0] if args else kws['a'])
            v = args[1] if len(args) > 1 and short == 'full_like' else kws.get('fill_value')
            return self.fill(a.shape, {'zeros_like': A.ZERO, 'ones_like': A.UNIT, 'empty_like': UNK}[short] if short != 'full_like' else self.arr(v).data[0])
        if short in ('dot', 'matmul', 'inner'):
            a, b = self.arr(args[0]), self.arr(args[1])
            return dot(a, transpose(b) if short == 'inner' and len(b.shape) == 2 else b)
        if short == 'multi_dot':
            xs = [self.arr(x) for x in self.items(args[0])]
            out = xs[0]
            for x in xs[1:]:
                out = dot(out, x)
            return out
        if name == 'numpy.linalg.inv':
            return inverse(self.arr(args[0]))
        if name == 'numpy.linalg.det':
            return scal(det(self.arr(args[0])))
        if name == 'numpy.linalg.norm':
            a = self.arr(args[0])
            s = self.reduce_axis(elementwise(lambda x: x * x, a), kws.get('axis', args[2] if len(args) > 2 else None), add)
            if len(args) > 1 and args[1] is not None or kws.get('ord') is not None:
                raise Tooling('norm')
            return elementwise(A.sqrt, s)
        if short in ('transpose', 'swapaxes'):
            a = self.arr(args[0])
            if short == 'swapaxes':
                ax = list(range(len(a.shape)))
                i, j = self.plain(args[1]), self.plain(args[2])
                ax[i], ax[j] = ax[j], ax[i]
                return transpose(a, ax)
            return transpose(a, self.plain(args[1]) if len(args) > 1 else self.plain(kws['axes']) if 'axes' in kws else None)
        if short == 'cross':
            a, b = self.arr(args[0]), self.arr(args[1])
            if a.shape[-1] != 3 or b.shape[-1] != 3:
                raise Tooling('cross')
            c = lambda x, i: self.index(x, [('all',), ('int', i)])
            m = lambda i, j: elementwise(lambda p, q, r, s: p * q - r * s, c(a, i), c(b, j), c(a, j), c(b, i))
            return self.stack([m(1, 2), m(2, 0), m(0, 1)], -1)
        if short == 'outer':
            a, b = self.arr(args[0]), self.arr(args[1])
            return Arr(a.shape + b.shape, [mul(x, y) for x in a.data for y in b.data])
        if short in ('column_stack', 'vstack', 'stack', 'hstack', 'concatenate', 'row_stack', 'dstack'):
            if args[0] is UNK:
                return UNK
            xs = [self.arr(x) for x in self.items(args[0])]
            axis = self.plain(args[1] if len(args) > 1 else kws.get('axis', scal(A.ZERO)))
            if short == 'stack':
                return self.stack(xs, axis)
            if short == 'column_stack':
                xs = [Arr(x.shape + (1,), x.data) if len(x.shape) == 1 else Arr((1, 1), x.data) if not x.shape else x for x in xs]
                rows = {x.shape[0] for x in xs}
                if len(rows) > 1:
                    raise Tooling('column_stack')
                return self.concat(xs, 1)
            if short in ('vstack', 'row_stack'):
                xs = [Arr((1,) + x.shape, x.data) if len(x.shape) == 1 else Arr((1, 1), x.data) if not x.shape else x for x in xs]
                return self.concat(xs, 0)
            if short == 'hstack':
                return self.concat(xs, 0 if len(xs[0].shape) == 1 else 1)
            if short == 'concatenate':
                return self.concat(xs, axis)
            raise Tooling(short)
        if short in ('sum', 'prod', 'nansum'):
            return self.reduce_axis(self.arr(args[0]), kws.get('axis', args[1] if len(args) > 1 else None), add if short != 'prod' else mul)
        if short == 'trace':
            a = self.arr(args[0])
            out = A.ZERO
            for i in range(min(a.shape)):
                out = add(out, get(a, (i, i)))
            return scal(out)
        if short == 'diag':
            a = self.arr(args[0])
            if len(a.shape) == 1:
                k = a.shape[0]
                return Arr((k, k), [a.data[i] if i == j else A.ZERO for i in range(k) for j in range(k)])
            return Arr((min(a.shape),), [get(a, (i, i)) for i in range(min(a.shape))])
        if short == 'where':
            if len(args) == 3:
                return self.choose(*[self.arr(x) for x in args])
            raise Tooling('where')
        if short == 'clip':
            lo, hi = self.plain(args[1] if len(args) > 1 else kws.get('a_min', kws.get('min'))), self.plain(args[2] if len(args) > 2 else kws.get('a_max', kws.get('max')))
            if (lo, hi) == (-1, 1):
                return self.arr(args[0])
            raise Tooling('clip')
        if short == 'finfo':
            return Ref('finfo', 'finfo')
        if short == 'einsum':
            return self.einsum(args)
        if short in ('mod', 'fmod', 'remainder', 'floor', 'ceil', 'rint', 'round', 'around', 'sign', 'floor_divide', 'exp', 'log'):
            return elementwise(lambda *xs: A.atom(('f', short) + tuple(x.key() for x in xs)), *[self.arr(a) for a in args])
        if short in ('squeeze', 'ravel', 'reshape'):
            return self.method(self.arr(args[0]), short, args[1:], kws, n)
        if short in ('amin', 'amax', 'min', 'max', 'nanmin', 'nanmax'):
            a = self.arr(args[0])
            if 'N' in a.shape or len(args) > 1 or kws:
                return UNK
            return self.library(short[-3:], [[scal(x) for x in a.data]], {}, n)
        if short in ('maximum', 'minimum'):
            return elementwise(lambda x, y: (x if self.decide(Cond('cmp', '<', x - y)) is (short == 'minimum') else y), self.arr(args[0]), self.arr(args[1]))
        return UNK

    def choose(self, *arrs):
        """numpy.where(c, x, y): only the element the condition picks counts, whatever the other one is."""
        shape, shapes = broadcast(*arrs)
        arrs = [Arr(s, a.data) for a, s in zip(arrs, shapes)]
        data = []
        for idx in indices(shape):
            c, x, y = [get(a, tuple(0 if d == 1 else i for i, d in zip(idx, a.shape))) for a in arrs]
            data.append(UNK if c is UNK or c is NAN else x if self.decide(self.cond(c)) else y)
        return Arr(shape, data)

    def einsum(self, args):
        spec = args[0]
        if not isinstance(spec, str) or '->' not in spec or '.' in spec:
            raise Tooling('einsum')
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        ops = [self.arr(a) for a in args[1:]]
        dim = {}
        for t, a in zip(ins, ops):
            for l, d in zip(t, a.shape):
                dim[l] = d
        inner = [l for l in dim if l not in out]
        if any(dim[l] == 'N' for l in inner):
            raise Tooling('einsum')
        shape = tuple(dim[l] for l in out)
        data = []
        for i in indices(shape):
            v = A.ZERO
            for j in indices(tuple(dim[l] for l in inner)):
                at = dict(zip(out, i))
                at.update(zip(inner, j))
                p = A.UNIT
                for t, a in zip(ins, ops):
                    p = mul(p, get(a, tuple(at[l] for l in t)))
                v = add(v, p)
            data.append(v)
        return Arr(shape, data)


def flat(op, cs):
    for c in cs:
        if c.t[0] == op:
            for x in flat(op, c.t[1:]):
                yield x
        else:
            yield c
