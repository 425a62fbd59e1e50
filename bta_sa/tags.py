"""Dimension tags of values: axis (x, y, z), rotation (alpha, beta, gamma), frame (local, global) and kind (hit, track).

Tags come from names (columns, variables, parameters, attributes) and from the contracts of the coordinate conversions.  A function is
interpreted once, forwards, with every value abstracted to its tags; sequences and arrays with components keep one value per component.
A clash is reported where a tagged value meets a name, parameter, operand or position of another tag of the same dimension.
"""
import ast
import re

from .loader import dotted, AnalysisError

EVEN = ('square', 'abs', 'absolute', 'fabs', 'hypot', 'norm')
DIMS = ('axis', 'rot', 'frame', 'kind')
AXIS = {'x': 'x', 'y': 'y', 'z': 'z', 'column': 'x', 'columns': 'x', 'col': 'x', 'cols': 'x', 'row': 'y', 'rows': 'y'}
ROT = {'alpha': 'alpha', 'beta': 'beta', 'gamma': 'gamma'}
FRAME = {'local': 'local', 'global': 'global'}
SPLIT = re.compile(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+|\d+')


class V(object):
    """tags per dimension and, for sequences and component arrays, the values of the components."""
    __slots__ = ('t', 'seq')

    def __init__(self, t=None, seq=None):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.seq = seq

    def get(self, d):
        return self.t.get(d)

    def with_(self, **kw):
        t = dict(self.t)
        t.update(kw)
        return V(t, self.seq)

    def without(self, *ds):
        return V({k: v for k, v in self.t.items() if k not in ds}, self.seq)

    def __eq__(self, o):
        return isinstance(o, V) and self.t == o.t and self.seq == o.seq

    def __repr__(self):
        return 'V(%s%s)' % (','.join(sorted(self.t.values())), '' if self.seq is None else ' ' + repr(self.seq))


NONE = V()


def merge(a, b):
    """Value of one of two alternatives."""
    if a is b:
        return a
    t = {d: a.t[d] for d in a.t if b.t.get(d) == a.t[d]}
    seq = None
    if a.seq is not None and b.seq is not None and len(a.seq) == len(b.seq):
        seq = [merge(x, y) for x, y in zip(a.seq, b.seq)]
    return V(t, seq)


MIXED = '*'


def join(a, b, product=False):
    """Result of an elementwise operation; a mixture of axes (a scalar product) stays one in sums and is a plain factor in products."""
    t = {}
    for d in set(a.t) | set(b.t):
        x, y = a.t.get(d), b.t.get(d)
        if product and (MIXED in (x, y) or 'x*y' in (x, y)):
            t[d] = MIXED if x == y or 'x*y' in (x, y) else y if x == MIXED else x
        elif x is None or y is None or x == y:
            t[d] = x or y
        elif product and {x, y} == {'x', 'y'}:
            t[d] = 'x*y'
        else:
            t[d] = MIXED
    seq = None
    if a.seq is not None and (b.seq is None or len(a.seq) == len(b.seq)):
        seq = [join(x, y, product) for x, y in zip(a.seq, b.seq or [b] * len(a.seq))]
    elif b.seq is not None and a.seq is None:
        seq = [join(a, y, product) for y in b.seq]
    return V(t, seq)


def named(v, n):
    """Value v under a name that says n."""
    t = dict(v.t)
    t.update(n.t)
    seq = v.seq if v.seq is not None else n.seq
    if v.seq is not None and n.seq is not None and len(v.seq) == len(n.seq):
        seq = [named(x, y) for x, y in zip(v.seq, n.seq)]
    elif v.seq is not None:
        low = {d: n.t[d] for d in ('frame', 'kind', 'side') if n.t.get(d)}
        if low:
            seq = [V(dict(x.t, **low), x.seq) for x in v.seq]
    return V(t, seq)


def tokens(name):
    return [x.lower() for x in SPLIT.findall(name)]


def name_tags(name):
    """Tags said by an identifier or column name."""
    toks = tokens(name)
    t = {}
    # "along the z axis" says where, not which component
    ax = {AXIS[k] for i, k in enumerate(toks) if k in AXIS and toks[i + 1:i + 2] not in (['axis'], ['direction'], ['axes'])}
    if len(ax) == 1:
        t['axis'] = ax.pop()
    ro = {ROT[k] for k in toks if k in ROT}
    if len(ro) == 1:
        t['rot'] = ro.pop()
    fr = {FRAME[k] for k in toks if k in FRAME}
    if len(fr) == 1:
        t['frame'] = fr.pop()
    return t


class Config(object):
    """What is project knowledge: pairs, contracts, columns."""

    def __init__(self, pairs=(), contracts=None, columns=None, names=None, elementwise=(), reducers=(), skip_names=(), exempt=(), triples=(), lists=(), sixes=(), unnamed=()):
        self.pairs, self.contracts, self.columns = set(pairs), contracts or {}, columns
        self.names = names
        self.elementwise, self.reducers = set(elementwise), set(reducers)
        self.skip_names = set(skip_names)      # (function, variable): carries no tags
        self.sixes, self.unnamed = set(sixes), set(unnamed)      # x, y, z and then their errors; (function, called): the name of a variable that ever holds the result of that call says nothing
        self.triples, self.lists = set(triples), set(lists)      # x, y, z in the last index; lists of pairs or triples
        self.exempt = set(exempt)              # (function, rule)


def aspect(a, b):
    """two elements of one pair against each other: the shape of an area"""
    def base(e):
        while isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div)) and isinstance(e.right, ast.Constant):
            e = e.left
        return (ast.dump(e.value), e.slice.value) if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) else (None, None)
    (x, i), (y, j) = base(a), base(b)
    return x is not None and x == y and i != j and {i, j} == {0, 1}


def stored(e):
    """the column an expression reads, for naming a place independently of the variables around it"""
    while isinstance(e, ast.Call) and e.args:
        e = e.args[0]
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return 'column %s' % e.slice.value
    return None


class Tagger(object):
    def __init__(self, prog, cfg, fn, dims=DIMS, report=None):
        calls = {c for f, c in cfg.unnamed if f == fn.name}
        self.unnamed = {t.id for s in ast.walk(fn.node) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in calls
                        for t in s.targets if isinstance(t, ast.Name)} if calls else set()
        self.prog, self.cfg, self.fn, self.dims = prog, cfg, fn, dims
        self.report = report
        self.met = set()                  # places where two tagged values meet
        self.returns = None
        self.bare = coordinates(fn)       # x, y, z are coordinates here
        self.sided = {'ref', 'dut'} <= set(fn.all_params) or {'ref_index', 'dut_index'} <= {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)}
        self.curve = not self.bare and {'x', 'y'} <= set(fn.all_params)      # samples and values of a curve
        self.consts = {}

    # ------------------------------------------------------------------ names
    def tags_of(self, name):
        if self.opaque(name):
            return {}
        t = name_tags(name)
        if self.curve or len(name) == 1 and not self.bare:
            t.pop('axis', None)
        if self.cfg.names:
            t = self.cfg.names(name, t, self.fn)
        return t

    def opaque(self, name):
        return (self.fn.name, name) in self.cfg.skip_names

    def name_value(self, name):
        v = self.name_value_(name)
        return V(dict(v.t, sq='sq'), v.seq) if 'square' in name or 'chi2' in name else v

    def name_value_(self, name):
        if self.opaque(name):
            return NONE
        t = self.tags_of(name)
        if name in self.cfg.pairs or name.lstrip('_') in self.cfg.pairs:
            return V(t, [V(dict(t, axis='x')), V(dict(t, axis='y'))])
        if name in self.unnamed:
            return NONE
        if name in self.cfg.sixes:
            return V(t, [V(dict(t, axis=a)) for a in 'xyzxyz'])
        if name in self.cfg.triples:
            return V(t, [V(dict(t, axis=a)) for a in 'xyz'])
        return V(t)

    def column(self, text):
        t = name_tags(text)
        if self.cfg.columns:
            t = self.cfg.columns(text, t, self.fn)
        return V(t)

    # ------------------------------------------------------------------ reports
    def sign(self, e):
        if id(e) not in self.even and not self.only_even(e):
            self.clash('sign', e, ast.unparse(e), 'hit - track', 'track - hit', 'kind')

    def only_even(self, e):
        """The difference is named, and only its square or absolute value is used."""
        names = [n.targets[0].id for n in ast.walk(self.fn.node) if isinstance(n, ast.Assign) and n.value is e and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)]
        if not names:
            return False
        even, uses = set(), []
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Call):
                f = (dotted(n.func) or '').split('.')[-1]
                if f in EVEN or f in ('einsum', 'dot', 'multiply') and len({ast.dump(x) for x in n.args[-2:]}) == 1:
                    even |= {id(y) for x in n.args for y in self.inside(x)}
            elif isinstance(n, ast.BinOp) and (isinstance(n.op, ast.Pow) or isinstance(n.op, ast.Mult) and ast.dump(n.left) == ast.dump(n.right)):
                even |= {id(y) for x in (n.left, n.right) for y in self.inside(x)}
            if isinstance(n, ast.Name) and n.id == names[0] and isinstance(n.ctx, ast.Load):
                uses.append(n)
        return bool(uses) and all(id(n) in even for n in uses)

    @staticmethod
    def inside(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return [x]

    def clash(self, rule, node, what, a, b, dim):
        if self.report and dim in self.dims and (self.fn.name, rule) not in self.cfg.exempt:
            self.report(self.fn, rule, node, what, a, b, dim)

    def meets(self, rule, node, what, want, have):
        """A value with the tags `have` is used where `want` is said."""
        for d in self.dims:
            x, y = want.t.get(d), have.t.get(d)
            if x and y:
                self.met.add((rule, id(node), what, d))
            if x and y and x != y and MIXED not in (x, y):
                self.clash(rule, node, what, x, y, d)
        if want.seq is not None and have.seq is not None and len(want.seq) == len(have.seq):
            for x, y in zip(want.seq, have.seq):
                self.meets(rule, node, what, x, y)

    # ------------------------------------------------------------------ expressions
    def text_of(self, e):
        """Literal text of a column name, None if it is no text."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mod, ast.Add)):
            a = self.text_of(e.left)
            if a is None:
                return None
            if isinstance(e.op, ast.Mod):
                xs = iter(e.right.elts if isinstance(e.right, ast.Tuple) else [e.right])
                return re.sub(r'%[0-9.]*[a-z]', lambda m: self.text_of(next(xs, None)) or '0', a)
            b = self.text_of(e.right)
            return a + (b or '0')
        if isinstance(e, ast.JoinedStr):
            return ''.join(v.value if isinstance(v, ast.Constant) else '0' for v in e.values)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            a = self.text_of(e.func.value)
            return re.sub(r'\{[^}]*\}', '0', a) if a is not None else None
        if isinstance(e, ast.Name):
            return self.strings.get(e.id)
        if isinstance(e, ast.IfExp):
            k = self.const_test(e.test)
            return None if k is None else self.text_of(e.body if k else e.orelse)
        return None

    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NONE

    def ev_Constant(self, e, env):
        return NONE

    def ev_Name(self, e, env):
        if self.opaque(e.id):
            return NONE
        v = env.get(e.id)
        n = self.name_value(e.id)
        if v is None:
            return n
        return named(v, n)

    def ev_Attribute(self, e, env):
        b = self.ev(e.value, env)
        if e.attr == 'T':
            return b.without('axis') if b.seq is None else V(b.t)
        if isinstance(e.value, ast.Attribute) and e.value.attr == 'attrs':
            n = self.name_value(e.attr)
            return n if n.t.get('axis') else V(dict(b.t, **n.t), n.seq)
        if e.attr == 'attrs':
            return V(b.t)
        if e.attr in ('shape', 'size', 'dtype', 'ndim', 'name', 'nrows', 'colnames', 'names'):
            return NONE
        v = self.name_value(e.attr)
        if b.t.get('side'):
            v = V(dict(v.t, side=b.t['side']), v.seq)
        return V(dict(v.t, dut=b.t['dut']), v.seq) if b.t.get('dut') and e.attr.startswith(('translation_', 'rotation_', 'column_size', 'row_size', 'n_columns', 'n_rows', 'pixel_size')) else v

    def ev_Subscript(self, e, env):
        b = self.ev(e.value, env)
        text = None if isinstance(e.slice, ast.Slice) else self.text_of(e.slice)
        if text is not None:
            v = self.column(text)
            if b.t.get('side'):
                v = V(dict(v.t, side=b.t['side']), v.seq)
            own = self.owner(e.slice) if 'dut' in self.dims else None
            return V(dict(v.t, dut=own)) if own else v
        if 'dut' in self.dims and dotted(e.value) and dotted(e.value).split('.')[-1].endswith('telescope'):
            self.ev(e.slice, env)
            own = self.canonical(e.slice)
            side = own.split('_')[0] if own and own.endswith('_index') and 'side' in self.dims else None
            return V({'dut': own, 'side': side if side in ('ref', 'dut') and self.sided else None})
        i = e.slice
        if isinstance(i, ast.Tuple):
            for x in i.elts:
                if not isinstance(x, ast.Slice):
                    self.ev(x, env)
            last = self.const_index(i.elts[-1])
            if b.seq is not None and isinstance(last, ast.Constant) and isinstance(last.value, int) and len(i.elts) > 1:
                return b.seq[last.value] if -len(b.seq) <= last.value < len(b.seq) else NONE
            if b.seq is not None and isinstance(last, ast.Slice) and self.whole(last):
                return b
            if b.seq is not None and (not isinstance(last, ast.Constant) or last.value is None):
                return V(b.t)
            return V(b.t)
        if isinstance(i, ast.Slice):
            for x in (i.lower, i.upper):
                if x is not None:
                    self.ev(x, env)
            return b if self.whole(i) or b.seq is None else V(b.t)
        i = self.const_index(i)
        k = i.value if isinstance(i, ast.Constant) else None
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant):
            k = -i.operand.value
        if isinstance(e.value, (ast.Name, ast.Attribute)) and dotted(e.value) and self.is_list(dotted(e.value).split('.')[-1], env):
            return b
        if isinstance(k, int) and not isinstance(k, bool):
            if b.seq is not None:
                return b.seq[k] if -len(b.seq) <= k < len(b.seq) else NONE
            return b
        self.ev(i, env)
        # rows of the array, items of the list
        return b

    def is_list(self, name, env):
        return name in self.cfg.lists

    @staticmethod
    def whole(s):
        return s.lower is None and s.upper is None

    def ev_Tuple(self, e, env):
        vs = [self.ev(x.value if isinstance(x, ast.Starred) else x, env) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            if len(e.elts) == 1:
                return vs[0]
            return NONE
        if len(vs) > 1:
            if id(e) not in self.unordered:
                self.order(e, vs)
            t = {}
            for d in self.dims:
                s = {v.t.get(d) for v in vs}
                if len(s) == 1 and None not in s:
                    t[d] = s.pop()
            return V(t, vs)
        return V({}, vs) if vs else NONE

    ev_List = ev_Tuple

    def order(self, e, vs):
        """Components are given in the order x, y, z."""
        ax = [v.t.get('axis') for v in vs]
        if 'axis' in self.dims and 2 <= len(ax) <= 3 and all(ax) and '*' not in ''.join(ax) and len(set(ax)) == len(ax):
            if ax != sorted(ax):
                self.clash('order', e, ast.unparse(e), 'x, y, z', ', '.join(ax), 'axis')
        ro = [v.t.get('rot') for v in vs]
        if 'rot' in self.dims and len(ro) == 3 and all(ro) and MIXED not in ro and len(set(ro)) == 3:
            if ro != sorted(ro):
                self.clash('order', e, ast.unparse(e), 'alpha, beta, gamma', ', '.join(ro), 'rot')

    def const_test(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.const_test(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Name) and t.id in self.consts:
            return bool(self.consts[t.id])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in self.consts and isinstance(t.comparators[0], ast.Constant):
            a, b = self.consts[t.left.id], t.comparators[0].value
            if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return a == b
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                return a != b
        return None

    def const_index(self, i):
        return ast.Constant(value=self.consts[i.id]) if isinstance(i, ast.Name) and isinstance(self.consts.get(i.id), int) else i

    @staticmethod
    def direction(t):
        """Axes of the two branches of a test for the x or y direction."""
        neg = False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg, t = not neg, t.operand
        if not isinstance(t, ast.Name) or tokens(t.id) not in (['x', 'direction'], ['y', 'direction'], ['is', 'x'], ['is', 'y']):
            return None
        first = 'x' if 'x' in tokens(t.id) else 'y'
        other = 'y' if first == 'x' else 'x'
        return (other, first) if neg else (first, other)

    def ev_IfExp(self, e, env):
        d = self.direction(e.test)
        k = self.const_test(e.test)
        if k is not None and not d:
            return self.ev(e.body if k else e.orelse, env)
        self.ev(e.test, env)
        if d:
            a, b = [self.column(x.value) if isinstance(x, ast.Constant) and isinstance(x.value, str) else self.ev(x, env) for x in (e.body, e.orelse)]
            self.meets('direction', e, ast.unparse(e), V({'axis': d[0]}), V(a.t))
            self.meets('direction', e, ast.unparse(e), V({'axis': d[1]}), V(b.t))
            if k is not None:
                return a if k else b
        return self.alt(self.ev(e.body, env), self.ev(e.orelse, env), e.body, e.orelse)

    def alt(self, a, b, x, y):
        if isinstance(x, ast.Constant):
            return b
        if isinstance(y, ast.Constant):
            return a
        return merge(a, b)

    def ev_BoolOp(self, e, env):
        vs = [self.ev(x, env) for x in e.values]
        out = vs[0]
        for v in vs[1:]:
            out = merge(out, v)
        return out

    def ev_UnaryOp(self, e, env):
        if isinstance(e.op, ast.USub):
            self.even.add(id(e.operand))
        return self.ev(e.operand, env)

    def ev_Compare(self, e, env):
        prev = self.ev(e.left, env)
        out = prev
        pe = e.left
        for op, c in zip(e.ops, e.comparators):
            v = self.ev(c, env)
            if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) and not aspect(pe, c):
                self.operands('compare', e, prev, v, pe, c)
            out = join(out, v)
            prev, pe = v, c
        return NONE

    def operands(self, rule, e, a, b, x=None, y=None):
        for d in ('axis', 'rot', 'frame', 'side'):
            p, q = a.t.get(d), b.t.get(d)
            if p and q and d in self.dims:
                self.met.add((rule, id(e), d))
            if p and q and p != q and d in self.dims and '*' not in p + q:
                self.clash(rule, e, ast.unparse(e), p, q, d)
        if a.seq is not None and b.seq is not None and len(a.seq) == len(b.seq):
            for p, q in zip(a.seq, b.seq):
                self.operands(rule, e, p, q)

    def ev_BinOp(self, e, env):
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            self.ev(e.right, env)
            return NONE
        if isinstance(e.op, ast.Pow) or isinstance(e.op, ast.Mult) and ast.dump(e.left) == ast.dump(e.right):
            self.even |= {id(e.left), id(e.right)}
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Sub):
            self.operands('subtract', e, a, b)
            ka, kb = a.t.get('kind'), b.t.get('kind')
            if {ka, kb} == {'hit', 'track'}:
                self.met.add(('sign', id(e)))
            if ka == 'track' and kb == 'hit':
                self.sign(e)
            out = join(a, b)
            if ka and kb:
                out = V({k: v for k, v in out.t.items() if k != 'kind'}, out.seq)
            if a.seq is not None and b.seq is not None and len(a.seq) == len(b.seq):
                for p, q in zip(a.seq, b.seq):
                    if p.t.get('kind') == 'track' and q.t.get('kind') == 'hit':
                        self.sign(e)
                out = V(out.t, [x.without('kind') for x in out.seq])
            return out
        if isinstance(e.op, (ast.Mult, ast.Div, ast.FloorDiv)):
            if isinstance(e.op, ast.Mult) and isinstance(e.left, (ast.List, ast.Tuple, ast.ListComp)):
                return a if a.seq is None else V(a.t)
            if isinstance(e.op, ast.Mult) and isinstance(e.right, (ast.List, ast.Tuple, ast.ListComp)):
                return b if b.seq is None else V(b.t)
            if isinstance(e.op, (ast.Div, ast.FloorDiv)) and {a.t.get('axis'), b.t.get('axis')} == {'x', 'y'}:
                self.operands('divide', e, V({'axis': a.t['axis']}), V({'axis': b.t['axis']}))
            out = join(a, b, True)
            return out.without('kind', 'sq') if not (a.t.get('sq') and b.t.get('sq')) else out.without('kind')
        if isinstance(e.op, ast.Add) and isinstance(e.left, (ast.List, ast.Tuple)) and isinstance(e.right, (ast.List, ast.Tuple)) and a.seq is not None and b.seq is not None:
            return V({}, list(a.seq) + list(b.seq))
        if isinstance(e.op, ast.MatMult):
            return NONE
        if isinstance(e.op, ast.Pow):
            return V(dict(a.t, sq='sq'), a.seq)
        if isinstance(e.op, ast.Add) and not (a.t.get('sq') or b.t.get('sq') or all(isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) for x in (e.left, e.right))):
            self.operands('add', e, a, b)
        return join(a, b)

    def ev_Call(self, e, env):
        f = dotted(e.func) or ''
        name = f.split('.')[-1]
        if not name and isinstance(e.func, ast.Attribute):
            name = e.func.attr
        recv = self.ev(e.func.value, env) if isinstance(e.func, ast.Attribute) and not (f.split('.')[0] in ('np', 'numpy', 'os', 'math', 'logging', 'tb', 'plt', 'stats')) else NONE
        if name in EVEN:
            self.even |= {id(x) for x in e.args}
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if v.seq is not None:
                    args += v.seq
                else:
                    args = None
                    break
            else:
                args.append(self.ev(x, env))
        if name in ('histogram2d', 'binned_statistic_2d', 'histogramdd', 'binned_statistic_dd'):
            # compared with the samples instead
            self.unordered |= {id(x) for k in e.keywords for x in ast.walk(k.value)}
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        if 'dut' in self.dims:
            self.one_transformation(e, name, recv, kws)
        con = self.cfg.contracts.get(name)
        if con is not None:
            params, ret = con
            # a transformation of something else than the receiver, like the telescope in the beam
            own = recv.t.get('dut') or (dotted(e.func.value) if isinstance(e.func, ast.Attribute) else None)
            ext = any(k.arg and k.arg.startswith(('translation_', 'rotation_')) and isinstance(k.value, ast.Attribute) and dotted(k.value.value) != dotted(e.func.value)
                      and not (kws[k.arg].t.get('dut') and kws[k.arg].t.get('dut') == own) for k in e.keywords) if isinstance(e.func, ast.Attribute) else False
            if ext:
                params = [p and (p[0], p[1].without('frame')) for p in params]
            if args is not None:
                for p, v in zip(params, args):
                    if p is not None and p[1] is not None:
                        self.meets('argument', e, '%s(%s)' % (name, p[0]), p[1], v)
            for k, v in kws.items():
                for p in params:
                    if p is not None and p[0] == k and p[1] is not None:
                        self.meets('argument', e, '%s(%s)' % (name, k), p[1], v)
            rest = {p[0] for p in params if p}
            self.keywords(e, name, {k: v for k, v in kws.items() if k not in rest}, True)
            if 'line_origins' in rest:
                own = {v.t['dut'] for k, v in kws.items() if k.startswith(('translation_', 'rotation_')) and v.t.get('dut')}
                if len(own) != 1 or not ret.seq:
                    return ret
                d = own.pop()
                return V(dict(ret.t, dut=d), [V(dict(x.t, dut=d)) for x in ret.seq])
            return self.converted(e, name, recv, params, args or [], kws, ret, ext) if ret.seq else ret
        if name == 'get_node' and args is not None:
            for x in e.args + [k.value for k in e.keywords]:
                text = self.text_of(x)
                if text is not None:
                    return V(self.column(text).t)
            return NONE
        if name in self.cfg.contracts.get('passthrough', {}):
            i, k = self.cfg.contracts['passthrough'][name]
            return V(args[i].t) if args is not None and len(args) > i else kws.get(k, NONE)
        callee = self.resolve(e)
        if callee is None:
            self.keywords(e, name, {k: v for k, v in kws.items() if len(k) > 1})
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and recv.t.get('axis') and args and name in ('evaluate', 'fill', 'pdf'):
                self.meets('argument', e, '%s.%s' % (e.func.value.id, name), V(recv.t), V(args[0].t))
        if callee is not None:
            two = {AXIS[p] for p in callee.all_params for p in tokens(p) if p in AXIS}
            rot = {ROT[p] for p in callee.all_params for p in tokens(p) if p in ROT}
            ps = callee.params[1:] if callee.cls is not None and not callee.is_static else callee.params
            sub = Tagger(self.prog, self.cfg, callee)
            wants = {p: sub.name_value(p) for p in callee.all_params}
            if not coordinates(callee):
                wants = {p: NONE if len(p) == 1 else v for p, v in wants.items()}
            if len(two) < 2:
                wants = {p: V({d: t for d, t in v.t.items() if d != 'axis'}, None) for p, v in wants.items()}
            if len(rot) < 2:
                wants = {p: v.without('rot') for p, v in wants.items()}
            if args is not None:
                for p, v in zip(ps, args):
                    self.meets('argument', e, '%s(%s)' % (name, p), wants[p], v)
            for k, v in kws.items():
                if k in wants:
                    self.meets('argument', e, '%s(%s)' % (name, k), wants[k], v)
            if name in ('x_extent', 'y_extent', 'z_extent'):
                g = [k.value for k in e.keywords if k.arg == 'global_position']
                fr = None
                if not g and not e.args:
                    fr = 'local'
                elif g and isinstance(g[0], ast.Constant):
                    fr = 'global' if g[0].value else 'local'
                return V({'axis': name[0], 'frame': fr, 'side': recv.t.get('side')})
            r = self.summary(callee)
            if r is not None:
                return r
            return V(self.tags_of(name)) if len({t for t in tokens(name)} & set(AXIS)) and name.split('_')[0] in ('x', 'y', 'z') else NONE
        if name in ('histogram2d', 'binned_statistic_2d') and args is not None:
            pair = [args[i] if i < len(args) else kws.get(k, NONE) for i, k in ((0, 'x'), (1, 'y'))]
            for k in ('bins', 'range'):
                v = kws.get(k)
                if v is not None and v.seq is not None and len(v.seq) == 2:
                    for p, q in zip(pair, v.seq):
                        self.operands('histogram', e, V(p.t), V(q.t))
            v = kws.get('values', args[2] if len(args) > 2 and name != 'histogram2d' else NONE)
            return V({}, [V(v.t).without('frame', 'kind'), NONE, NONE, NONE]) if name != 'histogram2d' else NONE
        if name == 'binned_statistic' and args is not None:
            v = kws.get('values', args[1] if len(args) > 1 else NONE)
            x = kws.get('x', args[0] if args else NONE)
            for k in ('bins', 'range'):
                if k in kws and kws[k].seq is None:
                    self.operands('histogram', e, V(x.t), V(kws[k].t))
            return V({}, [V(v.t).without('frame', 'kind'), V({'axis': x.t.get('axis')}), NONE])
        if name in ('histogram', 'digitize', 'searchsorted') and args:
            for v in list(args[1:2]) + [kws[k] for k in ('bins', 'range') if k in kws]:
                if v.seq is None or name == 'digitize':
                    self.operands('histogram', e, V(args[0].t), V(v.t))
            return V({}, [V({'axis': args[0].t.get('axis')}), V({'axis': args[0].t.get('axis')})]) if name == 'histogram' else NONE
        if name in ('column_stack', 'array', 'asarray', 'row_stack', 'stack', 'hstack', 'vstack', 'concatenate', 'list', 'tuple', 'dstack') and args:
            v = args[0]
            if name in ('hstack', 'concatenate') and v.seq is not None:
                for p, q in zip(v.seq, v.seq[1:]):
                    self.operands('joined', e, p, q)
                out = v.seq[0]
                for q in v.seq[1:]:
                    out = join(out, q)
                return out
            return v
        if name in self.cfg.elementwise:
            vs = (args or []) + [v for k, v in kws.items() if k in ('a', 'x', 'start', 'stop')]
            if not vs and isinstance(e.func, ast.Attribute):
                vs = [recv]
            if isinstance(e.func, ast.Attribute) and recv is not NONE and recv.t:
                vs = [recv]
            if name == 'where':
                return merge(vs[1], vs[2]) if len(vs) == 3 else NONE
            if name in ('logical_and', 'logical_or', 'hypot'):
                return join(vs[0], vs[1]) if len(vs) > 1 else NONE
            if name in ('subtract',) and len(vs) == 2:
                self.operands('subtract', e, vs[0], vs[1])
                if vs[0].t.get('kind') == 'track' and vs[1].t.get('kind') == 'hit':
                    self.sign(e)
                return join(vs[0], vs[1]).without('kind')
            if name in ('min', 'max', 'minimum', 'maximum', 'append', 'linspace', 'arange', 'clip', 'isclose', 'allclose'):
                out = vs[0] if vs else NONE
                for v in vs[1:]:
                    self.operands('compare', e, out, v)
                    out = join(out, v)
                if len(vs) == 1 and out.seq is not None:
                    out = V(out.t)
                return V(out.t)
            if name == 'sqrt' and vs:
                return vs[0].without('sq')
            if name == 'square' and vs:
                return V(dict(vs[0].t, sq='sq'), vs[0].seq)
            return vs[0] if vs else NONE
        if name in self.cfg.reducers:
            return V(args[0].t) if args else V(recv.t) if recv.t else NONE
        return NONE

    def one_transformation(self, e, name, recv, kws):
        own = {v.t['dut'] for k, v in kws.items() if k.startswith(('translation_', 'rotation_')) and v.t.get('dut')}
        own |= {v.t['dut'] for k, v in kws.items() if k in ('x', 'y', 'z', 'alpha', 'beta', 'gamma') and name.endswith('_matrix') and v.t.get('dut')}
        if own:
            self.met.add(('transformation', id(e)))
        if len(own) > 1:
            self.clash('transformation', e, name, *(sorted(own)[:2] + ['dut']))
        elif own and recv.t.get('dut') and name.endswith(('_position', '_index')) and recv.t['dut'] not in own:
            self.clash('transformation', e, name, recv.t['dut'], own.pop(), 'dut')

    def converted(self, e, name, recv, params, args, kws, ret, ext):
        """Result of a conversion: kind of what is converted; it belongs to the DUT of the transformation."""
        names = [p[0] for p in params if p]
        vs = [v for v in args[:len(names)]] + [v for k, v in kws.items() if k in names]
        kinds = {v.t.get('kind') for v in vs}
        if 'kind' in self.dims and 'direction' in kinds and kinds & {'hit', 'track'}:
            self.clash('vector', e, name, 'direction', 'position', 'kind')
        kind = kinds.pop() if len(kinds) == 1 else None
        if 'kind' in self.dims and name in ('local_to_global_position', 'global_to_local_position') and kind:
            zero = [k.arg for k in e.keywords if k.arg in ('translation_x', 'translation_y', 'translation_z') and isinstance(k.value, ast.Constant) and k.value.value == 0]
            shifted = [k.arg for k in e.keywords if k.arg in ('translation_x', 'translation_y', 'translation_z')]
            self.met.add(('vector', id(e)))
            if kind == 'direction' and len(zero) < 3:
                self.clash('vector', e, name, 'position', 'direction', 'kind')
            elif kind in ('hit', 'track') and shifted and len(zero) == 3:
                self.clash('vector', e, name, 'direction', 'position', 'kind')
        if 'dut' in self.dims and recv.t.get('dut') and not ext:
            for v in vs:
                if v.t.get('dut') and (name != 'global_to_local_position' or v.t.get('kind') == 'track'):
                    self.met.add(('owner', id(e)))
                    if v.t['dut'] != recv.t['dut']:
                        self.clash('owner', e, name, recv.t['dut'], v.t['dut'], 'dut')
        if 'side' in self.dims and recv.t.get('side'):
            for v in vs:
                if v.t.get('side'):
                    self.met.add(('owner', id(e)))
                    if v.t['side'] != recv.t['side']:
                        self.clash('owner', e, name, recv.t['side'], v.t['side'], 'side')
        extra = {}
        if recv.t.get('side'):
            extra['side'] = recv.t['side']
        if kind:
            extra['kind'] = kind
        own = recv.t.get('dut') if name.startswith('global_to') else vs[0].t.get('dut') if vs else None
        if own:
            extra['dut'] = own
        return V(dict(ret.t, **extra), [V(dict(x.t, **extra)) for x in ret.seq]) if extra else ret

    # ------------------------------------------------------------------ DUTs
    def canonical(self, e):
        if isinstance(e, ast.Name):
            return self.alias.get(e.id, e.id)
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return str(e.value)
        if isinstance(e, ast.Call) and dotted(e.func) in ('int', 'str') and len(e.args) == 1:
            return self.canonical(e.args[0])
        if isinstance(e, ast.Subscript) and isinstance(e.value, (ast.Name, ast.Attribute)):
            i = e.slice.operand if isinstance(e.slice, ast.UnaryOp) else e.slice
            if isinstance(i, ast.Constant) and isinstance(i.value, int):
                return ast.unparse(e)
        return None

    def owner(self, e):
        """DUT number in a column name."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            m = re.search(r'dut_(\d+)$', e.value)
            return m and m.group(1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            ps = [m.start() for m in re.finditer(r'%[ds]', e.left.value)]
            xs = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            for p, x in zip(ps, xs):
                if e.left.value[:p].endswith('dut_') and len(ps) == len(xs):
                    return self.canonical(x)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and str(e.func.value.value).endswith('dut_{}') and e.args:
            return self.canonical(e.args[-1])
        if isinstance(e, ast.JoinedStr) and len(e.values) >= 2 and isinstance(e.values[-1], ast.FormattedValue) and isinstance(e.values[-2], ast.Constant) and str(e.values[-2].value).endswith('dut_'):
            return self.canonical(e.values[-1].value)
        if isinstance(e, ast.Name):
            return self.owners.get(e.id)
        return None

    def keywords(self, e, name, kws, axis=True):
        for k, v in kws.items():
            w = self.name_value(k)
            self.meets('argument', e, '%s(%s)' % (name, k), w, v)

    # ------------------------------------------------------------------ calls of package functions
    def resolve(self, e):
        f = e.func
        if isinstance(f, ast.Name):
            if f.id in self.local_fns:
                return self.local_fns[f.id]
            if f.id in self.fn.module.functions:
                return self.fn.module.functions[f.id]
            r = self.prog.resolve_in_module(self.fn.module, f.id)
            return r[1] if r and r[0] == 'fn' else None
        d = dotted(f)
        if d:
            r = self.prog.resolve_in_module(self.fn.module, d)
            if r and r[0] == 'fn':
                return r[1]
        if isinstance(f, ast.Attribute) and f.attr in ('x_extent', 'y_extent', 'z_extent'):
            return next((m for c in self.prog.classes.values() for k, m in c.methods.items() if k == f.attr), None)
        return None

    def summary(self, fn):
        memo = self.prog.__dict__.setdefault('_tag_summaries', {})
        k = (fn.qual, id(self.cfg))
        if k in memo:
            return memo[k]
        memo[k] = None
        if fn.is_generator:
            return None
        sub = Tagger(self.prog, self.cfg, fn, self.dims, None)
        sub.run()
        memo[k] = sub.returns
        return sub.returns

    # ------------------------------------------------------------------ statements
    def run(self):
        node = self.fn.node
        self.strings = {}
        self.unordered = set()
        self.even = set()
        self.alias, self.owners = {}, {}
        cnt = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                cnt[n.id] = cnt.get(n.id, 0) + 1
        self.local_fns = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and cnt.get(n.targets[0].id) == 1:
                s = self.text_of(n.value)
                if s is not None:
                    self.strings[n.targets[0].id] = s
        for q, f in self.prog.fns.items():
            if f.parent is self.fn and f.name != '<lambda>':
                self.local_fns[f.name] = f
        env = {}
        self.block(node.body if isinstance(node.body, list) else [ast.Return(node.body)], env)
        return self

    def bind(self, t, v, env, node, src=None):
        if isinstance(t, ast.Starred):
            return
        if src is None and isinstance(node, ast.Assign):
            src = node.value
        if isinstance(t, (ast.Tuple, ast.List)):
            if v.seq is not None and len(v.seq) == len(t.elts):
                srcs = src.elts if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) else [None] * len(t.elts)
                for x, y, z in zip(t.elts, v.seq, srcs):
                    self.bind(x, y, env, node, z)
            else:
                for x in t.elts:
                    self.bind(x, NONE, env, node)
            return
        if isinstance(t, ast.Name):
            self.meets('assign', node, stored(src) or t.id, self.name_value(t.id), v)
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            w = self.ev_Attribute(t, env)
            self.meets('assign', node, t.attr, w, v)
        elif isinstance(t, ast.Subscript):
            w = self.ev(t, env)
            self.meets('assign', node, ast.unparse(t), w, v)
            if isinstance(t.value, ast.Name):
                b = env.get(t.value.id)
                k = t.slice.elts[-1] if isinstance(t.slice, ast.Tuple) else None
                if isinstance(k, ast.Constant) and isinstance(k.value, int) and 0 <= k.value <= 5 and (b is None or b.seq is None or k.value < 6):
                    seq = list(b.seq) if b is not None and b.seq is not None else []
                    while len(seq) <= k.value:
                        seq.append(NONE)
                    if seq[k.value] == NONE:
                        seq[k.value] = v
                    env[t.value.id] = V(b.t if b is not None else {}, seq)
                elif b is None and not isinstance(t.slice, ast.Constant):
                    env[t.value.id] = V(v.t, v.seq)

    def block(self, stmts, env):
        for s in stmts:
            if self.stmt(s, env) == 'end':
                return 'end'

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.alias.pop(x.id, None)
                        self.owners.pop(x.id, None)
                        if isinstance(t, ast.Name) and isinstance(s.value, ast.Name):
                            self.alias[t.id] = self.canonical(s.value)
                        if isinstance(t, ast.Name) and self.owner(s.value):
                            self.owners[t.id] = self.owner(s.value)
                self.bind(t, v, env, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            a, b = self.ev(ast.copy_location(loaded(s.target), s.target), env), self.ev(s.value, env)
            if isinstance(s.op, (ast.Sub, ast.Add)):
                self.operands('subtract' if isinstance(s.op, ast.Sub) else 'add', s, a, V(b.t, b.seq))
                if isinstance(s.op, ast.Sub) and a.t.get('kind') == 'track' and b.t.get('kind') == 'hit':
                    self.sign(s)
            if isinstance(s.target, ast.Name):
                o = join(a, b, isinstance(s.op, (ast.Mult, ast.Div)))
                env[s.target.id] = o.without('sq') if isinstance(s.op, (ast.Mult, ast.Div)) else o
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value, env)
                self.returns = v if self.returns is None else merge(self.returns, v)
                w = self.tags_of(self.fn.name)
                self.meets('return', s, self.fn.name, V(w), V(v.t))
                con = self.cfg.contracts.get(self.fn.name)
                if con is not None and self.fn.cls is not None:
                    self.meets('return', s, self.fn.name, con[1], v)
            return 'end'
        elif isinstance(s, ast.Raise):
            return 'end'
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') and isinstance(c.func.value, ast.Name) and len(c.args) == 1:
                v = self.ev(c.args[0], env)
                n = c.func.value.id
                self.meets('append', s, n, V(self.tags_of(n)), V(v.t))
                old = env.get(n)
                env[n] = v if old is None or old == NONE else merge(old, v)
        elif isinstance(s, ast.If):
            k = self.const_test(s.test)
            if k is not None:
                return self.block(s.body if k else s.orelse, env)
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            ra, rb = self.block(s.body, a), self.block(s.orelse, b)
            if ra == 'end' and rb == 'end':
                return 'end'
            if ra == 'end':
                a = b
            elif rb == 'end':
                b = a
            env.clear()
            for k in set(a) | set(b):
                if k in a and k in b:
                    env[k] = self.alt2(a[k], b[k])
                else:
                    env[k] = a.get(k) or b.get(k)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s, env)
        elif isinstance(s, ast.While):
            self.ev(s.test, env)
            for _ in range(2):
                self.again(s.body, env)
            self.block(s.orelse, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, NONE, env, s)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            before = dict(env)
            self.block(s.body, env)
            for h in s.handlers:
                e2 = dict(before)
                if self.block(h.body, e2) != 'end':
                    for k in set(env) & set(e2):
                        env[k] = merge(env[k], e2[k])
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)

    def alt2(self, a, b):
        return merge(a, b) if a is not b else a

    def again(self, body, env):
        e2 = dict(env)
        self.block(body, e2)
        for k in set(env) | set(e2):
            if k in env and k in e2:
                env[k] = merge(env[k], e2[k]) if env[k] is not e2[k] and env[k] != NONE else e2[k]
            else:
                env[k] = env.get(k) or e2.get(k)

    def loop(self, s, env):
        it = s.iter
        lits = None
        enum = isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and len(it.args) == 1 and not it.keywords and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 \
            and all(isinstance(x, ast.Name) for x in s.target.elts) and isinstance(it.args[0], (ast.Tuple, ast.List)) and 0 < len(it.args[0].elts) <= 8
        if enum:
            i, t = s.target.elts
            texts = [self.text_of(x) for x in it.args[0].elts]
            for d in ('axis', 'rot'):
                ts = [y for y in (self.column(x).t.get(d) for x in texts if x is not None) if y]
                if len(set(ts)) == len(ts) and ts != sorted(ts):
                    self.clash('order', s, ast.unparse(it), ', '.join(sorted(ts)), ', '.join(ts), d)
            for n, x in enumerate(it.args[0].elts):
                self.consts[i.id] = n
                if texts[n] is not None:
                    self.strings[t.id] = texts[n]
                self.bind(t, self.ev(x, env), env, s)
                self.block(s.body, env)
                self.strings.pop(t.id, None)
            self.consts.pop(i.id, None)
            self.block(s.orelse, env)
            return
        if isinstance(it, (ast.Tuple, ast.List)) and 0 < len(it.elts) <= 8:
            lits = it.elts
        if lits is not None:
            for x in lits:
                if isinstance(s.target, ast.Name):
                    t = self.text_of(x)
                    if t is not None:
                        self.strings[s.target.id] = t
                self.bind(s.target, self.ev(x, env), env, s)
                if isinstance(s.target, ast.Name) and isinstance(x, ast.Constant):
                    self.consts[s.target.id] = x.value
                # the values of the previous round are alternatives only where this round does not set them
                self.block(s.body, env)
                if isinstance(s.target, ast.Name):
                    self.strings.pop(s.target.id, None)
                    self.consts.pop(s.target.id, None)
            self.block(s.orelse, env)
            return
        f = dotted(it.func) if isinstance(it, ast.Call) else None
        if f == 'enumerate' and it.args:
            v = self.ev(it.args[0], env)
            w = self.item(it.args[0], v, env)
            d = dotted(it.args[0])
            if 'dut' in self.dims and d and d.split('.')[-1].endswith('telescope') and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                w = V({'dut': s.target.elts[0].id})
            self.bind(s.target, V({}, [NONE, w]), env, s)
        elif f == 'zip':
            self.bind(s.target, V({}, [self.item(x, self.ev(x, env), env) for x in it.args]), env, s)
        elif f == 'range':
            self.ev(it, env)
            self.bind(s.target, NONE, env, s)
        else:
            v = self.ev(it, env)
            self.bind(s.target, self.item(it, v, env), env, s)
        self.again(s.body, env)
        self.again(s.body, env)
        self.block(s.orelse, env)


    def item(self, x, v, env):
        d = dotted(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
        return v if d and self.is_list(d.split('.')[-1], env) else V(v.t)

    # comprehensions
    def comp(self, e, env):
        env = dict(env)
        for g in e.generators:
            v = self.ev(g.iter, env)
            if isinstance(g.iter, ast.Call) and dotted(g.iter.func) == 'zip':
                self.bind(g.target, V({}, [V(self.ev(x, env).t) for x in g.iter.args]), env, e)
            elif isinstance(g.iter, ast.Call) and dotted(g.iter.func) == 'enumerate' and g.iter.args:
                self.bind(g.target, V({}, [NONE, V(self.ev(g.iter.args[0], env).t)]), env, e)
            else:
                self.bind(g.target, V(v.t), env, e)
            for c in g.ifs:
                self.ev(c, env)
        v = self.ev(e.elt, env)
        return v if v.seq is not None else V(v.t)

    ev_ListComp = ev_GeneratorExp = ev_SetComp = comp

    def ev_Lambda(self, e, env):
        return NONE

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env, e)
        return v


def coordinates(fn):
    """Whether parameters called x, y are the coordinates of a point and not the samples of a curve."""
    ps = {AXIS[p] for p in fn.all_params if p in AXIS}
    return len(ps) == 3 or (len(ps) == 2 and (fn.cls is not None or 'column' in fn.all_params))


def loaded(t):
    from .loader import clone
    x = clone(t)
    for n in ast.walk(x):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return x
