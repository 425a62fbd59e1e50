"""Index kinds: every integer that is used as an index is a DUT number or a position in a particular list; every container is indexed by one of the two.

Classes of positions: 'D' (the number of a DUT in the telescope) and 'P:name' (position in the list of that name).  Lists that are required to be
as long as another one, made from it element by element or filled once per element share its class.
"""
import ast
import re

from .loader import dotted, pos

D = 'D'
DUTLIST = re.compile(r'^(\w*_)?duts$|^(\w*_)?dut_indices(_mod)?$')
DUTNUM = re.compile(r'^(\w*_)?(dut_index|index_dut|dut_idx|dut_number|dut_id)$|^(select_reference_dut|ref_index|reference_dut|actual_dut_index)$')
PLANES = re.compile(r'^(\w*_)?(telescope|dut_planes|telescope_duts)$')
TEMPLATE = re.compile(r'(?i)dut[_ ]?%[ds]$')
KEEP = 'abs absolute square sqrt float int round rint ceil floor isfinite isnan logical_not float64 array asarray nan_to_num ma masked_invalid copy deepcopy list tuple zeros_like ones_like full_like empty_like asarray masked_array ascontiguousarray str'.split()
KEEP_M = 'copy astype filled'.split()
FRESH = 'zeros ones empty full'.split()


class I(object):
    """Integer (or string/DUT made from it): cls is its class, off a known displacement, stale a loop variable after its loop."""
    def __init__(self, cls=None, off=0, stale=False, text=None):
        self.cls, self.off, self.stale, self.text = cls, off, stale, text

    def key(self):
        return ('I', self.cls, self.off, self.stale)


class A(object):
    """Container: axes are the classes of its indices, elem what it holds."""
    def __init__(self, axes, elem=None, name=None, empty=False):
        self.axes, self.elem, self.name, self.empty = list(axes), elem, name, empty

    def key(self):
        return ('A', tuple(self.axes), self.elem.key() if self.elem is not None else None, self.empty)


class N(object):
    """Number of entries of a class."""
    def __init__(self, cls):
        self.cls = cls

    def key(self):
        return ('N', self.cls)


class T(object):
    def __init__(self, items, more=False):
        self.items, self.more = items, more

    def key(self):
        return ('T', tuple(x.key() if x is not None else None for x in self.items))


class O(object):
    """A DUT object."""
    cls = None

    def key(self):
        return ('O',)


DUT = O()


ARRAYS = {'track_hits': [None, D, None]}


def same(a, b):
    return (a.key() if a is not None else None) == (b.key() if b is not None else None)


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class Slots(object):
    def __init__(self, prog, fn, entry=None, report=None, closure=None):
        self.prog, self.fn, self.report = prog, fn, report
        self.uf, self.anchored = {}, set()
        self.env = {}
        self.closure = closure or {}
        self.loops = []            # (class, statements of the body, targets)
        self.uses = {}             # container class without known meaning -> kind -> [(node, text)]
        self.calls = {}            # callee -> [ {param: value} ]
        self.rets = []
        self.met = set()
        self.n_loop = 0
        self.created = {}          # list variable -> (depth of loops at creation)
        self.entry = entry or {}
        self.quiet = 0

    # ------------------------------------------------------------------ classes
    def find(self, c):
        while c in self.uf:
            c = self.uf[c]
        return c

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b or a is None or b is None:
            return
        if a == D:
            a, b = b, a
        self.uf[a] = b
        if a in self.anchored:
            self.anchored.add(b)

    def known(self, c):
        c = self.find(c)
        return c == D or c in self.anchored

    def fresh(self, node, anchored=False):
        c = 'P:@%d:%d' % (node.lineno, node.col_offset)
        if anchored:
            self.anchored.add(c)
        return c

    def cls_name(self, name, elem=None):
        c = 'P:' + name
        if isinstance(elem, O) or isinstance(elem, I) and elem.cls is not None and self.find(elem.cls) == D:
            self.anchored.add(self.find(c))
        return c

    # ------------------------------------------------------------------ names
    def by_name(self, n):
        if PLANES.match(n):
            return A([D], DUT, n)
        if DUTLIST.match(n):
            e = I(D)
            return A([self.cls_name(n, e)], e, n)
        if n == 'n_duts':
            return N(D)
        if DUTNUM.match(n):
            return I(D)
        return None

    def lookup(self, n):
        if n in self.env:
            return self.env[n]
        if n in self.closure:
            return self.closure[n]
        return None

    def is_list(self, n, v):
        return isinstance(v, I) and bool(DUTLIST.match(n)) and not PLANES.match(n) and self.find(v.cls) == D

    # ------------------------------------------------------------------ entry
    def run(self):
        node = self.fn.node
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        for p in self.fn.all_params:
            v = self.entry.get(p)
            if v is None or self.is_list(p, v):
                v = self.by_name(p)
            if v is None and p in ARRAYS:
                v = A(ARRAYS[p], None, p)
            if v is None and p not in ('self', 'cls'):
                v = A(['P:' + p], None, p)
            self.env[p] = v
            if isinstance(v, A):
                v.name = p
        for p, c in self.entry.items():        # position classes handed in by all callers
            self.mark(c)
        self.validations(body)
        self.quiet = 1
        saved = dict(self.env)
        self.block(body)
        self.quiet = 0
        self.env = saved
        self.uses.clear()
        self.rets = []
        self.calls = {}
        self.created = {}
        self.block(body)
        self.mixed()
        return self

    def mark(self, v):
        if isinstance(v, A):
            for c in v.axes:
                if c and c.endswith('!'):
                    self.anchored.add(c)
            self.mark(v.elem)
        if isinstance(v, I) and v.cls and v.cls.endswith('!'):
            self.anchored.add(v.cls)

    def validations(self, body):
        """if len(a) != len(b): raise   (or n_duts) joins the classes of a and b."""
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body):
                    for t in ast.walk(n.test):
                        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                            self.joined(t.left, t.comparators[0])
                if isinstance(n, ast.Assert) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.Eq):
                    self.joined(n.test.left, n.test.comparators[0])

    def joined(self, a, b):
        a, b = self.length_name(a), self.length_name(b)
        if a and b:
            self.union(a, b)

    def length_name(self, e):
        if isinstance(e, ast.Call) and dotted(e.func) == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
            n = e.args[0].id
            return D if PLANES.match(n) else self.named_class(n)
        if isinstance(e, ast.Name) and e.id == 'n_duts':
            return D
        return None

    def named_class(self, n):
        v = self.env.get(n)
        if isinstance(v, A) and v.axes:
            return v.axes[0]
        return self.cls_name(n, I(D) if DUTLIST.match(n) else None)

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            self.stmt(s, body)

    def stmt(self, s, body):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            if not isinstance(s.target, ast.Name):
                self.ev(s.target)
            elif isinstance(self.lookup(s.target.id), I):
                self.env[s.target.id] = I(None)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            before = dict(self.env)
            self.loops.append((None, s.body, set()))
            self.block(s.body)
            self.loops.pop()
            self.merge(before)
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            before = dict(self.env)
            self.block(s.body)
            then = self.env
            self.env = before
            self.block(s.orelse)
            ends = lambda b: b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if ends(s.body):
                pass
            elif ends(s.orelse):
                self.env = then
            else:
                self.merge(then)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            after = dict(self.env)
            for h in s.handlers:
                self.block(h.body)
                self.merge(after)
                after = dict(self.env)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.rets.append(self.ev(s.value))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.ev(t)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            pass
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(n)

    def merge(self, other):
        out = {}
        for n in set(self.env) | set(other):
            v = self.join(self.env[n], other[n]) if n in self.env and n in other else self.env.get(n, other.get(n))
            if v is None and n in self.env and n in other and DUTLIST.match(n):
                v = self.by_name(n)
            if isinstance(v, A):
                if v.elem is None and DUTLIST.match(n) and not PLANES.match(n):
                    v = A(v.axes, I(D), n)
                if v.axes and v.axes[0] is None and (self.elems_known(v.elem) or self.sized(self.env.get(n)) and self.sized(other.get(n))):
                    v = A([self.cls_name(n, v.elem)] + v.axes[1:], v.elem, n)
            out[n] = v
        self.env = out

    def sized(self, v):
        return isinstance(v, A) and bool(v.axes) and v.axes[0] is not None

    def join(self, a, b):
        if a is None or b is None or same(a, b):
            return a if same(a, b) else None
        if isinstance(a, A) and isinstance(b, A):
            if a.empty or b.empty:
                return b if a.empty else a
            if len(a.axes) != len(b.axes):
                return A([self.axis(a.axes[0], b.axes[0], a, b)] if a.axes and b.axes else [], None, a.name)
            return A([self.axis(x, y, a, b) for x, y in zip(a.axes, b.axes)], self.join(a.elem, b.elem), a.name)
        if isinstance(a, I) and isinstance(b, I):
            if self.find(a.cls) == self.find(b.cls) and a.off == b.off:
                return I(a.cls, a.off, a.stale or b.stale)
            return I(None)
        if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
            return T([self.join(x, y) for x, y in zip(a.items, b.items)])
        return None

    def axis(self, x, y, a, b):
        if self.find(x) == self.find(y):
            return x
        # list(range(n_duts)) as the default of a list of DUT numbers: position and number coincide there
        for p, q, o in ((x, y, a), (y, x, b)):
            if p == D and isinstance(o.elem, I) and self.find(o.elem.cls) == D:
                return q
        return None

    def bind(self, t, v, value=None):
        if isinstance(t, ast.Name):
            n = t.id
            if self.is_list(n, v):
                v = self.by_name(n)
            if isinstance(v, A):
                v = A(v.axes, v.elem, n)
                if v.axes and v.axes[0] is None and self.elems_known(v.elem):
                    v.axes[0] = self.cls_name(n, v.elem)
            if v is None:
                w = self.by_name(n)
                v = w if isinstance(w, (A, N)) or isinstance(w, I) and not isinstance(value, ast.BinOp) else None
                if isinstance(value, ast.Constant):
                    v = N(None) if isinstance(w, N) else None if not isinstance(w, I) else I(D)
            if isinstance(value, ast.List) and not value.elts:
                v = A([None], None, n, True)
            self.created[n] = len(self.loops)
            self.env[n] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                w = None
                if isinstance(v, T) and (len(v.items) == len(t.elts) or v.more and len(v.items) > len(t.elts)):
                    w = v.items[i]
                self.bind(x.value if isinstance(x, ast.Starred) else x, w)
        elif isinstance(t, ast.Subscript):
            self.ev(t)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)

    def elems_known(self, e):
        return isinstance(e, O) or isinstance(e, I) and self.find(e.cls) == D

    # ------------------------------------------------------------------ loops
    def elements(self, it):
        """(class of the loop, value of one element) for an iterable expression."""
        f = it.func if isinstance(it, ast.Call) else None
        d = dotted(f) if f is not None else None
        if d in ('tqdm', 'reversed', 'iter', 'list', 'tuple') and it.args:
            c, e = self.elements(it.args[0])
            return (None if d == 'reversed' else c), e
        if d == 'enumerate' and it.args:
            src = it.args[0]
            start = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == 'start'), None)
            start = start.value if isinstance(start, ast.Constant) else 0 if start is None else None
            c, e = self.elements(src)
            k = self.cut(src)
            off = 0 if c is None else None if k is None or start is None else start - k
            return c, T([I(c if off is not None else None, off or 0), e])
        if d == 'zip':
            parts = [self.elements(a) for a in it.args if not isinstance(a, ast.Starred)]
            cs = [c for c, _ in parts if c is not None]
            for (c, _), a in zip(parts, it.args):
                b = next((x for x in cs if self.known(x)), None)
                if c is not None and b is not None:
                    self.meet('zip', a, ast.unparse(a), b, c)
            return (cs[0] if cs else None), T([e for _, e in parts])
        if d in ('range', 'np.arange', 'xrange', 'numpy.arange') and it.args:
            n = self.ev(it.args[-1] if len(it.args) < 3 else it.args[1])
            for a in it.args[:-1]:
                self.ev(a)
            if isinstance(n, N) and n.cls and len(it.args) < 3:
                return n.cls, I(n.cls)
            return None, None
        v = self.ev(it)
        return self.iterate(v, it)

    def iterate(self, v, node=None):
        if isinstance(v, A):
            if len(v.axes) > 1:
                return v.axes[0], A(v.axes[1:], v.elem)
            return (v.axes[0] if v.axes else None), v.elem
        if isinstance(v, I):
            return (self.fresh(node, True) if node is not None and v.cls is not None and self.find(v.cls) == D else None), I(v.cls)
        if isinstance(v, T) and v.items and all(same(x, v.items[0]) for x in v.items):
            return None, v.items[0]
        return None, None

    def cut(self, e):
        """Number of leading elements left out by a slice, None if unknown."""
        if isinstance(e, ast.Call) and dotted(e.func) in ('tqdm', 'list', 'tuple') and e.args:
            return self.cut(e.args[0])
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            s = e.slice
            if s.step is not None:
                return None
            if s.lower is None:
                return 0
            return s.lower.value if isinstance(s.lower, ast.Constant) and isinstance(s.lower.value, int) and s.lower.value >= 0 else None
        return 0

    def targets(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def loop(self, s):
        c, e = self.elements(s.iter)
        ts = self.targets(s.target)
        before = dict(self.env)
        self.loops.append((c, s.body, ts))
        self.bind_target(s.target, e)
        q = self.quiet
        self.quiet = 1
        uses = {k: {a: list(b) for a, b in v.items()} for k, v in self.uses.items()}
        self.block(s.body)
        self.quiet, self.uses = q, uses
        self.merge({k: v for k, v in before.items() if k not in ts})
        self.bind_target(s.target, e)
        self.block(s.body)
        self.loops.pop()
        searched = any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b))
        mine = {n: v for n, v in self.env.items() if n in ts}
        self.merge(before)
        for n, v in mine.items():
            if isinstance(v, I) and v.cls is not None:
                self.env[n] = I(None) if searched else I(v.cls, v.off, True)
        self.block(s.orelse)

    def bind_target(self, t, e):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind_target(x, e.items[i] if isinstance(e, T) and len(e.items) == len(t.elts) else None)
        elif isinstance(t, ast.Name):
            v = e
            if v is None:
                w = self.by_name(t.id)
                v = w if isinstance(w, A) or isinstance(w, I) and DUTNUM.match(t.id) else v
            if self.is_list(t.id, v):
                v = self.by_name(t.id)
            if isinstance(v, I):
                v = I(v.cls, v.off, text=t.id)
            self.env[t.id] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t)

    # ------------------------------------------------------------------ meetings
    def add(self, rule, node, what, text):
        if not self.quiet and self.report:
            self.report(self.fn, rule, node, what, text)

    def show(self, c):
        c = self.find(c)
        return 'DUT number' if c == D else 'position in %s' % (c[2:] if '@' not in c else 'a list built here')

    def meet(self, rule, node, what, want, got, off=0, stale=False):
        """A value of class got is used where class want belongs."""
        w, g = self.find(want), self.find(got)
        if w is None or g is None:
            return
        if not self.quiet:
            self.met.add((node.lineno, node.col_offset, what))
        if w != g:
            if self.known(w) and self.known(g):
                self.add(rule, node, what, 'a %s is used where a %s belongs' % (self.show(g), self.show(w)))
            elif not self.known(w) and self.known(g):
                self.uses.setdefault(w, {}).setdefault(g, []).append((rule, node, what))
        elif off:
            self.add(rule, node, what, 'the counter is displaced by %+d against the list' % off)
        elif stale and self.known(g):
            self.add('stale', node, what, 'the loop variable is used after its loop has ended')

    def mixed(self):
        for c, kinds in self.uses.items():
            if self.find(c) != c:
                continue
            if len(kinds) > 1 and not self.quiet:
                order = sorted(kinds.items(), key=lambda kv: len(kv[1]))
                for rule, node, what in order[0][1]:
                    self.add(rule, node, what, 'indexed by %s here and by %s elsewhere' % (self.show(order[0][0]), self.show(order[-1][0])))

    def number(self, rule, node, what, v):
        """v has to be the number of a DUT."""
        if isinstance(v, I) and v.cls is not None:
            self.meet(rule, node, what, D, v.cls, v.off, v.stale)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m:
            return m(e)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n)
        return None

    def ev_Name(self, e):
        return self.lookup(e.id)

    def ev_Lambda(self, e):
        return None

    def ev_Attribute(self, e):
        v = self.ev(e.value)
        if e.attr == 'T' and isinstance(v, A):
            return A(v.axes[::-1], v.elem)
        if e.attr == 'shape' and isinstance(v, A):
            return T([N(c) if c else None for c in v.axes] + [None] * 4, True)
        return None

    def ev_Tuple(self, e):
        return T([self.ev(x) for x in e.elts])

    def ev_List(self, e):
        vs = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
        vs = [self.iterate(v)[1] if isinstance(x, ast.Starred) else v for x, v in zip(e.elts, vs)]
        if not vs:
            return A([None], None)
        elem = vs[0] if all(same(v, vs[0]) for v in vs) else None
        return A([None], elem)

    def ev_IfExp(self, e):
        self.ev(e.test)
        return self.join(self.ev(e.body), self.ev(e.orelse)) if not (isinstance(e.body, ast.Constant) and e.body.value is None) else self.ev(e.orelse)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target, v, e.value)
        return v

    def comp(self, e, elt):
        saved = dict(self.env)
        cls = None
        depth = len(self.loops)
        for k, g in enumerate(e.generators):
            c, el = self.elements(g.iter)
            self.bind_target(g.target, el)
            for i in g.ifs:
                self.ev(i)
            cls = c if k == 0 and not g.ifs and len(e.generators) == 1 else None
            self.loops.append((c, [], self.targets(g.target)))
        r = [self.ev(x) for x in elt]
        del self.loops[depth:]
        self.env = saved
        return cls, r[-1]

    def ev_ListComp(self, e):
        c, r = self.comp(e, [e.elt])
        if c is None and self.elems_known(r):
            c = self.fresh(e, True)
        elif c is not None and self.elems_known(r) and self.find(c) != D:
            self.anchored.add(self.find(c))
        if isinstance(r, A):
            return A([c] + r.axes, r.elem)
        return A([c], r)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e):
        _, r = self.comp(e, [e.elt])
        return A([None], r)

    def ev_DictComp(self, e):
        self.comp(e, [e.key, e.value])
        return None

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        txt = ast.unparse(e)
        if isinstance(e.op, (ast.LShift, ast.RShift)):
            self.number('bit', e, txt, b)
            return None
        if isinstance(e.op, ast.Pow) and isinstance(e.left, ast.Constant) and e.left.value == 2:
            self.number('bit', e, txt, b)
            return None
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            spots = [m for m in re.finditer(r'%[-+0-9.]*[a-zA-Z]', e.left.value)]
            args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            vals = b.items if isinstance(b, T) else [b]
            if len(spots) == len(args) == len(vals):
                for m, x, v in zip(spots, args, vals):
                    if TEMPLATE.search(e.left.value[:m.end()]):
                        self.number('name', e, txt, v)
            return None
        if isinstance(e.op, ast.Mult) and isinstance(a, A) and isinstance(e.left, ast.List):
            n = b
            if isinstance(n, N) and len(e.left.elts) == 1:
                inner = a.elem
                return A([n.cls] + (inner.axes if isinstance(inner, A) else []), inner.elem if isinstance(inner, A) else inner)
            return A([None], a.elem)
        if isinstance(e.op, ast.Add) and isinstance(a, A) and isinstance(b, A):
            if self.elems_known(a.elem) and self.elems_known(b.elem):
                return A([self.fresh(e, True)], a.elem)
            return self.join(a, b)
        if isinstance(a, I) and a.cls and self.find(a.cls) != D and isinstance(e.right, ast.Constant) and e.right.value == 0:
            return a
        if isinstance(a, A) and isinstance(b, A):
            v = self.broadcast(a, b)
            if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and self.elems_known(a.elem) and (self.elems_known(b.elem) or b.elem is None):
                return A([self.fresh(e, True)], a.elem)
            return v
        if isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(a, I) and not isinstance(b, (A, I)):
            return I(a.cls, text='shifted')
        if isinstance(a, A) or isinstance(b, A):
            x = a if isinstance(a, A) else b
            return A(x.axes, None)
        return None

    def broadcast(self, a, b):
        n = max(len(a.axes), len(b.axes))
        x = [None] * (n - len(a.axes)) + a.axes
        y = [None] * (n - len(b.axes)) + b.axes
        return A([p if self.find(p) == self.find(q) else p if q is None else q if p is None else None for p, q in zip(x, y)], None)

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        return A(v.axes, None) if isinstance(v, A) else None

    def ev_JoinedStr(self, e):
        for k, x in enumerate(e.values):
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value)
                if k and isinstance(e.values[k - 1], ast.Constant) and re.search(r'(?i)dut[_ ]?$', str(e.values[k - 1].value)):
                    self.number('name', e, ast.unparse(e), v)
        return None

    def ev_Compare(self, e):
        vs = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        for a, op, b in zip(vs, e.ops, vs[1:]):
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, I) and isinstance(b, A) and isinstance(b.elem, I) and b.elem.cls is not None and a.cls is not None:
                self.meet('member', e, ast.unparse(e), b.elem.cls, a.cls, a.off, a.stale)
            elif isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, I) and isinstance(b, I) and a.cls and b.cls and self.find(a.cls) != self.find(b.cls):
                self.meet('compare', e, ast.unparse(e), a.cls, b.cls)
        if len(vs) == 2 and not isinstance(e.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            arrays = [v for v in vs if isinstance(v, A)]
            if len(arrays) == 2:
                return self.broadcast(*arrays)
            if arrays:
                return A(arrays[0].axes, None)
        return None

    def part(self, e, c, s):
        if c is not None and self.find(c) == D and self.ordered() and any(x is not None and self.literal(x) and not (isinstance(x, ast.Constant) and x.value == 0) for x in (s.lower, s.upper)):
            self.add('first', e, ast.unparse(e), 'DUTs are left out by their number where the planes are ordered along the beam')

    @staticmethod
    def literal(i):
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub):
            i = i.operand
        return isinstance(i, ast.Constant) and isinstance(i.value, int) and not isinstance(i.value, bool)

    def ordered(self):
        """The function works on the planes in their order along the beam."""
        if not hasattr(self, '_ordered'):
            self._ordered = any(isinstance(n, ast.Name) and 'z_sorted' in n.id or isinstance(n, ast.arg) and 'z_sorted' in n.arg or
                                isinstance(n, ast.Call) and (dotted(n.func) or '').endswith('argsort') for n in ast.walk(self.fn.node))
        return self._ordered

    def index(self, e, axis_cls, i):
        v = self.ev(i)
        txt = ast.unparse(e)
        if isinstance(v, I) and v.cls is not None:
            self.meet('index', e, txt, axis_cls, v.cls, v.off, v.stale) if axis_cls is not None else None
        elif isinstance(v, A) and v.elem is not None and isinstance(v.elem, I) and v.elem.cls is not None and axis_cls is not None:
            self.meet('index', e, txt, axis_cls, v.elem.cls)
        elif self.literal(i) and axis_cls is not None:
            if self.find(axis_cls) == D and self.ordered():
                self.add('first', e, txt, 'DUT %s is taken where the planes are ordered along the beam, its number says nothing about its place' % ast.unparse(i))
            for c, body, _ in self.loops[::-1]:
                if c is not None and self.find(c) == self.find(axis_cls) and self.known(c) and self.find(c) != D:
                    self.add('fixed', e, txt, 'always the same entry is taken inside the loop over that list')
        return v

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        s = e.slice
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                self.ev(x)
            self.part(e, b.axes[0] if isinstance(b, A) and b.axes else None, s)
            if isinstance(b, A):
                plain = s.step is None
                return A([b.axes[0] if plain and b.axes else None] + b.axes[1:], b.elem, b.name)
            return b
        if isinstance(b, T):
            self.ev(s)
            return b.items[s.value] if isinstance(s, ast.Constant) and isinstance(s.value, int) and -len(b.items) <= s.value < len(b.items) else None
        if isinstance(b, I):
            self.ev(s)
            return I(b.cls) if not isinstance(s, ast.Constant) or isinstance(s.value, int) else None
        if not isinstance(b, A):
            if isinstance(s, ast.Tuple):
                for x in s.elts:
                    self.ev(x)
            else:
                self.ev(s)
            return None
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            return None
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        axes, left, k = b.axes, [], 0
        for x in parts:
            if isinstance(x, ast.Constant) and x.value is None or dotted(x) in ('np.newaxis', 'numpy.newaxis'):
                left.append(None)
                continue
            if isinstance(x, ast.Constant) and x.value is Ellipsis:
                k = max(k, len(axes) - (len(parts) - parts.index(x) - 1))
                continue
            c = axes[k] if k < len(axes) else None
            k += 1
            if isinstance(x, ast.Slice):
                for y in (x.lower, x.upper, x.step):
                    self.ev(y)
                self.part(e, c, x)
                left.append(c if x.step is None else None)
                continue
            v = self.index(e, c, x)
            if isinstance(v, A):
                left.append(v.axes[0] if v.axes and isinstance(v.elem, I) else None)
            elif not (isinstance(v, (I, N)) or isinstance(x, ast.Constant) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub)) and isinstance(x, (ast.Name, ast.Compare, ast.UnaryOp, ast.Call)) and len(parts) > 1:
                left.append(None)      # a mask
        left += axes[k:]
        if len(parts) > 1 or len(axes) > 1:
            return A(left, b.elem, None) if left else b.elem
        return b.elem

    # ------------------------------------------------------------------ calls
    def shape(self, e):
        v = self.ev(e)
        items = v.items if isinstance(v, T) else [x for x in [v]] if not isinstance(v, A) else None
        if isinstance(e, ast.List):
            items = [self.ev(x) for x in e.elts]
        return [x.cls if isinstance(x, N) else None for x in items] if items is not None else None

    def ev_Call(self, e):
        f = e.func
        d = dotted(f) or ''
        last = d.split('.')[-1] if d else (f.attr if isinstance(f, ast.Attribute) else '')
        if d == 'len' and len(e.args) == 1:
            v = self.ev(e.args[0])
            if isinstance(v, A) and v.axes and v.axes[0]:
                return N(v.axes[0])
            return None
        if d in ('enumerate', 'zip', 'range', 'np.arange', 'tqdm', 'reversed') and e.args:
            c, el = self.elements(e)
            return A([c] + (el.axes if isinstance(el, A) else []), el.elem if isinstance(el, A) else el)
        if d == 'Telescope':
            for a in e.args:
                self.ev(a)
            return A([D], DUT, 'telescope')
        if d in ('sorted', 'set', 'frozenset', 'np.unique', 'np.sort'):
            v = self.ev(e.args[0]) if e.args else None
            c, el = self.iterate(v)
            return A([self.fresh(e, True) if self.elems_known(el) else None], el)
        if last in ('argsort', 'lexsort', 'nonzero', 'flatnonzero') and e.args:
            v = self.ev(e.args[0])
            if last == 'argsort' and isinstance(v, A) and len(v.axes) == 1 and v.axes[0]:
                el = I(v.axes[0])
                return A([self.fresh(e, self.known(v.axes[0]))], el)
            if last in ('nonzero', 'flatnonzero') and isinstance(v, A):
                return self.positions(v, last)
            return None
        if d in ('np.where', 'numpy.where') and len(e.args) == 1:
            v = self.ev(e.args[0])
            return self.positions(v, 'nonzero') if isinstance(v, A) else None
        if d in ('np.argmax', 'np.argmin') and len(e.args) == 1 and not e.keywords:
            v = self.ev(e.args[0])
            return I(v.axes[0]) if isinstance(v, A) and len(v.axes) == 1 and v.axes[0] else None
        if last in ('create_carray', 'create_table', 'create_array', 'get_node', 'remove_node', 'create_earray'):
            for a in list(e.args) + [k.value for k in e.keywords if k.arg == 'name']:
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) and isinstance(a.left, ast.Constant) and isinstance(a.left.value, str):
                    for x in a.right.elts if isinstance(a.right, ast.Tuple) else [a.right]:
                        self.number('name', a, ast.unparse(a), self.ev(x))
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value)
            if f.attr == 'index' and isinstance(base, A) and base.axes and base.axes[0]:
                return I(base.axes[0])
            if f.attr in ('append', 'extend', 'insert') and isinstance(f.value, ast.Name) and isinstance(base, A):
                self.appended(e, f, base, args)
                return None
            if f.attr in KEEP_M and isinstance(base, A):
                return base
            if f.attr == 'tolist' and isinstance(base, A):
                return base
            if f.attr == 'format' and isinstance(f.value, ast.Constant):
                spots = [m for m in re.finditer(r'\{[^}]*\}', str(f.value.value))]
                if len(spots) == len(args):
                    for m, v in zip(spots, args):
                        if re.search(r'(?i)dut[_ ]?$', str(f.value.value)[:m.start()]):
                            self.number('name', e, ast.unparse(e), v)
                return None
        root = d.split('.')[0]
        if root in ('np', 'numpy', 'copy') or not isinstance(f, ast.Attribute):
            if last in FRESH and root in ('np', 'numpy'):
                sh = next((k.value for k in e.keywords if k.arg == 'shape'), e.args[0] if e.args else None)
                axes = self.shape(sh) if sh is not None else None
                return A(axes, None) if axes else None
            if last == 'append':
                v = args[0] if args else kws.get('arr')
                return A([c if c == D else None for c in v.axes], None) if isinstance(v, A) else None
            if last in KEEP and args:
                v = args[0]
                if isinstance(v, T) and v.items and last in ('list', 'tuple', 'array', 'asarray'):
                    return A([None], v.items[0] if all(same(x, v.items[0]) for x in v.items) else None)
                return v if isinstance(v, (A, I)) or last in ('int', 'str') else None
        callee = self.resolve(f)
        if callee is not None:
            return self.call(e, callee, args, kws)
        return None

    def positions(self, v, how):
        ps = [A([None], I(c)) for c in v.axes]
        return ps[0] if how == 'flatnonzero' and len(ps) == 1 else T(ps)

    def appended(self, e, f, base, args):
        n = f.value.id
        if not isinstance(base, A) or n not in self.env:
            return
        if f.attr == 'extend':
            if base.axes and base.axes[0] and self.find(base.axes[0]) == D:
                return
            self.env[n] = A([None] + base.axes[1:], self.join(base.elem, self.iterate(args[0])[1]) if args else None, n)
            return
        if f.attr == 'insert':
            el = base.elem
            self.env[n] = A([self.fresh(e, True) if self.elems_known(el) else None] + base.axes[1:], el, n)
            return
        v = args[0] if args else None
        depth = self.created.get(n, 0)
        inner = self.loops[depth:]
        c = None
        if len(inner) == 1 and inner[0][0] is not None and self.direct(e, inner[0][1]):
            c = inner[0][0]
        if base.axes and base.axes[0] is not None and self.find(base.axes[0]) not in (self.find(c), D):
            c = None
        elem = v if base.elem is None or same(base.elem, v) else self.join(base.elem, v)
        if base.axes and base.axes[0] is not None and self.find(base.axes[0]) == D:
            return
        if c is not None and isinstance(elem, A):
            self.env[n] = A([c] + elem.axes, elem.elem, n)
        else:
            self.env[n] = A([c if c is not None else self.cls_name(n, elem) if self.elems_known(elem) else None], elem if not isinstance(elem, A) else None, n)
        if c is not None and self.elems_known(elem) and self.find(c) != D:
            self.anchored.add(self.find(c))

    def direct(self, call, body):
        """The statement of the call is executed exactly once in each turn of the loop."""
        def walk(stmts):
            for s in stmts:
                if isinstance(s, ast.Expr) and s.value is call:
                    return True
                if isinstance(s, (ast.With,)) and walk(s.body):
                    return True
                if isinstance(s, ast.Try) and walk(s.body):
                    return True
                if isinstance(s, ast.If) and s.orelse and any(n is call for n in ast.walk(s)):
                    name = call.func.value.id
                    def has(b):
                        return any(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'append' and
                                   isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == name for x in b)
                    return has(s.body) and (has(s.orelse) or s.orelse and isinstance(s.orelse[0], ast.If) and walk(s.orelse))
            return False
        if any(isinstance(n, ast.Continue) for b in body for n in ast.walk(b)):
            return False
        return walk(body)

    def resolve(self, f):
        if isinstance(f, ast.Name):
            p = self.fn
            while p is not None:
                for q, g in self.prog.fns.items():
                    if g.parent is p and g.name == f.id:
                        return g
                p = p.parent
            if f.id in self.fn.module.functions:
                return self.fn.module.functions[f.id]
        d = dotted(f)
        r = d and self.prog.resolve_in_module(self.fn.module, d)
        if r and r[0] == 'fn':
            return r[1]
        if isinstance(f, ast.Attribute) and (r is None or r[0] != 'mod'):
            ms = [c.methods[f.attr] for c in self.prog.classes.values() if f.attr in c.methods]
            if len(ms) == 1:
                return ms[0]
        return None

    def call(self, e, callee, args, kws):
        params = list(callee.params)
        if callee.cls is not None and params[:1] in (['self'], ['cls']):
            params = params[1:]
        vals = {}
        if any(isinstance(a, ast.Starred) for a in e.args):
            args = []
        for p, v in zip(params, args):
            vals[p] = v
        vals.update({k: v for k, v in kws.items() if k})
        for p, v in vals.items():
            what = '%s(%s)' % (callee.name, p)
            if DUTNUM.match(p):
                self.number('argument', e, what, v)
            elif DUTLIST.match(p) and not PLANES.match(p):
                if isinstance(v, A) and isinstance(v.elem, I) and v.elem.cls is not None:
                    self.meet('argument', e, what, D, v.elem.cls, v.elem.off, v.elem.stale)
                elif isinstance(v, I):
                    self.number('argument', e, what, v)
        self.calls.setdefault(callee.qual, []).append(vals)
        rv = self.prog.__dict__.setdefault('_slot_returns', {}).get(callee.qual)
        return self.translate(rv, vals)

    def translate(self, v, vals):
        """Return value of a callee with its position classes expressed in those of the caller."""
        def cl(c):
            if c is None or c == D:
                return c
            m = re.match(r'P:(\w+)!?$', c)
            if m and isinstance(vals.get(m.group(1)), A) and vals[m.group(1)].axes:
                return vals[m.group(1)].axes[0]
            return None
        if isinstance(v, A):
            return A([cl(c) for c in v.axes], self.translate(v.elem, vals))
        if isinstance(v, I):
            return I(cl(v.cls), v.off)
        if isinstance(v, T):
            return T([self.translate(x, vals) for x in v.items])
        if isinstance(v, N):
            return N(cl(v.cls)) if cl(v.cls) else None
        return v

    def canonical(self, v):
        if isinstance(v, A):
            return A([self.find(c) for c in v.axes], self.canonical(v.elem))
        if isinstance(v, I):
            return I(self.find(v.cls), v.off)
        if isinstance(v, T):
            return T([self.canonical(x) for x in v.items])
        if isinstance(v, N):
            return N(self.find(v.cls))
        return v


def entry_values(sites, analyses):
    """Values of the parameters of a private function on which all its callers agree; classes of positions are named after the first parameter that has them."""
    views = []
    for caller, vals in sites:
        a = analyses[caller]
        names = {}

        def cl(c, p):
            c = a.find(c)
            if c is None or c == D:
                return c
            k = 'P:%s' % names.setdefault(c, p)
            return k + '!' if a.known(c) else k

        def conv(v, p):
            if isinstance(v, A):
                return A([cl(c, p) for c in v.axes], conv(v.elem, p))
            if isinstance(v, I):
                return I(cl(v.cls, p), v.off)
            if isinstance(v, N):
                return N(cl(v.cls, p))
            if isinstance(v, T):
                return T([conv(x, p) for x in v.items])
            return v
        views.append({p: conv(v, p) for p, v in sorted(vals.items())})
    out = {}
    for p in views[0] if views else ():
        if all(p in w and w[p] is not None and same(w[p], views[0][p]) for w in views):
            out[p] = views[0][p]
    return out


def analyse(prog, fns, report):
    """Three rounds: values of private functions' parameters and of returns settle, the last one reports."""
    prog.__dict__['_slot_returns'] = {}
    entries, met = {}, 0
    for rnd in range(4):
        analyses, order = {}, sorted(fns, key=lambda f: f.qual.count('.'))
        for f in order:
            closure = analyses[f.parent.qual].env if f.parent is not None and f.parent.qual in analyses else None
            s = Slots(prog, f, entries.get(f.qual), report if rnd == 3 else None, closure).run()
            analyses[f.qual] = s
            r = None
            for k, v in enumerate(s.rets):
                v = s.canonical(v)
                r = v if k == 0 else s.join(r, v)
            prog.__dict__['_slot_returns'][f.qual] = r
        sites = {}
        for q, s in analyses.items():
            for callee, calls in s.calls.items():
                for vals in calls:
                    sites.setdefault(callee, []).append((q, vals))
        entries = {}
        for f in order:
            private = f.name.startswith('_') or f.parent is not None or f.cls is not None
            if private and f.qual in sites:
                entries[f.qual] = entry_values(sites[f.qual], analyses)
    return analyses
