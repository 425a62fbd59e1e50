"""Which caller-owned objects a function changes in place.

Every function is interpreted once over may-aliases: a value is the set of parameters whose object it may be (own) and the set of parameters whose
contents it may hold (inner).  Copies drop own, deep copies and arithmetic drop both.  In-place changes of a value with a non-empty own set are
changes of the parameter.  Functions of the package are summarised once and the summary is applied at each call.
"""
import ast
import re

from .loader import dotted, walk_local

EMPTY = frozenset()
MUTATORS = set('append extend insert remove pop sort reverse clear update setdefault popitem add discard fill put itemset partition resize byteswap '
               'intersection_update difference_update symmetric_difference_update __setitem__ __delitem__ __iadd__ appendleft extendleft popleft rotate'.split())
GROW = {'append', 'add', 'insert', 'extend', 'update', 'setdefault', 'appendleft', 'extendleft'}
SHALLOW = set('list tuple sorted set frozenset reversed dict OrderedDict enumerate zip iter filter chain deque defaultdict tqdm product'.split())
FIRST_ARG = {'numpy.' + n: 0 for n in 'copyto put place putmask fill_diagonal put_along_axis random.shuffle ndarray.sort ndarray.fill ndarray.put'.split()}
FIRST_ARG.update({'random.shuffle': 0, 'heapq.heappush': 0, 'heapq.heapify': 0, 'heapq.heappop': 0, 'bisect.insort': 0, 'setattr': 0, 'delattr': 0, 'operator.setitem': 0, 'operator.iadd': 0})
VIEW = set('asarray asanyarray ascontiguousarray asfortranarray ravel reshape view squeeze transpose atleast_1d atleast_2d atleast_3d swapaxes rollaxis moveaxis expand_dims diagonal require'.split())
ARRAY = set('shape dtype ndim size T astype ravel flatten sum mean std any all nonzero cumsum argmax argmin tolist'.split())
SCALARDOC = re.compile(r'\b(string|str|int|uint|float|bool|number|scalar|filename)\b', re.I)


class V(object):
    __slots__ = ('own', 'inner', 'kind', 'items')

    def __init__(self, own=EMPTY, inner=EMPTY, kind=None, items=None):
        self.own, self.inner, self.kind, self.items = own, inner, kind, items

    def key(self):
        return (self.own, self.inner, self.kind, tuple(sorted((k, v.key()) for k, v in self.items.items())) if self.items else None)

    def elem(self):
        return V(self.inner, self.inner)

    def shallow(self, kind=None):
        return V(EMPTY, self.inner, kind, self.items)


FRESH = V()


def join(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.kind == 'num' and y.kind in (None, 'num'):
            return V(kind='num')
    return V(a.own | b.own, a.inner | b.inner, a.kind if a.kind == b.kind else (a.kind if not (b.own or b.inner) else b.kind if not (a.own or a.inner) else None))


def doc_kinds(fn):
    doc = ast.get_docstring(fn.node) or ''
    out = {}
    for m in re.finditer(r'^\s*(\w+)\s*:\s*(.+)$', doc, re.M):
        t = m.group(2).lower()
        if m.group(1) in fn.all_params:
            out[m.group(1)] = 'array' if 'array' in t else 'list' if any(w in t for w in ('list', 'tuple', 'iterable', 'sequence')) else 'dict' if 'dict' in t else 'scalar' if SCALARDOC.search(t) else None
    return out


class Summary(object):
    def __init__(self):
        self.changes = {}    # (param, level) -> (node, chain of functions)
        self.ret = FRESH


class Aliases(object):
    """Summaries of all functions of the program."""
    def __init__(self, prog):
        self.prog = prog
        self.done = {}
        self.busy = set()
        self.calls = 0
        self.writes = 0

    def of(self, fn):
        k = id(fn.node)
        if k in self.done:
            return self.done[k]
        if k in self.busy:
            return Summary()
        self.busy.add(k)
        try:
            w = Walk(self, fn)
            s = w.run()
        finally:
            self.busy.discard(k)
        self.done[k] = s
        return s


class Walk(object):
    def __init__(self, al, fn, outer=None):
        self.al, self.fn = al, fn
        self.sum = outer.sum if outer is not None else Summary()
        self.env = dict(outer.env) if outer is not None else {}
        self.ret = FRESH
        self.nested = dict(outer.nested) if outer is not None else {}
        self.lambdas = {}
        self.seen = set()
        self.arrayish = set()
        for n in walk_local(getattr(fn.node, '_evidence', fn.node)):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAY:
                self.arrayish.add(n.value.id)
            if isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Add, ast.Mod)) or isinstance(n, ast.BinOp) and all(isinstance(x, ast.Subscript) for x in (n.left, n.right)):
                for x in (n.left, n.right):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Slice):
                        self.arrayish.add(x.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, (ast.Constant, ast.BinOp)) and (isinstance(n.slice, ast.BinOp) and isinstance(n.slice.op, ast.Mod) and isinstance(n.slice.left, ast.Constant) and isinstance(n.slice.left.value, str)):
                self.arrayish.add(n.value.id)

    def run(self):
        a = self.fn.node.args
        doc = doc_kinds(self.fn)
        for p in self.fn.all_params:
            if self.plain(p, doc.get(p)):
                self.env[p] = V(kind='scalar')
                continue
            self.env[p] = V(frozenset([(p, 0)]), frozenset([(p, 1)]), doc.get(p) or ('array' if p in self.arrayish else None))
        if a.vararg is not None:
            self.env[a.vararg.arg] = V(EMPTY, frozenset([(a.vararg.arg, 1)]), 'tuple')
        if a.kwarg is not None:
            self.env[a.kwarg.arg] = V(EMPTY, frozenset([(a.kwarg.arg, 1)]), 'dict')
        if isinstance(self.fn.node, ast.Lambda):
            self.ret = self.ev(self.fn.node.body)
        else:
            self.block(self.fn.node.body)
        self.sum.ret = self.ret
        return self.sum

    def plain(self, p, doc):
        """Numbers, texts and switches, by their description or default and by how they are used."""
        d = getattr(self.fn, 'defaults', {}).get(p)
        if not (doc == 'scalar' or isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float, str))):
            return False
        for n in walk_local(self.fn.node):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name) and n.value.id == p and not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == p or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == p and n.func.attr in MUTATORS:
                return False
        return True

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if self.env is None:
                return
            self.stmt(s)

    def merge(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        out = {}
        for n in set(a) | set(b):
            out[n] = join(a[n], b[n]) if n in a and n in b else a.get(n) or b.get(n)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.env.get(s.target.id, FRESH)
                inplace = old.kind in ('array', 'list', 'dict', 'set') or v.kind == 'list' or old.kind is None and s.target.id in self.arrayish
                if inplace:
                    self.change(old, s)
                if isinstance(s.op, ast.Add) and (v.inner or v.own) and old.kind != 'array':
                    self.env[s.target.id] = V(old.own if inplace else EMPTY, old.inner | v.inner, old.kind)
                elif not inplace:
                    self.env[s.target.id] = V(kind=old.kind)
            else:
                self.store(s.target, s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            self.loop(s, lambda: self.bind_iter(s.target, it, s.iter))
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.loop(s, lambda: self.ev(s.test))
        elif isinstance(s, ast.If):
            self.ev(s.test)
            start = dict(self.env)
            self.refine(s.test, True)
            self.block(s.body)
            then = self.env
            self.env = start
            self.refine(s.test, False)
            self.block(s.orelse)
            self.env = self.merge(then, self.env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            mid = self.merge(start, self.env)
            self.block(s.orelse if self.env is not None else [])
            end = self.env
            for h in s.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = FRESH
                self.block(h.body)
                end = self.merge(end, self.env)
            self.env = end if end is not None else dict(mid)
            dead = end is None
            self.block(s.finalbody)
            if dead:
                self.env = None
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = join(self.ret, self.ev(s.value))
            self.env = None
        elif isinstance(s, ast.Raise):
            for n in (s.exc, s.cause):
                if n is not None:
                    self.ev(n)
            self.env = None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.exits:
                self.exits[-1].append(self.env)
            self.env = None
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                else:
                    self.store(t, s)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested[s.name] = s
            self.closure(s)
        elif isinstance(s, ast.ClassDef):
            pass
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(n)

    exits = None

    def loop(self, s, enter):
        if self.exits is None:
            self.exits = []
        out = dict(self.env)
        prev = None
        for _ in range(6):
            self.env = dict(out)
            self.exits.append([])
            enter()
            self.block(s.body)
            for e in self.exits.pop():
                self.env = self.merge(self.env, e)
            out = self.merge(out, self.env)
            k = {n: v.key() for n, v in out.items()}
            if k == prev:
                break
            prev = k
        self.env = out
        self.block(s.orelse)

    def closure(self, node):
        """A nested function may be called at any time: what it does to variables of this function counts here."""
        w = Walk(self.al, _Nested(self.fn, node), self)
        for x in (node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [y for y in (node.args.vararg, node.args.kwarg) if y is not None]):
            w.env[x.arg] = FRESH
        if isinstance(node, ast.Lambda):
            w.ev(node.body)
        else:
            w.block(node.body)

    def refine(self, test, pol):
        if self.env is None:
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pol:
                for t in test.values:
                    self.refine(t, pol)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None and isinstance(test.left, ast.Name):
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) == pol:
                self.env[test.left.id] = FRESH
            return
        if isinstance(test, ast.Call) and test.args and isinstance(test.args[0], ast.Name):
            n, d = test.args[0].id, dotted(test.func)
            if n not in self.env:
                return
            v = self.env[n]
            if d in ('hasattr',) and len(test.args) == 2 and isinstance(test.args[1], ast.Constant) and test.args[1].value in ('__iter__', '__len__', '__getitem__') or (d or '').endswith('is_iterable'):
                if not pol:
                    self.env[n] = FRESH
            elif d in ('np.isscalar', 'numpy.isscalar'):
                if pol:
                    self.env[n] = FRESH
            elif d == 'isinstance' and len(test.args) == 2:
                ts = [dotted(t) or '' for t in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]])]
                short = [t.split('.')[-1] for t in ts]
                if pol and all(t in ('str', 'int', 'float', 'bool', 'complex', 'bytes', 'integer', 'floating', 'Number', 'string_types', 'basestring') for t in short):
                    self.env[n] = FRESH
                elif pol and all(t in ('tuple', 'str', 'frozenset') for t in short):
                    self.env[n] = V(EMPTY, v.inner, 'tuple')
                elif pol and all(t == 'ndarray' for t in short):
                    self.env[n] = V(v.own, v.inner, 'array')
                elif pol and all(t in ('list', 'MutableSequence') for t in short):
                    self.env[n] = V(v.own, v.inner, 'list')
                elif not pol and any(t in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container') for t in short):
                    self.env[n] = FRESH

    # ------------------------------------------------------------------ stores
    def bind(self, t, v, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            for k in [k for k in self.env if k.startswith(t.id + '.')]:
                del self.env[k]
        elif isinstance(t, ast.Starred):
            self.bind(t.value, V(EMPTY, v.inner, 'list'))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(value.elts)):
                vals = [self.ev(x) for x in value.elts]
                for x, w, y in zip(t.elts, vals, value.elts):
                    self.bind(x, w, y)
            else:
                for k, x in enumerate(t.elts):
                    self.bind(x, v.items[k] if v.items and k in v.items else v.elem())
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.store(t, t, v)

    def bind_iter(self, t, it, src):
        """Elements of zip and enumerate keep to their own source."""
        d = dotted(src.func) if isinstance(src, ast.Call) else None
        if d in ('tqdm', 'list', 'reversed', 'iter', 'sorted') and src.args and isinstance(src.args[0], ast.Call):
            return self.bind_iter(t, it, src.args[0])
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(src, ast.Call) and not any(isinstance(a, ast.Starred) for a in src.args):
            if d == 'enumerate' and src.args and len(t.elts) == 2:
                self.bind(t.elts[0], FRESH)
                return self.bind_iter(t.elts[1], self.ev(src.args[0]), src.args[0])
            if d in ('zip', 'itertools.zip_longest', 'zip_longest') and len(t.elts) == len(src.args):
                for x, a in zip(t.elts, src.args):
                    self.bind_iter(x, self.ev(a), a)
                return
            if isinstance(src.func, ast.Attribute) and src.func.attr == 'items' and len(t.elts) == 2:
                self.bind(t.elts[0], FRESH)
                self.bind(t.elts[1], self.ev(src.func.value).elem())
                return
        if d in ('range', 'np.arange'):
            return self.bind(t, FRESH)
        self.bind(t, it.elem())

    def store(self, t, node, v=FRESH):
        self.al.writes += 1
        base = t.value
        b = self.ev(base)
        if isinstance(t, ast.Subscript):
            self.ev(t.slice)
        self.change(b, node)
        d = dotted(t) if isinstance(t, ast.Attribute) else None
        if d is not None:
            self.env[d] = v
        else:
            self.grow(base, v)

    def grow(self, base, v):
        """The container base now also holds v."""
        while isinstance(base, (ast.Subscript, ast.Attribute)):
            d = dotted(base) if isinstance(base, ast.Attribute) else None
            if d in self.env:
                o = self.env[d]
                self.env[d] = V(o.own, o.inner | v.own | v.inner, o.kind)
                return
            base = base.value
        if isinstance(base, ast.Name) and base.id in self.env and (v.own or v.inner):
            o = self.env[base.id]
            if o.kind != 'array':
                self.env[base.id] = V(o.own, o.inner | v.own | v.inner, o.kind)

    def change(self, v, node, chain=()):
        for r in v.own:
            k = (r, id(node))
            if k not in self.seen:
                self.seen.add(k)
                self.sum.changes.setdefault(r, []).append((node, (self.fn,) + tuple(chain)))

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        if n is None:
            return FRESH
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def e_Name(self, n):
        return self.env.get(n.id, FRESH) if self.env is not None else FRESH

    def e_Constant(self, n):
        return V(kind='num' if isinstance(n.value, (int, float, complex, str)) and not isinstance(n.value, bool) else 'scalar')

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.bind(n.target, v, n.value)
        return v

    def e_IfExp(self, n):
        self.ev(n.test)
        start = dict(self.env)
        self.refine(n.test, True)
        a = self.ev(n.body)
        self.env = dict(start)
        self.refine(n.test, False)
        b = self.ev(n.orelse)
        self.env = start
        return join(a, b)

    def e_BoolOp(self, n):
        v = None
        for x in n.values:
            w = self.ev(x)
            v = w if v is None else join(v, w)
        return v

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, ast.Add) and 'array' not in (a.kind, b.kind):
            return V(EMPTY, a.inner | b.inner, a.kind or b.kind)
        if isinstance(n.op, ast.Mult):
            for x, y in ((a, n.left), (b, n.right)):
                if isinstance(y, (ast.List, ast.Tuple)) or x.kind in ('list', 'tuple'):
                    return V(EMPTY, x.inner, x.kind)
        return V(kind='array' if 'array' in (a.kind, b.kind) else None)

    def e_Compare(self, n):
        ks = [self.ev(x).kind for x in [n.left] + n.comparators]
        return V(kind='array' if 'array' in ks else 'scalar')

    def e_UnaryOp(self, n):
        k = self.ev(n.operand).kind
        return V(kind=k if k == 'array' else None)

    def seq(self, n, kind):
        own = EMPTY
        items = {}
        for k, x in enumerate(n.elts):
            if isinstance(x, ast.Starred):
                own |= self.ev(x.value).inner
                items = None
            else:
                v = self.ev(x)
                own |= v.own | v.inner
                if items is not None:
                    items[k] = v
        return V(EMPTY, own, kind, items if kind == 'tuple' else None)

    def e_List(self, n):
        return self.seq(n, 'list')

    def e_Tuple(self, n):
        return self.seq(n, 'tuple')

    def e_Set(self, n):
        return self.seq(n, 'set')

    def e_Dict(self, n):
        own = EMPTY
        items = {}
        for k, x in zip(n.keys, n.values):
            v = self.ev(x)
            if k is None:
                own |= v.inner
                items.update(v.items or {})
            else:
                self.ev(k)
                own |= v.own | v.inner
                if isinstance(k, ast.Constant):
                    items[k.value] = v
        return V(EMPTY, own, 'dict', items if all(isinstance(k, (str, int)) for k in items) and len({type(k) for k in items}) < 2 else None)

    def comp(self, n, elts, kind):
        save = dict(self.env)
        for g in n.generators:
            self.bind_iter(g.target, self.ev(g.iter), g.iter)
            for i in g.ifs:
                self.ev(i)
                self.refine(i, True)
        own = EMPTY
        for e in elts:
            v = self.ev(e)
            own |= v.own | v.inner
        self.env = save
        return V(EMPTY, own, kind)

    def e_ListComp(self, n):
        return self.comp(n, [n.elt], 'list')

    def e_GeneratorExp(self, n):
        return self.comp(n, [n.elt], 'iter')

    def e_SetComp(self, n):
        return self.comp(n, [n.elt], 'set')

    def e_DictComp(self, n):
        return self.comp(n, [n.value], 'dict')

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Lambda(self, n):
        self.closure(n)
        return FRESH

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        if n.value is not None:
            v = self.ev(n.value)
            self.ret = join(self.ret, V(EMPTY, v.own | v.inner))
        return FRESH

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        self.ret = join(self.ret, V(EMPTY, v.inner))
        return FRESH

    def e_Attribute(self, n):
        d = dotted(n)
        if d is not None and self.env is not None and d in self.env:
            return self.env[d]
        v = self.ev(n.value)
        if n.attr in ('T', 'flat', 'real', 'imag', 'data', 'base'):
            return V(v.own, v.inner, v.kind)
        if n.attr in ('shape', 'size', 'ndim', 'nbytes', 'itemsize', 'nrows', 'names', 'name'):
            return FRESH
        return V(v.inner, v.inner)

    def e_Subscript(self, n):
        v = self.ev(n.value)
        i = self.ev(n.slice)
        if isinstance(n.slice, ast.Slice):
            if v.kind == 'array':
                return V(v.own | v.inner, v.inner, 'array')
            return V(EMPTY, v.inner, v.kind)
        if v.items is not None and isinstance(n.slice, ast.Constant):
            try:
                return v.items[n.slice.value]
            except (KeyError, TypeError):
                return v.elem()
        if v.kind == 'array':
            parts = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            fancy = any(isinstance(p, (ast.Compare, ast.UnaryOp, ast.List)) and not (isinstance(p, ast.UnaryOp) and isinstance(p.operand, ast.Constant)) or self.ev(p).kind in ('array', 'list') or isinstance(p, ast.Call) or
                        isinstance(p, ast.Name) and not self.integer(p.id) for p in parts if not isinstance(p, ast.Slice))
            if fancy:
                return V(kind='array')
            return V(v.own | v.inner, v.inner, 'array')
        if i.kind in ('array', 'list'):
            return V(kind='array')
        return v.elem()

    def integer(self, name):
        """Loop counters and names that are only ever used as an index."""
        for n in walk_local(self.fn.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                d = dotted(it.func) if isinstance(it, ast.Call) else None
                t = n.target
                if d == 'enumerate' and isinstance(t, (ast.Tuple, ast.List)) and t.elts and isinstance(t.elts[0], ast.Name) and t.elts[0].id == name:
                    return True
                if d in ('range', 'np.arange', 'tqdm') and isinstance(t, ast.Name) and t.id == name:
                    return True
        return False

    def e_Call(self, n):
        al = self.al
        al.calls += 1
        fn, skip, recv = self.callee(n)
        args = [(a, self.ev(a)) for a in n.args]
        kws = [(k.arg, k.value, self.ev(k.value)) for k in n.keywords]
        d = self.ext(n.func)
        short = (d or '').split('.')[-1]
        base = self.ev(n.func.value) if isinstance(n.func, ast.Attribute) else None
        self.callbacks(n, args, kws)
        if fn is not None:
            return self.apply(fn, skip, recv, args, kws, n)
        for a, e, v in kws:
            if a == 'out':
                self.change(v, n)
                if isinstance(e, (ast.Tuple, ast.List)):
                    self.change(v.elem(), n)
                if d and d.startswith('numpy'):
                    return v
            if a == 'copy' and isinstance(e, ast.Constant) and e.value is False and short == 'nan_to_num' and args:
                self.change(args[0][1], n)
                return args[0][1]
            if a == 'inplace' and isinstance(e, ast.Constant) and e.value is True and base is not None:
                self.change(base, n)
        if d in FIRST_ARG and args:
            al.writes += 1
            self.change(args[0][1], n)
        if d and d.startswith('numpy.') and short == 'at' and args and len(args) > 1:
            self.change(args[0][1], n)
        if d and d.startswith('numpy.') and len(args) == 3 and short in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'logical_and', 'logical_or', 'bitwise_or', 'bitwise_and'):
            self.change(args[2][1], n)
        if d and d.split('.')[-1] == 'shuffle' and args:
            self.change(args[0][1], n)
        if base is not None and (base.own or base.inner) and (d is None or not d.startswith('numpy')):
            if short in MUTATORS or n.func.attr in MUTATORS:
                al.writes += 1
                if not (n.func.attr in ('sort', 'put', 'fill', 'partition', 'resize') and base.kind == 'scalar'):
                    self.change(base, n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
            for a, v in args[-1:]:
                self.grow(n.func.value, V(EMPTY, v.inner | (v.own if n.func.attr not in ('extend', 'update') else EMPTY)))
        # results
        if short == 'deepcopy':
            return FRESH
        if isinstance(n.func, ast.Attribute) and not (d or '').startswith(('numpy.', 'copy.')) and base is not None:
            a = n.func.attr
            if a in ('get', 'pop', 'setdefault', 'popitem', 'popleft', '__getitem__'):
                return base.elem()
            if a in ('values', 'items'):
                return V(EMPTY, base.inner, 'iter')
            if a == 'copy':
                return V(EMPTY, EMPTY if base.kind == 'array' else base.inner, base.kind)
            if a in VIEW:
                return V(base.own, base.inner, 'array')
            if a in ('astype', 'byteswap', 'newbyteorder'):
                nocopy = any(k == 'copy' and isinstance(e, ast.Constant) and e.value is False for k, e, v in kws)
                return V(base.own if nocopy else EMPTY, EMPTY, 'array')
        if d == 'copy.copy' and args:
            v = args[0][1]
            return V(EMPTY, EMPTY if v.kind == 'array' else v.inner, v.kind)
        if short in SHALLOW and args:
            inner = EMPTY
            for a, v in args:
                inner |= v.inner
            for a, e, v in kws:
                inner |= v.own | v.inner if a else v.inner
            return V(EMPTY, inner, {'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'set': 'set', 'dict': 'dict'}.get(short, 'iter'))
        if short == 'dict':
            inner = EMPTY
            for a, e, v in kws:
                inner |= v.own | v.inner
            return V(EMPTY, inner, 'dict', {a: v for a, e, v in kws if a})
        if d in ('next', 'max', 'min') and args:
            return args[0][1].elem() if len(args) == 1 or d == 'next' else FRESH
        if d == 'getattr' and args:
            return args[0][1].elem()
        if d and d.startswith('numpy.'):
            if short in VIEW and args and args[0][1].kind == 'array':
                return V(args[0][1].own, args[0][1].inner, 'array')
            if '.ma.' in d and short in ('array', 'masked_array', 'MaskedArray') and args and args[0][1].kind in (None, 'array') and not any(k == 'copy' and not (isinstance(e, ast.Constant) and e.value is False) for k, e, v in kws):
                return V(args[0][1].own, args[0][1].inner, 'array')
            if short in ('array', 'masked_array') and args and args[0][1].kind == 'array' and any(k == 'copy' and isinstance(e, ast.Constant) and not e.value for k, e, v in kws):
                return V(args[0][1].own, args[0][1].inner, 'array')
            return V(kind='array')
        return FRESH

    def ext(self, f):
        d = dotted(f)
        if d is None:
            return None
        head, _, rest = d.partition('.')
        if head in (self.env or {}):
            return None
        t = self.fn.module.imports.get(head) if hasattr(self.fn.module, 'imports') else None
        full = (t + ('.' + rest if rest else '')) if isinstance(t, str) else d
        return full.replace('np.', 'numpy.', 1) if full.startswith('np.') else full

    def callee(self, n):
        """(function of the package, parameters to skip, receiver)"""
        prog, f = self.al.prog, n.func
        if isinstance(f, ast.Name) and f.id in self.nested and f.id not in (self.env or {}):
            return _Nested(self.fn, self.nested[f.id]), 0, None
        d = dotted(f)
        if d is None:
            return None, 0, None
        head = d.split('.')[0]
        if head == 'self' and self.fn.cls is not None and d.count('.') == 1:
            m = prog.find_method(self.fn.cls, d.split('.')[1])
            return (m, 1, self.ev(f.value)) if m is not None else (None, 0, None)
        if head in (self.env or {}):
            return None, 0, None
        r = prog.resolve_in_module(self.fn.module, d)
        if r is not None and r[0] == 'cls':
            m = prog.find_method(r[1], '__init__')
            return (m, 1, None) if m is not None else (None, 0, None)
        if r is not None and r[0] == 'fn':
            return r[1], 0, None
        return None, 0, None

    def bound(self, fn, skip, recv, args, kws):
        params = fn.all_params
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        got = {}
        if skip and recv is not None and pos:
            got[pos[0]] = recv
        free = pos[skip:]
        for k, (e, v) in enumerate(args):
            if isinstance(e, ast.Starred):
                for p in free[k:]:
                    got[p] = v.elem()
                break
            if k < len(free):
                got[free[k]] = v
            elif a.vararg is not None:
                o = got.get(a.vararg.arg, V())
                got[a.vararg.arg] = V(EMPTY, o.inner | v.own | v.inner, 'tuple')
        for k, e, v in kws:
            if k is None:
                for p in params:
                    if p not in got:
                        got[p] = v.items[p] if v.items is not None and p in v.items else v.elem() if v.items is None else FRESH
            elif k in params:
                got[k] = v
            elif a.kwarg is not None:
                o = got.get(a.kwarg.arg, V())
                got[a.kwarg.arg] = V(EMPTY, o.inner | v.own | v.inner, 'dict')
        return got

    def apply(self, fn, skip, recv, args, kws, node):
        s = self.al.of(fn) if not isinstance(fn, _Nested) else self.al.of(fn.as_fn())
        got = self.bound(fn, skip, recv, args, kws)

        def sub(roots):
            out = EMPTY
            for p, l in roots:
                if p in got:
                    out |= got[p].inner if l else got[p].own
            return out
        for (p, l), evs in s.changes.items():
            if p in got:
                v = got[p]
                roots = v.inner if l else v.own
                if roots:
                    for nd, chain in evs[:3]:
                        for r in roots:
                            k = (r, id(node), id(nd))
                            if k not in self.seen:
                                self.seen.add(k)
                                self.sum.changes.setdefault(r, []).append((nd, (self.fn,) + chain))
        if skip and fn.name == '__init__':
            inner = EMPTY
            for v in got.values():
                inner |= v.own | v.inner
            return V(EMPTY, EMPTY)
        return V(sub(s.ret.own), sub(s.ret.inner), s.ret.kind)

    def callbacks(self, n, args, kws):
        """Functions handed over together with their arguments: SMC(func=..., func_kwargs=...), partial, map."""
        kw = {k: (e, v) for k, e, v in kws if k}
        for fk, ak in (('func', 'func_kwargs'), ('target', 'kwargs'), ('function', 'kwargs'), ('merge_func', 'merge_kwargs')):
            if fk in kw and ak in kw:
                fn = self.fn_value(kw[fk][0])
                if fn is not None:
                    self.apply(fn, 0, None, [], [(None, kw[ak][0], kw[ak][1])], n)
        short = (dotted(n.func) or '').split('.')[-1]
        if short == 'partial' and args:
            fn = self.fn_value(args[0][0])
            if fn is not None:
                self.apply(fn, 0, None, args[1:], kws, n)
        if short in ('map', 'imap', 'starmap', 'apply', 'apply_async', 'map_async', 'submit') and args:
            fn = self.fn_value(args[0][0])
            if fn is not None:
                rest = args[1:]
                if short in ('apply', 'apply_async'):
                    self.apply(fn, 0, None, [(ast.Starred(value=e), v) for e, v in rest[:1]], [(None, k, v) for a, k, v in kws if a in ('kwds', 'kwargs')], n)
                elif short == 'submit':
                    self.apply(fn, 0, None, rest, kws, n)
                elif short == 'map':
                    self.apply(fn, 0, None, [(e, v.elem()) for e, v in rest], [], n)

    def fn_value(self, e):
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.callee(ast.copy_location(ast.Call(func=e, args=[], keywords=[]), e))[0]
        return None


class _Nested(object):
    """A nested function, with the interface of a function of the program."""
    def __init__(self, outer, node):
        self.outer, self.node = outer, node
        self.module, self.cls, self.name, self.qual = outer.module, outer.cls, getattr(node, 'name', '<lambda>'), outer.qual + '.' + getattr(node, 'name', '<lambda>')

    @property
    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def as_fn(self):
        return self
