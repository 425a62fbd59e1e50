"""What one turn of a loop over chunks does to the values that live on after the loop.

Each loop over the chunks of a table is interpreted for one turn that is not the first (flags, None tests and counters that tell the
first turn apart are resolved accordingly).  A value is described by the variables whose contents before the turn it certainly still
contains (carry), whether it depends on the chunk (chunk), and the names it was computed from (deps).
"""
import ast

from .loader import dotted

SHAPE = {'shape', 'size', 'dtype', 'ndim', 'nbytes', 'itemsize', 'nrows'}
FRESH = {'zeros_like', 'ones_like', 'empty_like', 'zeros', 'ones', 'empty', 'full'}
NOVALUE = {'full_like', 'len', 'isinstance', 'type', 'range', 'shape', 'hasattr', 'id', 'callable'}
MUTATORS = {'append', 'extend', 'insert', 'resize', 'sort', 'add', 'update', 'fill', 'put', 'setdefault', 'itemset', 'appendleft', 'pop', 'remove', 'clear'}
HISTS = {'histogram', 'histogram2d', 'histogramdd', 'binned_statistic', 'binned_statistic_2d', 'binned_statistic_dd'}
ALL = None          # carry of a path that ended without reaching the end of the turn


class V(object):
    __slots__ = ('carry', 'chunk', 'deps', 'defs', 'prev')

    def __init__(self, carry=frozenset(), chunk=False, deps=frozenset(), defs=()):
        self.carry, self.chunk, self.deps, self.defs, self.prev = carry, chunk, deps, defs, None


def tail(call):
    return (dotted(call.func) or (call.func.attr if isinstance(call.func, ast.Attribute) else '')).split('.')[-1]


def argument(call, name, index):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[index] if index is not None and index < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:index + 1]) else None


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def simple_index(s):
    return isinstance(s, (ast.Name, ast.Constant)) or isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant)


def path(n):
    """Text of a variable, an attribute of one, or one of its elements by a plain index."""
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute) and n.attr not in SHAPE:
        b = path(n.value)
        return None if b is None else b + '.' + n.attr
    if isinstance(n, ast.Subscript) and simple_index(n.slice):
        b = path(n.value)
        return None if b is None or '[' in b else '%s[%s]' % (b, ast.unparse(n.slice))
    return None


def base(p):
    return p.split('[')[0]


def root(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        p = path(n)
        if p is not None:
            return p
        n = n.value
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('reshape', 'ravel', 'view'):
        return root(n.func.value)
    return path(n)


def stored(stmts):
    """Names and paths stored to anywhere in the statements."""
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r = root(x)
                if r is not None:
                    out.add(r)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                r = root(x.func.value)
                if r is not None:
                    out.add(r)
    return out


class State(object):
    def __init__(self, env=None, upd=None, guards=(), part=None, wiped=()):
        self.wiped = set(wiped)
        self.env = env if env is not None else {}
        self.upd = upd if upd is not None else {}        # path -> names the contribution of this turn was computed from
        self.guards = guards                             # (test, polarity) on the way here
        self.part = part if part is not None else {}     # path -> test under which it is left out

    def copy(self):
        return State(dict(self.env), dict(self.upd), self.guards, dict(self.part), self.wiped)


class Turn(object):
    def __init__(self, prog, fn, loop, rets, first=False):
        self.prog, self.fn, self.loop, self.rets, self.first = prog, fn, loop, rets, first
        self.inner = stored(loop.body) | {base(p) for p in stored(loop.body)}
        self.ends, self.breaks = [], []
        self.averages, self.hists, self.adds, self.moving, self.plain = [], [], [], [], []
        self.elements = []               # (path, V) at the end of a turn of an inner loop
        self.grow = {}
        self.records = set()             # what stands for one entry of a chunk in an inner loop
        self.firsts()

    # --- what tells the first turn apart -----------------------------------------------------------------
    def firsts(self):
        self.flag, self.zero, self.none, self.grown, self.alias = {}, set(), set(), set(), {}
        before = {}
        for s in ast.walk(self.fn.node):
            if isinstance(s, ast.Assign) and s.lineno < self.loop.lineno:
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        before.setdefault(t.id, []).append(s)
        for n, ss in before.items():
            last = max(ss, key=lambda s: s.lineno).value
            inloop = [x for x in ast.walk(self.loop) if isinstance(x, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == n for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
            if isinstance(last, ast.Constant) and isinstance(last.value, bool):
                vals = {x.value.value for x in inloop if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant)}
                if not inloop:
                    self.flag[n] = last.value
                elif len(vals) == 1 and all(isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) for x in inloop) and vals == {not last.value}:
                    self.flag[n] = not last.value
            elif isinstance(last, ast.Constant) and last.value is None or isinstance(last, ast.List) or isinstance(last, ast.BinOp) and isinstance(last.left, ast.List) \
                    or isinstance(last, (ast.ListComp, ast.Dict)) or isinstance(last, ast.Call) and dotted(last.func) in ('list', 'dict', 'defaultdict', 'collections.OrderedDict'):
                self.none.add(n)
            if isinstance(last, ast.Constant) and type(last.value) is int and last.value == 0 and inloop and all(isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) or isinstance(x, ast.Assign) and n in names(x.value) for x in inloop):
                self.zero.add(n)
            if isinstance(last, ast.List) and not last.elts or isinstance(last, ast.Dict) and not last.keys or isinstance(last, ast.Call) and dotted(last.func) in ('list', 'dict') and not last.args:
                self.grown.add(n)
        for x in ast.walk(self.loop):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name) and x.value.id in self.flag:
                n = x.targets[0].id
                if sum(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for y in ast.walk(self.fn.node)) == 1:
                    self.flag[n] = self.flag[x.value.id]
                    self.alias[n] = x.value.id
        t, it = self.loop.target if isinstance(self.loop, ast.For) else None, getattr(self.loop, 'iter', None)
        if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) and len(it.args) == 1:
            self.zero.add(t.elts[0].id)
        if isinstance(it, ast.Call) and tail(it) == 'range' and isinstance(t, ast.Name):
            self.zero.add(t.id)

    def truth(self, n):
        """True or False if the test is decided in a turn that is not the first (for an element of a list, in a turn that has set it already)."""
        v = self.later(n)
        return (None if v is None else not v) if self.first and self.atom(n) else v

    @staticmethod
    def atom(n):
        return not isinstance(n, (ast.UnaryOp, ast.BoolOp, ast.Constant))

    def later(self, n):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.truth(n.operand)
            return None if v is None else not v
        if isinstance(n, ast.BoolOp):
            vs = [self.truth(v) for v in n.values]
            stop = isinstance(n.op, ast.Or)
            if any(v is stop for v in vs):
                return stop
            return (not stop) if all(v is (not stop) for v in vs) else None
        if isinstance(n, ast.Constant):
            return bool(n.value)
        if isinstance(n, ast.Name):
            if n.id in self.flag:
                return self.flag[n.id]
            if (n.id in self.zero or n.id in self.grown) and n.id in self.inner:
                return True
            return None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, op, r = n.left, n.ops[0], n.comparators[0]
            pos = isinstance(op, (ast.Is, ast.Eq))
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if isinstance(l, ast.Constant):
                    l, r = r, l
                if isinstance(r, ast.Constant):
                    p = path(l)
                    if r.value is None and p is not None and (p in self.inner or base(p) in self.inner) and base(p).split('.')[0] in self.none:
                        return not pos
                    if isinstance(r.value, bool) and isinstance(l, ast.Name) and l.id in self.flag:
                        return (self.flag[l.id] is r.value) == pos
                    if r.value == 0 and type(r.value) is int and isinstance(l, ast.Name) and l.id in self.zero:
                        return not pos
                    if r.value == 0 and isinstance(l, ast.Call) and dotted(l.func) == 'len' and l.args and isinstance(l.args[0], ast.Name) and l.args[0].id in self.grown and l.args[0].id in self.inner:
                        return not pos
            if isinstance(op, (ast.Gt, ast.LtE)) and isinstance(l, ast.Name) and l.id in self.zero and isinstance(r, ast.Constant) and r.value == 0:
                return isinstance(op, ast.Gt)
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, ast.Name) and r.id in self.grown and r.id in self.inner:
                return isinstance(op, ast.In)
        return None

    # --- expressions -------------------------------------------------------------------------------------
    def look(self, p, st):
        v = st.env.get(p)
        if v is not None:
            return v
        if '[' in p:
            b = st.env.get(base(p))
            if b is not None:
                if base(p) in b.carry:
                    return V(b.carry | {p}, b.chunk, b.deps)
                return V(b.carry, b.chunk, b.deps)
        return V(frozenset([p, base(p)]), False, frozenset(), ())

    def expr(self, n, st):
        if n is None or isinstance(n, (ast.Constant, ast.Lambda)):
            return V()
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
            if isinstance(n, ast.Attribute) and n.attr in SHAPE:
                v = self.expr(n.value, st)
                return V(frozenset(), v.chunk, v.deps | names(n))
            p = path(n)
            if p is not None:
                v = self.look(p, st)
                return V(v.carry, v.chunk, v.deps | names(n) | {p}, v.defs or ())
            if isinstance(n, ast.Subscript):
                v, i = self.expr(n.value, st), self.expr(n.slice, st)
                return V(v.carry, v.chunk or i.chunk, v.deps | i.deps | names(n))
            v = self.expr(n.value, st)
            return V(v.carry, v.chunk, v.deps | names(n))
        if isinstance(n, ast.Compare):
            vs = [self.expr(x, st) for x in [n.left] + n.comparators]
            return V(frozenset(), any(v.chunk for v in vs), frozenset().union(*[v.deps for v in vs]))
        if isinstance(n, ast.IfExp):
            t = self.truth(n.test)
            if t is not None:
                return self.expr(n.body if t else n.orelse, st)
            a, b = self.expr(n.body, st), self.expr(n.orelse, st)
            return V(a.carry & b.carry, a.chunk or b.chunk, a.deps | b.deps | self.expr(n.test, st).deps)
        if isinstance(n, ast.Call):
            return self.call(n, st)
        if isinstance(n, ast.NamedExpr):
            v = self.expr(n.value, st)
            self.assign(n.target, n.value, v, st, n)
            return v
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            tmp = st.copy()
            its = []
            for g in n.generators:
                v = self.expr(g.iter, tmp)
                its.append(v)
                for x in names(g.target):
                    tmp.env[x] = V(v.carry, v.chunk, v.deps)
            v = self.expr(n.elt, tmp)
            return V(v.carry, v.chunk or any(x.chunk for x in its), v.deps.union(*[x.deps for x in its]))
        vs = [self.expr(c, st) for c in ast.iter_child_nodes(n) if isinstance(c, (ast.expr, ast.comprehension, ast.keyword))]
        if isinstance(n, ast.comprehension):
            vs = [self.expr(n.iter, st)]
        if not vs:
            return V()
        return V(frozenset().union(*[v.carry for v in vs]), any(v.chunk for v in vs), frozenset().union(*[v.deps for v in vs]))

    def call(self, n, st):
        f = self.target(n)
        vs = [(None, self.expr(a, st)) for a in n.args] + [(k.arg, self.expr(k.value, st)) for k in n.keywords]
        own = None
        if isinstance(n.func, ast.Attribute):
            own = self.expr(n.func.value, st)
        chunk = any(v.chunk for _, v in vs) or bool(own and own.chunk)
        deps = frozenset().union(frozenset(), *[v.deps for _, v in vs]) | (own.deps if own else frozenset())
        t = tail(n)
        if t in ('average',) and (argument(n, 'weights', 2) is not None):
            self.averages.append((n, st.copy()))
        if t in ('average', 'mean', 'nanmean') and argument(n, 'weights', 2 if t == 'average' else None) is None:
            self.plain.append((n, st.copy()))
        if t in HISTS:
            self.hists.append((n, st.copy()))
        if f is not None:
            keep = self.rets(f)
            carry = frozenset()
            params = f.all_params
            for i, (k, v) in enumerate(vs):
                name = k if k is not None else (params[i] if i < len(params) else None)
                if name in keep:
                    carry |= v.carry
            return V(carry, chunk, deps)
        if t in FRESH:
            return V(frozenset(), t == 'full' and self.expr(argument(n, 'fill_value', 1), st).chunk, deps | {'<fresh>'})
        if t in NOVALUE:
            return V(frozenset(), chunk, deps)
        carry = frozenset().union(frozenset(), *[v.carry for k, v in vs if k not in ('bins', 'range', 'dtype', 'shape', 'minlength', 'out', 'where')])
        if own is not None and not (isinstance(n.func.value, ast.Name) and n.func.value.id in self.fn.module.imports):
            carry |= own.carry
        return V(carry, chunk, deps)

    def target(self, n):
        d = dotted(n.func)
        if d is None:
            return None
        f = self.prog.resolve_in_module(self.fn.module, d)
        if f is None and '.' not in d:
            f = self.prog.fns.get(self.fn.qual + '.' + d)
        return f if f is not None and hasattr(f, 'all_params') and not isinstance(f.node, ast.Lambda) else None

    # --- statements --------------------------------------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def update(self, p, deps, st):
        st.upd[p] = st.upd.get(p, frozenset()) | deps
        if '[' in p:
            st.upd[base(p)] = st.upd.get(base(p), frozenset()) | deps

    def assign(self, t, value, v, st, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in list(t.elts) + list(value.elts)):
                vs = [self.expr(e, st) for e in value.elts]
                for e, w, x in zip(t.elts, value.elts, vs):
                    self.assign(e, w, x, st, s)
            else:
                for i, e in enumerate(t.elts):
                    self.assign(e, None, V(v.carry, v.chunk, v.deps, ((value, i),) if value is not None else ()), st, s)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, None, V(v.carry, v.chunk, v.deps), st, s)
        p = path(t)
        if p is not None:
            for q in [q for q in st.env if q != p and (base(q) == p or '[%s]' % p in q)]:
                del st.env[q]
            if self.grow.get(p, frozenset()) & v.deps:
                v = V(v.carry | {p}, False, v.deps, v.defs)
            old = st.env.get(p)
            st.env[p] = V(v.carry, v.chunk, v.deps, v.defs or (((value, None),) if value is not None else ()))
            if value is not None and base(p) in names(value):
                st.env[p].prev = old
            if v.chunk:
                self.update(p, v.deps, st)
            elif '<fresh>' in v.deps:
                st.wiped |= {p, base(p)}
            return
        r = root(t)
        if r is None:
            return
        old = self.look(r, st)
        if isinstance(t, ast.Subscript) and path(t.value) == r and (isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None
                                                                      or isinstance(t.slice, ast.Constant) and t.slice.value is Ellipsis):
            st.env[r] = V(v.carry, v.chunk, v.deps)
        else:
            st.env[r] = V(old.carry, old.chunk or v.chunk, old.deps | v.deps)
        if v.chunk or self.expr(t.slice, st).chunk if isinstance(t, ast.Subscript) else v.chunk:
            self.update(r, v.deps, st)

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, st)
            for t in s.targets:
                self.closed_form(t, s.value, st, s)
                self.assign(t, s.value, v, st, s)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, s.value, self.expr(s.value, st), st, s)
            return st
        if isinstance(s, ast.AugAssign):
            v = self.expr(s.value, st)
            r = root(s.target)
            if r is not None:
                old = self.look(r, st)
                self.adds.append((s, r, v, st.copy()))
                st.env[r] = V(old.carry | v.carry, old.chunk or v.chunk, old.deps | v.deps)
                if v.chunk or not v.carry:
                    self.update(r, v.deps | names(s.value), st)
            return st
        if isinstance(s, ast.Expr):
            self.expr(s.value, st)
            c = s.value
            if isinstance(c, ast.Call):
                deps = frozenset().union(frozenset(), *[self.expr(a, st).deps for a in list(c.args) + [k.value for k in c.keywords]])
                out = argument(c, 'out', None)
                if out is not None:
                    self.assign(out, c, self.expr(c, st), st, s)
                    return st
                if isinstance(c.func, ast.Attribute):
                    r = root(c.func.value)
                    if r is not None and base(r).split('.')[0] not in self.fn.module.imports:
                        old = self.look(r, st)
                        if c.func.attr == 'clear':
                            st.env[r] = V()
                        if c.func.attr in MUTATORS:
                            if c.func.attr not in ('resize', 'sort'):
                                self.update(r, deps, st)
                            ext = frozenset().union(frozenset(), *[self.expr(a, st).carry for a in c.args]) if c.func.attr in ('append', 'extend', 'appendleft', 'add') else frozenset()
                            st.env[r] = V(st.env.get(r, old).carry | ext, True, old.deps | deps)
                        elif r in self.inner or True:
                            pass
                if self.target(c) is not None:
                    for a in list(c.args) + [k.value for k in c.keywords]:
                        r = root(a) if isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)) else None
                        if r is not None and r in st.upd:
                            self.update(r, deps, st)
            return st
        if isinstance(s, ast.If):
            return self.s_if(s, st)
        if isinstance(s, (ast.For, ast.While)):
            return self.s_loop(s, st)
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, i.context_expr, v, st, s)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = st.copy()
            a = self.block(s.body + s.orelse, st)
            for h in s.handlers:
                b = before.copy()
                b.guards = b.guards + ((h, True),)
                a = self.join(a, self.block(h.body, b), h)
            return self.block(s.finalbody, a) if a is not None else None
        if isinstance(s, ast.Continue):
            self.ends.append(st)
            return None
        if isinstance(s, ast.Break):
            self.breaks.append((s, st))
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return):
                self.breaks.append((s, st))
            return None
        return st

    def closed_form(self, t, value, st, s):
        """v = (v * c + ...) / (c + ...)"""
        if isinstance(value, ast.BinOp) and isinstance(value.op, ast.Div):
            p = path(t)
            for m in ast.walk(value.left):
                if isinstance(m, ast.BinOp) and isinstance(m.op, ast.Mult) and p is not None:
                    for a, b in ((m.left, m.right), (m.right, m.left)):
                        if path(a) == p and path(b) is not None and path(b) != p and any(path(x) == path(b) for x in ast.walk(value.right) if isinstance(x, ast.expr)) and not path(value.right):
                            self.moving.append((s, p, path(b), st.copy()))

    def s_if(self, s, st):
        self.expr(s.test, st)
        t = self.truth(s.test)
        if t is not None:
            return self.block(s.body if t else s.orelse, st)
        a, b = st.copy(), st.copy()
        a.guards, b.guards = st.guards + ((s.test, True),), st.guards + ((s.test, False),)
        saved = self.grow
        self.grow = dict(saved, **self.growth(s.test))
        a = self.block(s.body, a)
        self.grow = saved
        b = self.block(s.orelse, b)
        r = self.join(a, b, s.test, st)
        if a is not None and b is not None:
            r.guards = st.guards
        return r

    @staticmethod
    def growth(test):
        """Variables that are only replaced by something larger where the test holds: any(x > v)."""
        while isinstance(test, ast.Call) and tail(test) in ('any', 'bool') and test.args:
            test = test.args[0]
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
            a, b = test.left, test.comparators[0]
            if isinstance(test.ops[0], (ast.Lt, ast.LtE)):
                a, b = b, a
            return {p: frozenset(names(x)) for x, y in ((a, b), (b, a)) for p in [path(y)] if p is not None}
        return {}

    def join(self, a, b, test, before=None):
        if a is None or b is None:
            return a if b is None else b
        env = {}
        for p in set(a.env) | set(b.env):
            x, y = self.look(p, a), self.look(p, b)
            env[p] = V(x.carry & y.carry, x.chunk or y.chunk, x.deps | y.deps, tuple(dict.fromkeys((x.defs or ()) + (y.defs or ()))))
        upd, part = dict(a.upd), dict(a.part)
        part.update(b.part)
        for p in set(a.upd) | set(b.upd):
            upd[p] = a.upd.get(p, frozenset()) | b.upd.get(p, frozenset())
            if p in a.upd and p in b.upd or before is not None and p in before.upd:
                continue
            deps, pol = (a.upd[p], False) if p in a.upd else (b.upd[p], True)
            if not self.benign(test, pol, deps, before or a):
                part.setdefault(p, test)
        return State(env, upd, a.guards, part, a.wiped | b.wiped)

    def benign(self, test, pol, deps, st):
        """Leaving something out where test == pol is fine: nothing to add, or the same decision in every turn."""
        if isinstance(test, ast.ExceptHandler):
            return False
        if self.invariant(test):
            return True
        if names(test) & self.records:
            return True
        core = self.empty(test, pol, st)
        return core is not None and (core <= deps or all(x in self.look(x, st).carry and self.look(x, st).chunk for x in core))

    def invariant(self, test):
        return not any(n in self.inner or n in self.targets() for n in names(test)) and not any(isinstance(x, ast.Call) and tail(x) in ('rand', 'random', 'time') for x in ast.walk(test))

    def targets(self):
        out = set()
        for x in ast.walk(self.loop):
            if isinstance(x, (ast.For, ast.comprehension)):
                out |= names(x.target)
        return out

    def empty(self, n, pol, st, depth=0):
        """Names of what is empty where test n == pol; None if that says nothing about emptiness."""
        if depth > 4:
            return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            return self.empty(n.operand, not pol, st, depth)
        if isinstance(n, ast.BoolOp):
            cs = [self.empty(v, pol, st, depth) for v in n.values]
            if isinstance(n.op, ast.And) == pol:
                cs = [c for c in cs if c is not None]
                return min(cs, key=len) if cs else None
            cs = [c for v, c in zip(n.values, cs) if not self.invariant(v)]
            return None if any(c is None for c in cs) or not cs else frozenset().union(*cs)
        if isinstance(n, ast.Call):
            t = tail(n)
            arg = n.args[0] if n.args else (n.func.value if isinstance(n.func, ast.Attribute) else None)
            if t == 'any' and arg is not None and not pol:
                return self.core(arg)
            if t == 'all' and arg is not None and pol:
                if isinstance(arg, ast.Compare) and isinstance(arg.ops[0], ast.Eq) and isinstance(arg.comparators[0], ast.Constant) and arg.comparators[0].value == 0:
                    return self.core(arg.left)
                if isinstance(arg, ast.UnaryOp) and isinstance(arg.op, (ast.Invert, ast.Not)):
                    return self.core(arg.operand)
            if t == 'bool' and arg is not None:
                return self.empty(arg, pol, st, depth + 1)
        c = self.sized(n, st)
        if c is not None and not pol:
            return c
        if isinstance(n, ast.Name):
            v = st.env.get(n.id)
            if v is not None and len(v.defs) == 1 and v.defs[0][1] is None and v.defs[0][0] is not None:
                return self.empty(v.defs[0][0], pol, st, depth + 1)
            return None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, op, r = n.left, type(n.ops[0]), n.comparators[0]
            if isinstance(l, ast.Constant):
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
            if isinstance(r, ast.Constant) and r.value is None and op in (ast.Is, ast.IsNot):
                return frozenset(names(l)) if (op is ast.Is) == pol else None
            c = self.sized(l, st)
            if c is not None and isinstance(r, ast.Constant) and type(r.value) is int:
                if r.value == 0 and (op in (ast.Eq, ast.LtE) and pol or op in (ast.Gt, ast.NotEq) and not pol):
                    return c
                if r.value == 1 and (op is ast.Lt and pol or op is ast.GtE and not pol):
                    return c
        return None

    @staticmethod
    def core(n):
        return frozenset(x for x in names(n) if x not in ('np', 'numpy', 'len'))

    def sized(self, n, st, depth=0):
        if isinstance(n, ast.Attribute) and n.attr in ('size', 'nrows'):
            return self.core(n.value)
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape':
            return self.core(n.value.value)
        if isinstance(n, ast.Call) and tail(n) in ('len', 'count_nonzero', 'sum'):
            a = n.args[0] if n.args else (n.func.value if isinstance(n.func, ast.Attribute) else None)
            return None if a is None else self.core(a)
        if isinstance(n, ast.Name) and depth < 3:
            v = st.env.get(n.id)
            if v is not None and len(v.defs) == 1 and v.defs[0][1] is None and v.defs[0][0] is not None and not isinstance(v.defs[0][0], ast.Name):
                return self.sized(v.defs[0][0], st, depth + 1)
        return None

    def s_loop(self, s, st):
        if isinstance(s, ast.For):
            it = self.expr(s.iter, st)
            ts = names(s.target)
        else:
            self.expr(s.test, st)
            it, ts = V(), set()
        save = self.ends, self.breaks
        entry = st.copy()
        cur = st
        for turn in range(2):
            b = cur.copy()
            for q in [q for q in b.env if '[' in q and any('[%s]' % t in q for t in ts)]:
                del b.env[q]
            for q in [q for q in b.upd if '[' in q and any('[%s]' % t in q for t in ts)]:
                del b.upd[q]
            if isinstance(s, ast.For):
                self.assign(s.target, None, V(it.carry, it.chunk, it.deps | names(s.iter)), b, s)
                if it.chunk:
                    self.records |= ts
            self.ends, self.breaks = [], []
            e = self.block(s.body, b)
            outs = [x for x in [e] + self.ends + [y for k, y in self.breaks if isinstance(k, ast.Break)] if x is not None]
            rets = [(k, y) for k, y in self.breaks if not isinstance(k, ast.Break)]
            save[1].extend(rets)
            self.ends, self.breaks = save
            if not outs:
                return entry
            e = outs[0]
            for o in outs[1:]:
                go, ge = [x for x in o.guards if x not in entry.guards], [x for x in e.guards if x not in entry.guards]
                if go:
                    e = self.join(o, e, go[-1][0], entry) if go[-1][1] else self.join(e, o, go[-1][0], entry)
                elif ge:
                    e = self.join(e, o, ge[-1][0], entry) if ge[-1][1] else self.join(o, e, ge[-1][0], entry)
                else:
                    e = self.join(e, o, ast.Constant(True), entry)
            for p, v in e.env.items():
                if '[' in p and any('[%s]' % t in p for t in ts) and turn == 1:
                    self.elements.append((p, v, self.look(base(p), e), s))
            e.guards = entry.guards
            # the loop may not run at all: then there is nothing to add
            env = {}
            for p in set(e.env) | set(entry.env):
                x, y = self.look(p, e), self.look(p, entry)
                empty = len(y.defs) == 1 and isinstance(y.defs[0][0], (ast.List, ast.Dict)) and not (getattr(y.defs[0][0], 'elts', None) or getattr(y.defs[0][0], 'keys', None))
                env[p] = V(x.carry if empty else x.carry & y.carry, x.chunk or y.chunk, x.deps | y.deps, tuple(dict.fromkeys((x.defs or ()) + (y.defs or ()))))
            cur = State(env, e.upd, entry.guards, e.part, e.wiped)
        if getattr(s, 'orelse', None):
            return self.block(s.orelse, cur)
        return cur

    # --- the turn ----------------------------------------------------------------------------------------
    def run(self):
        st = State()
        for t in names(self.loop.target) if isinstance(self.loop, ast.For) else ():
            st.env[t] = V(frozenset(), True, frozenset([t]))
        if isinstance(self.loop, ast.While):
            for t in names(self.loop.test) & self.inner:
                st.env[t] = V(frozenset([t]), True, frozenset([t]))
        end = self.block(self.loop.body, st)
        outs = [x for x in [end] + self.ends if x is not None]
        return outs, self.breaks
