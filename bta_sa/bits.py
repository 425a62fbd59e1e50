"""Evaluation of flag and mask expressions over the truth tables of a world with two DUTs.

A value with bits is a pair of truth tables (one per DUT), a truth value is one table; a table is an integer whose n-th binary
digit is the value in the n-th assignment of the variables.  A statement list is executed forwards; branches are merged under
the table of their condition, conditions that cannot be read become fresh variables, and loops that or together 1 << item give
the mask of the list they run over.
"""
import ast

from .loader import AnalysisError, dotted

NV = 23


class Space(object):
    def __init__(self, nv=NV):
        self.nv = nv
        self.n = 1 << nv
        self.full = (1 << self.n) - 1
        self.names = {}

    def var(self, name):
        if name not in self.names:
            k = len(self.names)
            if k >= self.nv:
                raise AnalysisError('too many conditions in a flag expression: %s' % sorted(map(str, self.names)))
            block = ((1 << (1 << k)) - 1) << (1 << k)      # 2^k zeros, 2^k ones
            w = 2 << k
            t = block
            while w < self.n:
                t |= t << w
                w *= 2
            self.names[name] = t
        return self.names[name]


class B(object):       # value with one bit per DUT
    def __init__(self, a, b):
        self.t = (a, b)

    def __eq__(self, o):
        return isinstance(o, B) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class T(object):       # truth value
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, T) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class L(B):            # list of DUT numbers, as the set of them
    pass


class R(object):       # table rows that pass a truth value
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, R) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class Item(object):    # an item of a list of DUTs
    def __init__(self, lst):
        self.lst = lst


class Bit(object):     # 1 << item
    def __init__(self, lst):
        self.lst = lst


class Num(object):     # a number, known by its text
    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Num) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Count(object):
    def __init__(self, b):
        self.b = b


class Eval(object):
    """flags: column name -> kind; lists: parameter name -> requirement; chunk: is this expression a chunk of rows?"""

    def __init__(self, space, lists, minimum=(), sinks=None, nested=None):
        self.s = space
        self.lists = lists
        self.minimum = minimum
        self.sinks = sinks
        self.hits = []         # (call node, name, value)
        self.reads = []        # (node, column text, rows)
        self.counts = {}       # count variable -> (operator, bits counted, other side)
        self.nested = nested or {}
        self.depth = 0

    # ------------------------------------------------------------------ helpers
    def bits(self, kind, name):
        return B(self.s.var((kind, name, 0)), self.s.var((kind, name, 1)))

    def fresh(self, text):
        return T(self.s.var(('cond', text)))

    def merge(self, c, a, b):
        if a is b or a == b:
            return a
        n = self.s.full & ~c
        if isinstance(a, L) and isinstance(b, L):
            return L(*[(c & x) | (n & y) for x, y in zip(a.t, b.t)])
        if isinstance(a, int) and a == 0 and isinstance(b, B):
            a = B(0, 0)
        if isinstance(b, int) and b == 0 and isinstance(a, B):
            b = B(0, 0)
        if isinstance(a, B) and isinstance(b, B):
            return B(*[(c & x) | (n & y) for x, y in zip(a.t, b.t)])
        if isinstance(a, (T, R)) and type(a) is type(b):
            return type(a)((c & a.t) | (n & b.t))
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(tuple(sorted(set(a.key if isinstance(a.key, tuple) else (a.key,)) | set(b.key if isinstance(b.key, tuple) else (b.key,)))))
        return None

    def truth(self, e, env):
        """Truth table of a condition, None if unreadable."""
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(x, env) for x in e.values]
            if any(t is None for t in ts):
                return None
            out = ts[0]
            for t in ts[1:]:
                out = out & t if isinstance(e.op, ast.And) else out | t
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, env)
            return None if t is None else self.s.full & ~t
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = self.ev(e.left, env)
            if isinstance(v, L):     # a list of DUTs, None and empty mean the same here
                t = v.t[0] | v.t[1]
                return t if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)) else None
            return None
        v = self.ev(e, env)
        if isinstance(v, T):
            return v.t
        if isinstance(v, B):
            return v.t[0] | v.t[1]
        if isinstance(v, (int, bool)):
            return self.s.full if v else 0
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        s = self.s
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, (int, str)) else None
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return None
        if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) > 1 and not any(isinstance(x, ast.Starred) for x in e.elts):
            return ('seq', tuple(self.ev(x, env) for x in e.elts))
        if isinstance(e, ast.Dict) and e.keys and all(isinstance(k, ast.Constant) for k in e.keys):
            return ('dict', tuple((k.value, self.ev(v, env)) for k, v in zip(e.keys, e.values)))
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value, env)
            if isinstance(base, tuple) and base[0] == 'lists':
                return self.bits_list(base[1])
            i = None if isinstance(e.slice, ast.Slice) else self.ev(e.slice, env)
            if isinstance(base, tuple) and base[0] == 'dict':
                return dict(base[1]).get(i) if isinstance(i, (str, int)) else None
            if isinstance(base, tuple) and base[0] == 'seq':
                return base[1][i] if isinstance(i, int) and -len(base[1]) <= i < len(base[1]) else None
            if isinstance(i, str):
                if isinstance(base, R) and 'dut' in i:
                    self.reads.append((e, i, base))
                if i.endswith('_flag'):
                    return self.bits('flag', i)
                return None
            if isinstance(base, R) and isinstance(e.slice, (ast.BinOp, ast.JoinedStr)) and ('dut' in ast.unparse(e.slice)):
                self.reads.append((e, ast.unparse(e.slice), base))
                return None
            if isinstance(base, R):
                return R(base.t & i.t) if isinstance(i, T) else base
            if isinstance(base, (T, B)) and not isinstance(base, L):
                return base
            if isinstance(e.value, ast.Name) and base is None and isinstance(i, T):
                return R(i.t)
            if isinstance(e.value, ast.Name) and e.value.id in self.minimum:
                return Num('minimum')
            return None
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, (ast.Invert, ast.Not)):
                if isinstance(v, B):
                    return B(*[s.full & ~x for x in v.t])
                if isinstance(v, T):
                    return T(s.full & ~v.t)
            return None
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            return self.binop(e.op, a, b, e)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.Or):          # x or []
                v = self.ev(e.values[0], env)
                if isinstance(v, L) and all(isinstance(x, (ast.List, ast.Tuple)) and not x.elts for x in e.values[1:]):
                    return v
            t = self.truth(e, env)
            return None if t is None else T(t)
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, env)
            if t is None:
                t = self.fresh(ast.unparse(e.test)).t
            return self.merge(t, self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            return self.compare(type(e.ops[0]).__name__, a, b, e)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and not e.elts:
            return L(0, 0)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and len(e.elts) == 1:
            return ('single', ast.unparse(e.elts[0]))
        return None

    def bits_list(self, name):
        return L(self.s.var(('req', name, 0)), self.s.var(('req', name, 1)))

    def binop(self, op, a, b, e):
        s = self.s
        if isinstance(op, ast.LShift):
            if a == 1 and isinstance(b, Item):
                return Bit(b.lst)
            return None
        a, b = [L(s.var(x + (0,)), s.var(x + (1,))) if isinstance(x, tuple) and x[0] == 'single' and isinstance(y, L) else x for x, y in ((a, b), (b, a))]
        if isinstance(op, ast.Sub) and isinstance(a, L) and isinstance(b, L):
            return L(*[x & ~y for x, y in zip(a.t, b.t)])
        if isinstance(a, L) and isinstance(b, L) and isinstance(op, (ast.BitAnd, ast.BitOr)):
            return L(*[x & y if isinstance(op, ast.BitAnd) else x | y for x, y in zip(a.t, b.t)])
        if isinstance(a, L) or isinstance(b, L):
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and not isinstance(x, bool) and x == 0 and isinstance(y, B):
                x0 = B(0, 0)
                a, b = (x0, y) if x is a else (y, x0)
        f = {ast.BitAnd: lambda x, y: x & y, ast.BitOr: lambda x, y: x | y, ast.BitXor: lambda x, y: x ^ y}.get(type(op))
        if f is None:
            if isinstance(op, ast.Mult) and isinstance(a, T) and isinstance(b, T):
                return T(a.t & b.t)
            return None
        if isinstance(a, B) and isinstance(b, B):
            return B(*[f(x, y) for x, y in zip(a.t, b.t)])
        if isinstance(a, T) and isinstance(b, T):
            return T(f(a.t, b.t))
        if isinstance(a, T) or isinstance(b, T):
            # narrowing by something unknown
            if isinstance(op, ast.BitAnd):
                k, u = (a, e.right) if isinstance(a, T) else (b, e.left)
                return T(k.t & self.fresh(ast.unparse(u)).t)
        return None

    def compare(self, op, a, b, e):
        s = self.s
        if isinstance(b, (B, T, Count)) and not isinstance(a, (B, T, Count)):
            a, b = b, a
            op = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}.get(op, op)
        if isinstance(b, int) and b == 0 and isinstance(a, B):
            b = B(0, 0)
            op = {'Gt': 'NotEq', 'LtE': 'Eq'}.get(op, op)
        if isinstance(a, B) and isinstance(b, B) and op in ('Eq', 'NotEq'):
            t = s.full
            for x, y in zip(a.t, b.t):
                t &= s.full & ~(x ^ y)
            return T(t if op == 'Eq' else s.full & ~t)
        if isinstance(a, T) and isinstance(b, bool):
            want = b if op == 'Eq' else not b
            return a if want else T(s.full & ~a.t)
        if isinstance(a, Count):
            k = b.key if isinstance(b, Num) else b
            neg = op in ('Lt', 'LtE')
            op = {'Lt': 'GtE', 'LtE': 'Gt'}.get(op, op)
            k = k if isinstance(k, (int, str, tuple)) else ast.unparse(e.comparators[0]) if isinstance(e, ast.Compare) else '?'
            name = ('count', op, hash(a.b.t), k)
            self.counts[name] = (op, a.b, k)
            t = s.var(name)
            return T(s.full & ~t if neg else t)
        return None

    def call(self, e, env):
        s = self.s
        f = dotted(e.func) or ''
        name = f.split('.')[-1]
        if self.sinks and name in self.sinks:
            for k in e.keywords:
                self.hits.append((e, k.arg, self.ev(k.value, env)))
            for i, x in enumerate(e.args):
                self.hits.append((e, i, self.ev(x, env)))
            if name != 'append':
                return None
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'astype', 'view', 'tolist'):
            return self.ev(e.func.value, env)
        if name in ('array', 'asarray', 'list', 'tuple', 'set', 'sorted', 'frozenset', 'uint32', 'int', 'uint64', 'int64', 'bool', 'copy') and e.args:
            return self.ev(e.args[0], env)
        if name in ('ones', 'ones_like', 'full') or name in ('zeros', 'zeros_like'):
            dt = next((k.value for k in e.keywords if k.arg == 'dtype'), None)
            if dt is not None and ast.unparse(dt) in ('bool', 'np.bool_', "'bool'"):
                return T(s.full if name.startswith('ones') or name == 'full' and any(isinstance(a, ast.Constant) and a.value is True for a in list(e.args) + [k.value for k in e.keywords]) else 0)
            return None
        if name in ('logical_and', 'bitwise_and', 'logical_or', 'bitwise_or') and len(e.args) >= 2:
            a, b = self.ev(e.args[0], env), self.ev(e.args[1], env)
            op = ast.BitAnd() if name.endswith('and') else ast.BitOr()
            return self.binop(op, a, b, ast.BinOp(e.args[0], op, e.args[1]))
        if name in ('logical_not', 'invert', 'bitwise_not') and e.args:
            return self.ev(ast.UnaryOp(ast.Invert(), e.args[0]), env)
        if name in ('equal', 'not_equal') and len(e.args) == 2:
            return self.compare('Eq' if name == 'equal' else 'NotEq', self.ev(e.args[0], env), self.ev(e.args[1], env), e)
        if name in ('flatnonzero', 'nonzero', 'where', 'argwhere') and len(e.args) == 1:
            return self.ev(e.args[0], env)
        if name in ('any', 'all') and isinstance(e.func, ast.Name) and len(e.args) == 1 and isinstance(e.args[0], (ast.Tuple, ast.List)):
            t = self.truth(ast.BoolOp(ast.Or() if name == 'any' else ast.And(), e.args[0].elts), env)
            return None if t is None else T(t)
        if name == 'number_of_set_bits' and e.args:
            v = self.ev(e.args[0], env)
            return Count(v) if isinstance(v, B) else None
        if name == 'len' and e.args:
            v = self.ev(e.args[0], env)
            return Num('minimum') if isinstance(v, L) else None
        if name == 'max' and len(e.args) == 2:
            vs = [self.ev(x, env) for x in e.args]
            n = [v for v in vs if isinstance(v, Num)]
            if n and any(isinstance(v, int) for v in vs):
                return Num('at least ' + str(n[0].key))
            return None
        if name == 'sum' and e.args and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.orred(e.args[0], env, {'or'})
        if name == 'reduce' and len(e.args) >= 2 and isinstance(e.args[1], (ast.GeneratorExp, ast.ListComp)):
            if 'or' in ast.unparse(e.args[0]) or '|' in ast.unparse(e.args[0]):
                return self.orred(e.args[1], env, {'or'})
        if f.endswith('bitwise_or.reduce') and e.args and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.orred(e.args[0], env, {'or'})
        if isinstance(e.func, ast.Name) and e.func.id in self.nested and self.depth < 4:
            fn = self.nested[e.func.id]
            sub = dict(env) if isinstance(fn, ast.FunctionDef) and getattr(fn, '_closure', False) else {}
            ps = [a.arg for a in fn.args.args]
            for p, d in zip(ps[len(ps) - len(fn.args.defaults):], fn.args.defaults):
                sub[p] = self.ev(d, {})
            for p, a in zip(ps, e.args):
                sub[p] = self.ev(a, env)
            for k in e.keywords:
                if k.arg:
                    sub[k.arg] = self.ev(k.value, env)
            self.depth += 1
            self.block(fn.body, sub)
            self.depth -= 1
            r = sub.get('@return')
            if r is not None:
                return r
        vs = [self.ev(x, env) for x in list(e.args) + [k.value for k in e.keywords]]
        rows = [v for v in vs if isinstance(v, R)]
        if len(rows) == 1:        # something selected from the rows
            return R(rows[0].t & self.fresh('rows ' + name).t)
        return None

    def orred(self, g, env, _):
        if len(g.generators) != 1 or g.generators[0].ifs:
            return None
        it = self.ev(g.generators[0].iter, env)
        if not isinstance(it, L) or not isinstance(g.generators[0].target, ast.Name):
            return None
        sub = dict(env)
        sub[g.generators[0].target.id] = Item(it)
        v = self.ev(g.elt, sub)
        return B(*v.lst.t) if isinstance(v, Bit) else None

    # ------------------------------------------------------------------ statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            old = env.get(t.id)
            if isinstance(old, tuple) and old[0] == 'lists':     # broadcast or completed by the parameter check
                return
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and v[0] == 'seq' and len(v[1]) == len(t.elts):
            for x, y in zip(t.elts, v[1]):
                self.bind(x, y, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, None, env)

    def block(self, stmts, env):
        for st in stmts:
            if self.stmt(st, env) == 'end':
                return 'end'
        return None

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = None
            if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(st.targets[0].elts) == len(st.value.elts):
                vs = [self.ev(x, env) for x in st.value.elts]
                for t, v in zip(st.targets[0].elts, vs):
                    self.bind(t, v, env)
                return
            v = self.ev(st.value, env)
            for t in st.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.store(t, v, env, st)
                else:
                    self.bind(t, v, env)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                a, b = env.get(st.target.id), self.ev(st.value, env)
                if isinstance(b, Bit) and isinstance(st.op, (ast.BitOr, ast.Add)) and (a == 0 or isinstance(a, B)):
                    old = a if isinstance(a, B) else B(0, 0)
                    env[st.target.id] = B(*[x | y for x, y in zip(old.t, b.lst.t)])
                    return
                env[st.target.id] = self.binop(st.op, a, b, ast.BinOp(st.target, st.op, st.value))
            elif isinstance(st.target, ast.Subscript) and isinstance(st.target.value, ast.Name):
                self.store(st.target, None, env, st)
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                v = self.ev(st.value, env)
                if '@return' not in env:
                    env['@return'] = v
            return 'end'
        elif isinstance(st, ast.Raise):
            return 'end'
        elif isinstance(st, (ast.Continue, ast.Break)):
            return 'end'
        elif isinstance(st, ast.If):
            t = self.truth(st.test, env)
            a, b = dict(env), dict(env)
            ra, rb = self.block(st.body, a), self.block(st.orelse, b)
            if ra == 'end' and rb == 'end':
                if '@return' in a or '@return' in b:
                    env['@return'] = self.merge(t if t is not None else self.fresh(ast.unparse(st.test)).t, a.get('@return'), b.get('@return'))
                return 'end'
            if ra == 'end' or rb == 'end':
                env.clear()
                env.update(b if ra == 'end' else a)
                return
            changed = [k for k in set(a) | set(b) if not (a.get(k) is b.get(k) or a.get(k) == b.get(k))]
            if changed and t is None and any(isinstance(a.get(k), (B, T, R)) or isinstance(b.get(k), (B, T, R)) for k in changed):
                t = self.fresh(ast.unparse(st.test)).t
            env.clear()
            env.update(a)
            for k in changed:
                env[k] = self.merge(t if t is not None else 0, a.get(k), b.get(k))
        elif isinstance(st, (ast.For,)):
            it = self.ev(st.iter, env)
            c = st.iter
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'items' and not c.args:
                d = self.ev(c.func.value, env)
                if isinstance(d, tuple) and d[0] == 'dict':
                    it = ('seq', tuple(('seq', x) for x in d[1]))
            row = it
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'enumerate' and c.args:
                row = self.ev(c.args[0], env)
            if isinstance(it, tuple) and it[0] == 'seq':
                for v in it[1]:
                    self.bind(st.target, v, env)
                    self.block(st.body, env)
            elif isinstance(it, L) and isinstance(st.target, ast.Name):
                env[st.target.id] = Item(it)
                self.block(st.body, env)
                for k, v in list(env.items()):
                    if isinstance(v, Bit) and v.lst is it:       # only the last item is left
                        x = self.s.var(('cond', 'last item'))
                        a, b = v.lst.t
                        env[k] = B(a & (x | ~b) & self.s.full, b & ~x)
            elif isinstance(row, R) and not (isinstance(c, ast.Call) and c.args and not isinstance(c.args[0], ast.Name)):
                self.loop_targets(st, env)
                t = st.target
                t = t.elts[-1] if isinstance(t, ast.Tuple) else t
                if isinstance(t, ast.Name):
                    env[t.id] = row
                self.block(st.body, env)
            else:
                self.loop_targets(st, env)
                before = dict(env)
                self.block(st.body, env)
            return
        elif isinstance(st, ast.While):
            self.block(st.body, env)
        elif isinstance(st, ast.With):
            return self.block(st.body, env)
        elif isinstance(st, ast.Try):
            self.block(st.body, env)
            for h in st.handlers:
                self.block(h.body, dict(env))
            self.block(st.orelse, env)
            self.block(st.finalbody, env)
        elif isinstance(st, ast.FunctionDef):
            st._closure = True
            self.nested = dict(self.nested)
            self.nested[st.name] = st

    def loop_targets(self, st, env):
        t = st.target
        names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
        for n in names:
            env[n] = None
        call = st.iter
        while isinstance(call, ast.Call) and (dotted(call.func) or '').split('.')[-1] in ('tqdm', 'enumerate') and call.args and isinstance(call.args[0], ast.Call):
            call = call.args[0]
        if isinstance(call, ast.Call) and (dotted(call.func) or '').split('.')[-1] == 'data_aligned_at_events':
            first = t.elts[0] if isinstance(t, ast.Tuple) else t
            if isinstance(first, ast.Name):
                env[first.id] = R(self.s.full)

    def store(self, t, v, env, st):
        """x[selection] = value / x[selection] &= value on truth arrays."""
        base = env.get(t.value.id)
        if not isinstance(base, T):
            return
        i = self.ev(t.slice, env)
        if isinstance(st, ast.Assign) and isinstance(i, T) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, (bool, int)):
            base = T(base.t | i.t) if st.value.value else T(base.t & ~i.t)
        else:
            base = T(base.t & self.fresh(ast.unparse(st)).t) if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.BitAnd) else None
        env[t.value.id] = base
