"""Finite abstraction of a generator that reads a table in event-aligned chunks.

The function body is interpreted over abstract worlds: every relation that matters between the sizes (position in the table,
chunk size, last row, end of the table) and between the event numbers (first and last of the chunk, requested start and stop)
has one representative, so the worlds cover all inputs; positions of event boundaries inside the chunk stay symbolic.  Loops are
interpreted for one generic iteration.  What cannot be decided is followed both ways.
"""
import ast

from .loader import AnalysisError, dotted

C = 50          # chunk size
TOP = ('top',)


class Pos(object):
    """const + sum of event boundary positions inside the chunk (each > 0 and < number of rows of the chunk)."""

    def __init__(self, const, terms):
        self.const, self.terms = const, tuple(sorted((k, c) for k, c in terms.items() if c))

    def __eq__(self, o):
        return isinstance(o, Pos) and (self.const, self.terms) == (o.const, o.terms)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.const, self.terms))

    def __repr__(self):
        return '%s%s' % (self.const, ''.join(' %+d*before(%s)' % (c, k) for k, c in self.terms))


def num(v):
    return isinstance(v, (int, Pos)) and not isinstance(v, bool)


def add(a, b, sign=1):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if not num(a) or not num(b):
        return TOP
    ta, tb = dict(a.terms) if isinstance(a, Pos) else {}, dict(b.terms) if isinstance(b, Pos) else {}
    c = (a.const if isinstance(a, Pos) else a) + sign * (b.const if isinstance(b, Pos) else b)
    for k, v in tb.items():
        ta[k] = ta.get(k, 0) + sign * v
    ta = {k: v for k, v in ta.items() if v}
    return Pos(c, ta) if ta else c


class World(object):
    def __init__(self, prog, fn, params, first, last, nrows):
        self.prog, self.fn, self.params, self.first, self.last, self.nrows = prog, fn, params, first, last, nrows
        self.reports = []
        self.seen = {'data': 0, 'search': 0}
        self.depth = 0
        self.rows = None

    # ------------------------------------------------------------ helpers
    def before(self, v, rows):
        """Number of rows of the chunk with an event number below v."""
        if v <= self.first:
            return 0
        if v > self.last:
            return rows
        return Pos(0, {v: 1})

    def range(self, v):
        if isinstance(v, Pos):
            lo = hi = v.const
            n = (self.rows or C)
            for _, c in v.terms:
                lo, hi = (lo + c, hi + c * (n - 1)) if c > 0 else (lo + c * (n - 1), hi + c)
            return lo, hi
        return v, v

    def compare(self, op, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Pos) or isinstance(b, Pos):
                if (a is None) != (b is None) and op in ('Is', 'Eq'):
                    return False if TOP not in (a, b) else None
                if (a is None) != (b is None) and op in ('IsNot', 'NotEq'):
                    return True if TOP not in (a, b) else None
                return None
            try:
                return {'Is': lambda: a is b, 'IsNot': lambda: a is not b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                        'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
            except (TypeError, KeyError):
                return None
        if not num(a) or not num(b):
            return None
        d = add(a, b, -1)
        lo, hi = self.range(d)
        if op in ('Lt',):
            return True if hi < 0 else False if lo >= 0 else None
        if op == 'LtE':
            return True if hi <= 0 else False if lo > 0 else None
        if op == 'Gt':
            return True if lo > 0 else False if hi <= 0 else None
        if op == 'GtE':
            return True if lo >= 0 else False if hi < 0 else None
        if op in ('Eq', 'Is', 'NotEq', 'IsNot'):
            r = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
            return r if op in ('Eq', 'Is') or r is None else not r
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, 'x_' + type(n).__name__, None)
        return m(n, env) if m else TOP

    def x_Constant(self, n, env):
        return n.value

    def x_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        return ('name', n.id)

    def x_Tuple(self, n, env):
        return ('seq', tuple(self.ev(e, env) for e in n.elts))

    x_List = x_Tuple

    def x_Attribute(self, n, env):
        b = self.ev(n.value, env)
        if b == ('table',):
            if n.attr in ('nrows',):
                return self.nrows
            if n.attr == 'shape':
                return ('seq', (self.nrows,))
            return ('tattr', n.attr)
        if isinstance(b, tuple) and b[0] in ('chunk', 'ev'):
            if n.attr == 'shape':
                return ('seq', (add(b[2], b[1], -1),))
            if n.attr == 'size':
                return add(b[2], b[1], -1)
        return ('attrof', b, n.attr)

    def x_Subscript(self, n, env):
        b = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, env) if n.slice.lower is not None else 0
            hi = self.ev(n.slice.upper, env) if n.slice.upper is not None else None
            if n.slice.step is not None:
                return TOP
            if b == ('table',):
                return self.chunk(lo, self.nrows if hi is None else hi)
            if isinstance(b, tuple) and b[0] == 'chunk':
                ln = add(b[2], b[1], -1)
                hi = ln if hi is None else hi
                if isinstance(lo, int) and lo < 0:
                    lo = add(ln, lo)
                if isinstance(hi, int) and hi < 0:
                    hi = add(ln, hi)
                if not num(lo) or not num(hi):
                    return TOP
                a, e = add(b[1], lo), add(b[1], hi)
                if isinstance(hi, int) and isinstance(ln, int) and hi > ln:
                    e = b[2]
                return ('chunk', a, e)
            return TOP
        k = self.ev(n.slice, env)
        if b == ('table',) and isinstance(k, tuple):
            return TOP
        if isinstance(b, tuple) and b[0] == 'chunk':
            if k == 'event_number':
                return ('ev', b[1], b[2])
            if isinstance(k, tuple) and k[0] == 'mask':
                p = self.maskpos(k, b)
                return ('chunk', b[1], add(b[1], p)) if p is not None and k[1] in ('Lt', 'LtE') else TOP
            if isinstance(k, int):
                return ('row', b, k)
            return TOP
        if isinstance(b, tuple) and b[0] == 'row':
            return self.at(('ev', b[1][1], b[1][2]), b[2]) if k == 'event_number' else TOP
        if isinstance(b, tuple) and b[0] == 'ev':
            return self.at(b, k)
        if isinstance(b, tuple) and b[0] == 'seq' and isinstance(k, int) and -len(b[1]) <= k < len(b[1]):
            return b[1][k]
        if isinstance(b, tuple) and b[0] == 'indices':
            # rows where a condition on the event number holds: first / last of them
            if k == 0:
                return b[1]
            if k == -1:
                return b[2]
        return TOP

    def at(self, e, k):
        if k == 0 and e[1] == self.origin:
            return self.first
        if k == -1 and e[2] == self.end:
            return self.last
        if isinstance(k, Pos) and k.const == 0 and len(k.terms) == 1 and k.terms[0][1] == 1 and e[1] == self.origin:
            return self.last if k.terms[0][0] == self.last else TOP
        if isinstance(k, int) and e[1] == self.origin and e[2] == self.end and k == add(e[2], e[1], -1) - 1 if isinstance(k, int) and num(add(e[2], e[1], -1)) and isinstance(add(e[2], e[1], -1), int) else False:
            return self.last
        return TOP

    def maskpos(self, m, b):
        """Rows of the leading part selected by ev < v / ev <= v (None if the mask is no such part)."""
        _, op, v = m
        rows = add(b[2], b[1], -1)
        if not isinstance(v, int):
            return None
        if op == 'Lt':
            return self.before(v, rows)
        if op == 'LtE':
            return self.before(v + 1, rows)
        if op == 'GtE':
            return self.before(v, rows)
        if op == 'Gt':
            return self.before(v + 1, rows)
        if op == 'Eq' and v in (self.first, self.last):
            return self.before(v, rows)
        if op == 'NotEq' and v == self.last:
            return self.before(v, rows)
        return None

    def x_Compare(self, n, env):
        if len(n.ops) != 1:
            vals = [self.ev(n.left, env)] + [self.ev(c, env) for c in n.comparators]
            out = True
            for o, a, b in zip(n.ops, vals, vals[1:]):
                r = self.compare(type(o).__name__, a, b)
                if r is False:
                    return False
                if r is None:
                    out = TOP
            return out
        a, b = self.ev(n.left, env), self.ev(n.comparators[0], env)
        op = type(n.ops[0]).__name__
        if isinstance(a, tuple) and a[0] == 'ev' and isinstance(b, int):
            return ('mask', op, b)
        if isinstance(b, tuple) and b[0] == 'ev' and isinstance(a, int):
            return ('mask', {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op), a)
        r = self.compare(op, a, b)
        return TOP if r is None else r

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, str)):
            return bool(v)
        if isinstance(v, Pos):
            r = self.compare('Eq', v, 0)
            return None if r is None else not r
        return None

    def x_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        unknown, last = False, None
        for e in n.values:
            last = self.ev(e, env)
            t = self.truth(last)
            if t is None:
                unknown = True
            elif t != is_and:
                return last if not unknown else TOP if False else (last if isinstance(last, bool) or last is None else last) if not unknown else (False if is_and and t is False else True if not is_and else TOP)
        return TOP if unknown else last

    def x_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return TOP if t is None else not t
        if isinstance(n.op, ast.USub) and num(v):
            return add(0, v, -1)
        return TOP

    def x_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, ast.Add):
            return add(a, b)
        if isinstance(n.op, ast.Sub):
            return add(a, b, -1)
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(n.op, ast.Mult):
                return a * b
        return TOP

    def x_IfExp(self, n, env):
        t = self.truth(self.ev(n.test, env))
        if t is None:
            a, b = self.ev(n.body, env), self.ev(n.orelse, env)
            return a if a == b else TOP
        return self.ev(n.body if t else n.orelse, env)

    def chunk(self, lo, hi):
        if num(lo) and num(hi) and isinstance(hi, int) and hi > self.nrows:
            hi = self.nrows
        if not num(lo) or not num(hi):
            return TOP
        if self.origin is None:
            self.origin, self.end = lo, hi
            d = add(hi, lo, -1)
            self.rows = d if isinstance(d, int) else C
        return ('chunk', lo, hi)

    def x_Call(self, n, env):
        f = n.func
        args = [self.ev(a, env) for a in n.args]
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords if k.arg}
        name = dotted(f) or ''
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            if b == ('table',) and f.attr == 'read':
                lo = args[0] if args else kws.get('start', 0)
                hi = args[1] if len(args) > 1 else kws.get('stop', self.nrows)
                return self.chunk(lo, hi)
            if b == ('table',) and f.attr == 'col':
                return TOP
            if isinstance(b, tuple) and b[0] == 'ev':
                if f.attr == 'searchsorted':
                    return self.search(b, args, kws)
                if f.attr == 'max':
                    return self.at(b, -1)
                if f.attr == 'min':
                    return self.at(b, 0)
            if isinstance(b, tuple) and b[0] == 'mask' and f.attr == 'sum':
                return self.count(b)
            if isinstance(b, tuple) and b[0] == 'mask' and f.attr == 'argmax':
                return self.arg(b)
            if isinstance(b, tuple) and b[0] == 'mask' and f.attr == 'nonzero':
                return ('seq', (self.indices(b),))
        last = name.split('.')[-1]
        if name.split('.')[0] in ('np', 'numpy') and args:
            a = args[0]
            if last == 'searchsorted' and isinstance(a, tuple) and a[0] == 'ev':
                return self.search(a, args[1:], {k: v for k, v in kws.items() if k != 'a'})
            if isinstance(a, tuple) and a[0] == 'mask':
                if last in ('count_nonzero', 'sum'):
                    return self.count(a)
                if last == 'argmax':
                    return self.arg(a)
                if last in ('where', 'nonzero') and len(args) == 1:
                    return ('seq', (self.indices(a),))
                if last == 'flatnonzero':
                    return self.indices(a)
            if isinstance(a, tuple) and a[0] == 'ev' and last in ('max', 'amax'):
                return self.at(a, -1)
            if isinstance(a, tuple) and a[0] == 'ev' and last in ('min', 'amin'):
                return self.at(a, 0)
            if last in ('minimum', 'maximum') and len(args) == 2:
                return self.minmax(last[:3], args)
            if last in ('int64', 'int32'):
                return a
        if isinstance(f, ast.Name):
            if f.id in ('min', 'max') and len(args) >= 2:
                return self.minmax(f.id, args)
            if f.id == 'len' and args:
                a = args[0]
                if a == ('table',):
                    return self.nrows
                if isinstance(a, tuple) and a[0] in ('chunk', 'ev'):
                    return add(a[2], a[1], -1)
                return TOP
            if f.id in ('int', 'bool') and args:
                if f.id == 'bool':
                    t = self.truth(args[0])
                    return TOP if t is None else t
                return args[0]
            g = self.fn.module.functions.get(f.id)
            if g is not None and self.depth < 4 and not g.is_generator:
                return self.call(g, args, kws)
        return TOP

    def minmax(self, op, args):
        out = args[0]
        for b in args[1:]:
            r = self.compare('LtE', out, b)
            if r is None:
                return TOP
            if r != (op == 'min'):
                out = b
        return out

    def search(self, e, args, kws):
        v = args[0] if args else kws.get('v')
        side = args[1] if len(args) > 1 else kws.get('side', 'left')
        rows = add(e[2], e[1], -1)
        if not isinstance(v, int) or side not in ('left', 'right') or e[1] != self.origin:
            return TOP
        return self.before(v + (side == 'right'), rows)

    def count(self, m):
        rows = self.rows
        p = self.maskpos(m, ('chunk', self.origin, self.end))
        if p is None:
            return TOP
        if m[1] in ('Lt', 'LtE', 'NotEq'):
            return p
        if m[1] in ('GtE', 'Gt') or m[1] == 'Eq' and m[2] == self.last:
            return add(rows, p, -1)
        if m[1] == 'Eq' and m[2] == self.first:
            return self.before(m[2] + 1, rows)
        return TOP

    def arg(self, m):
        if m[1] in ('GtE', 'Gt', 'Eq') and m[2] <= self.last - (m[1] == 'Gt'):
            p = self.maskpos(m, ('chunk', self.origin, self.end))
            return TOP if p is None else p
        return TOP

    def indices(self, m):
        p = self.maskpos(m, ('chunk', self.origin, self.end))
        if p is None:
            return TOP
        if m[1] in ('Lt', 'LtE', 'NotEq'):
            return ('indices', 0, add(p, -1))
        return ('indices', p, add(self.rows, -1)) if m[1] != 'Eq' or m[2] == self.last else ('indices', p, TOP)

    def call(self, g, args, kws):
        """Value of a helper; several different results give an unknown value."""
        env = {}
        for p, d in g.defaults.items():
            env[p] = self.ev(d, {})
        for p, v in zip(g.params, args):
            env[p] = v
        env.update(kws)
        env['@yields'] = ()
        self.depth += 1
        outs = self.block(g.node.body, env)
        self.depth -= 1
        vals = [e.get('@ret') for s, e in outs if s in ('return', 'fall')]
        if any(s == 'raise' for s, e in outs):
            self.helper_raises = True
        if not vals:
            return ('never',)
        return vals[0] if all(v == vals[0] for v in vals) else TOP

    # ------------------------------------------------------------ statements: list of (status, env)
    def block(self, stmts, env):
        cur = [('fall', env)]
        for s in stmts:
            nxt = []
            for st, e in cur:
                if st != 'fall':
                    nxt.append((st, e))
                else:
                    nxt += self.stmt(s, e)
            cur = nxt
            if len(cur) > 400:
                raise AnalysisError('%s: too many paths' % self.fn.qual)
        return cur

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self.bind(e, v[1][i] if isinstance(v, tuple) and v[0] == 'seq' and len(v[1]) == len(t.elts) else TOP, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            if v == ('never',):
                return [('raise', env)]
            env = dict(env)
            for t in s.targets:
                self.bind(t, v, env)
            return [('fall', env)]
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            env = dict(env)
            self.bind(s.target, self.ev(s.value, env), env)
            return [('fall', env)]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            env = dict(env)
            a, b = env.get(s.target.id, TOP), self.ev(s.value, env)
            env[s.target.id] = add(a, b) if isinstance(s.op, ast.Add) else add(a, b, -1) if isinstance(s.op, ast.Sub) else TOP
            return [('fall', env)]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield):
                env = dict(env)
                v = self.ev(s.value.value, env) if s.value.value is not None else None
                env['@yields'] = env['@yields'] + ((v, s),)
                return [('fall', env)]
            if isinstance(s.value, ast.YieldFrom) and isinstance(s.value.value, ast.Call):
                return self.delegate(s.value.value, env)
            if isinstance(s.value, ast.Call) and self.ev(s.value, env) == ('never',):
                return [('raise', env)]
            return [('fall', env)]
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.YieldFrom) and isinstance(s.value.value, ast.Call):
                return [('return' if st == 'fall' else st, e) for st, e in self.delegate(s.value.value, env)]
            env = dict(env)
            env['@ret'] = self.ev(s.value, env) if s.value is not None else None
            return [('return', env)]
        if isinstance(s, ast.Raise):
            return [('raise', env)]
        if isinstance(s, ast.Break):
            return [('break', env)]
        if isinstance(s, ast.Continue):
            return [('continue', env)]
        if isinstance(s, ast.If):
            t = self.truth(self.ev(s.test, env))
            out = []
            if t is not False:
                out += self.block(s.body, dict(env))
            if t is not True:
                out += self.block(s.orelse, dict(env))
            return out
        if isinstance(s, ast.While):
            return self.loop(s, env)
        if isinstance(s, ast.With):
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            return self.block(s.body + s.finalbody, env)
        if isinstance(s, ast.For):
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                # for item in helper(..): yield item
                if isinstance(s.iter, ast.Call) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) \
                        and s.body[0].value.value is not None and ast.dump(s.body[0].value.value).replace('Load', '') == ast.dump(s.target).replace('Store', ''):
                    return self.delegate(s.iter, env)
                raise AnalysisError('%s: for loop with yield not understood' % self.fn.qual)
            return [('fall', env)]
        return [('fall', env)]

    def delegate(self, call, env):
        g = self.fn.module.functions.get(dotted(call.func) or '')
        if g is None:
            raise AnalysisError('%s: delegated generator not found' % self.fn.qual)
        e2 = {p: self.ev(d, {}) for p, d in g.defaults.items()}
        for p, a in zip(g.params, call.args):
            e2[p] = self.ev(a, env)
        for k in call.keywords:
            if k.arg:
                e2[k.arg] = self.ev(k.value, env)
        e2['@yields'] = env['@yields']
        out = []
        for st, e in self.block(g.node.body, e2):
            r = dict(env)
            r['@yields'] = e['@yields']
            out.append(('fall' if st in ('fall', 'return') else st, r))
        return out

    def entry(self, s, r, env):
        """The loop is not entered: nothing must be left to read."""
        st = r.args[0] if r.args else next((k.value for k in r.keywords if k.arg == 'start'), None)
        v = env.get(st.id, TOP) if isinstance(st, ast.Name) else TOP
        stop = self.params.get('stop_index')
        if isinstance(v, int) and not isinstance(v, bool) and v < (self.nrows if stop is None else stop):
            self.reports.append(('data', s, 'reading ends although rows are left'))

    def loop(self, s, env):
        reads = [x for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'read']
        t = self.truth(self.ev(s.test, env))
        if t is False:
            if reads and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                self.entry(s, reads[0], env)
            return self.block(s.orelse, env)
        if not reads and not any(isinstance(x, ast.Yield) for x in ast.walk(s)):
            env = dict(env)
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    env[x.id] = TOP
            return [('fall', env)]
        if not reads:
            raise AnalysisError('%s: loop does not read the table' % self.fn.qual)
        r = reads[0]
        st = r.args[0] if r.args else next((k.value for k in r.keywords if k.arg == 'start'), None)
        if not isinstance(st, ast.Name):
            raise AnalysisError('%s: start of the read is not a variable' % self.fn.qual)
        cur = st.id
        # the read may use another name for the variable carried by the loop
        carried = [x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)]
        local = [a for a in s.body if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and a.targets[0].id == cur and isinstance(a.value, ast.Name)]
        if local and cur not in carried:
            cur = local[0].value.id
        self.origin = self.end = None
        start = env.get(cur, TOP)
        outs = self.block(s.body, env)
        kind = 'data' if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) else 'search'
        self.seen[kind] += 1
        for status, e in outs:
            self.outcome(kind, s, cur, start, status, e)
        if kind == 'data':
            e = dict(env)
            return [('fall', e)]
        # after a search: some position in the table
        e = dict(env)
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                e[x.id] = TOP
        e[cur] = start
        return [('fall', e)]

    # ------------------------------------------------------------ expectation
    def outcome(self, kind, node, cur, S, status, e):
        if status == 'fall':
            status = 'continue'
        p = self.params
        stop, start = p['stop_event_number'], p['start_event_number']
        nxt = e.get(cur, TOP)
        if self.origin != S:
            self.report(kind, node, 'rows are read from another position than the current one')
            return
        E = self.end
        P = p['stop_index'] if p['stop_index'] is not None else self.nrows
        want = min(S + C, P)
        if E != want:
            self.report(kind, node, 'the rows that are read end at the wrong position (chunk size or end of the range not kept)')
            return
        rows = E - S
        full = rows == C
        one = self.first == self.last
        if kind == 'search':
            if self.last < start:
                if status != 'continue':
                    self.report(kind, node, 'the search for the first event ends before it is reached')
                elif nxt not in (S + C, E):
                    self.report(kind, node, 'the search for the first event does not go on with the next chunk')
                return
            al, fail = p['first_event_aligned'], p['fail_on_missing_events']
            special = not al and self.first == start and p['start_index'] not in (None, 0)
            v = start + 1 if special else start
            if status == 'raise':
                if full and one:
                    return
                if fail and (special or start not in (self.first, self.last)):
                    return
                self.report(kind, node, 'an error is raised although the first event is in the chunk')
                return
            good = add(S, self.before(v, rows))
            if status == 'return':
                self.report(kind, node, 'nothing is delivered although the first event is in the chunk')
            elif nxt == TOP:
                raise AnalysisError('%s: position of the first event not understood' % self.fn.qual)
            elif nxt != good:
                self.report(kind, node, 'reading does not start exactly at the first row of the requested first event')
            elif status == 'continue' and not any(isinstance(x, ast.Name) and x.id != cur for x in ast.walk(node.test)):
                self.report(kind, node, 'the search does not end')
            return
        # data loop
        if stop is not None and self.last >= stop:
            v = stop
            B = self.before(stop, rows)
            done = True
        elif E == self.nrows:
            v, B, done = None, rows, True
        else:
            v = self.last
            B = self.before(self.last, rows)
            done = E == P
        ys = e['@yields']
        out = []
        for val, n in ys:
            if not (isinstance(val, tuple) and val[0] == 'seq' and len(val[1]) == 2):
                raise AnalysisError('%s: delivered value not understood' % self.fn.qual)
            rws, idx = val[1]
            if not (isinstance(rws, tuple) and rws[0] == 'chunk') or not num(idx):
                raise AnalysisError('%s: delivered rows or index not understood' % self.fn.qual)
            out.append((rws[1], rws[2], idx, n))
        if B == 0:
            if any(a != b for a, b, _, _ in out):
                self.report(kind, node, 'rows beyond the requested last event or of an unfinished event are delivered')
            elif out:
                self.report(kind, node, 'an empty chunk is delivered')
            elif status == 'continue' and nxt == S:
                self.report(kind, node, 'the loop does not end')
            elif full and one and not (stop is not None and self.last >= stop) and status != 'raise':
                self.report(kind, node, 'an event that does not fit into the chunk ends the reading without an error, the rest of the events is lost')
            elif status == 'continue':
                self.report(kind, node, 'rows that were not delivered are skipped')
            return
        if status == 'raise':
            self.report(kind, node, 'an error is raised although complete events were read')
            return
        if not out:
            self.report(kind, node, 'complete events are not delivered')
            return
        if len(out) > 1:
            self.report(kind, node, 'more than one chunk is delivered for one read')
            return
        a, b, idx, n = out[0]
        good = add(S, B)
        if a != S:
            self.report(kind, n, 'the delivered rows do not start where the previous chunk ended')
        elif b != good:
            if stop is not None and self.last >= stop:
                self.report(kind, n, 'the delivered rows do not end exactly before the requested last event')
            elif E == self.nrows:
                self.report(kind, n, 'the last event of the table is not delivered')
            else:
                self.report(kind, n, 'the delivered rows do not end at the start of the last, possibly incomplete event of the chunk')
        elif idx != good:
            self.report(kind, n, 'the index handed out with the rows is not the one behind them')
        elif status == 'continue' and nxt != good:
            self.report(kind, n, 'reading does not continue where the delivered rows end')
        elif status in ('break', 'return') and not done:
            self.report(kind, n, 'reading ends although there are further events')

    def report(self, kind, node, msg):
        self.reports.append((kind, node, msg))

    def run(self):
        env = {'@yields': ()}
        for p in self.fn.params:
            env[p] = self.params[p] if p in self.params else self.ev(self.fn.defaults[p], {}) if p in self.fn.defaults else TOP
        env[self.fn.params[0]] = ('table',)
        self.origin = self.end = None
        return self.block(self.fn.node.body, env)


def worlds():
    first = 10
    for last in (10, 11, 20):
        for off in (None, 100):
            s = off or 0
            for rem in (1, 30, 50, 130):
                if rem == 1 and last != first:
                    continue
                for stop_given, extra in ((False, 0), (True, 0), (True, 70)):
                    for start, stop in [(None, x) for x in (None, 5, 10, 11, 15, 20, 21, 30)] + [(5, None), (5, 15)]:
                        yield dict(kind='data', first=first, last=last, nrows=s + rem + extra,
                                   params=dict(start_event_number=start, stop_event_number=stop, start_index=off, stop_index=s + rem if stop_given else None,
                                               chunk_size=C, try_speedup=False, first_event_aligned=True, fail_on_missing_events=False))
                    for start in (5, 10, 11, 15, 20, 21, 30):
                        for al in (True, False):
                            for fail in (True, False):
                                yield dict(kind='search', first=first, last=last, nrows=s + rem + extra,
                                           params=dict(start_event_number=start, stop_event_number=None, start_index=off, stop_index=s + rem if stop_given else None,
                                                       chunk_size=C, try_speedup=False, first_event_aligned=al, fail_on_missing_events=fail))


def analyse(prog, fn):
    """(reports {message: (node, example)}, number of worlds, loops seen)."""
    need = {'start_event_number', 'stop_event_number', 'start_index', 'stop_index', 'chunk_size'}
    if not need <= set(fn.params):
        raise AnalysisError('%s: parameters changed' % fn.qual)
    reports, n, seen = {}, 0, {'data': 0, 'search': 0}
    for w in worlds():
        params = {k: v for k, v in w['params'].items() if k in fn.params}
        params.setdefault('first_event_aligned', True)
        params.setdefault('fail_on_missing_events', False)
        W = World(prog, fn, params, w['first'], w['last'], w['nrows'])
        W.run()
        n += 1
        for k, v in W.seen.items():
            seen[k] += v
        for kind, node, msg in W.reports:
            if kind == w['kind']:
                reports.setdefault(msg, (kind, node, w))
    return reports, n, seen
