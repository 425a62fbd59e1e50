"""Which entries a count counts: abstract interpretation over row selections.

A column of a table, and everything computed from it entry by entry, is Rows: the expression without any selection (expr), the conditions
(atoms) its entries were selected by (sel) and, for a boolean array, the conjunction it stands for (atoms).  Masks combined with and, applied one
after the other, or through where() give the same set of conditions.  A histogram or a number of entries is Cnt: terms of (coordinates, binning,
selection) with the path conditions under which they are added.  Every quotient of two Cnt is handed to the client.
A loop body is interpreted once; branches are both followed and joined.  Nothing is executed.
"""
import ast
import hashlib
import re

from .calls import bound, callee
from .loader import dotted


class Atom(object):
    """One condition on an entry: text identifies it, may/must are the columns and parameters it may/must depend on."""

    def __init__(self, text, may=(), must=None):
        self.text, self.may = short(text), frozenset(may)
        self.must = self.may if must is None else frozenset(must)

    def __eq__(self, o):
        return isinstance(o, Atom) and self.text == o.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return FULL.get(self.text, self.text)


FULL = {}


def short(t):
    if len(t) <= 160:
        return t
    h = '#' + hashlib.md5(t.encode()).hexdigest()[:12]
    c = re.search(r"\['([^']*)'( % [^\]]*)?\]$", t)
    FULL[h] = "..['%s']" % c.group(1) if c else re.sub('#[0-9a-f]{12}', lambda m: FULL.get(m.group(), m.group()), t)[:150] + '..'
    return h


class Opq(object):
    def __init__(self, text, cols=(), factors=(), must=None):
        self.text, self.cols, self.factors = short(text), frozenset(cols), tuple(factors)
        self.must = self.cols if must is None else frozenset(must)


class Str(Opq):
    """A string whose constant part is known (a column name)."""

    def __init__(self, text, tpl):
        Opq.__init__(self, text)
        self.tpl = tpl


class Rows(object):
    def __init__(self, expr, cols=(), sel=frozenset(), atoms=None, comps=None, must=None):
        self.expr, self.cols, self.sel, self.atoms, self.comps = short(expr), frozenset(cols), frozenset(sel), atoms, comps
        self.must = self.cols if must is None else frozenset(must)

    @property
    def text(self):
        return self.expr


class Index(object):
    """Positions where a condition holds (where, nonzero)."""

    def __init__(self, rows):
        self.rows = rows
        self.text = 'where(%s)' % rows.expr


class Shape(object):
    def __init__(self, rows):
        self.rows = rows
        self.text = 'shape(%s)' % rows.expr


class Any(object):
    """Truth of 'there is an entry with these conditions'."""

    def __init__(self, sel, cols):
        self.sel, self.cols = frozenset(sel), frozenset(cols)
        self.text = short('any(%s)' % ', '.join(sorted(a.text for a in self.sel)))


class Tup(object):
    def __init__(self, items, kind='tuple'):
        self.items = list(items)
        self.kind = kind

    @property
    def text(self):
        return '(' + ', '.join(text(i) for i in self.items) + ')'


class Cont(object):
    """A list with one entry per element of something; the elements are kept in the environment."""

    number = 0

    def __init__(self, default, tag):
        self.default, self.text = default, tag
        Cont.number += 1
        self.uid = Cont.number


class Cnt(object):
    """terms: {(coords, bins, sel): (conds, multiplicity)}, base: other summands (what was there before)."""

    def __init__(self, terms=None, base=()):
        self.terms = dict(terms or {})
        self.base = tuple(base)
        self.summed = False

    @property
    def text(self):
        return short('cnt{%s|%s}' % ('; '.join(sorted('%s@%s[%s]' % (c, b, ','.join(sorted(a.text for a in s))) for c, b, s in self.terms)), ','.join(text(b) for b in self.base)))


def summed(v):
    out = Cnt(v.terms, v.base)
    out.summed = True
    return out


class Cond(object):
    """A path condition."""

    def __init__(self, text, pol, cols, sel=None):
        self.text, self.pol, self.cols, self.sel = short(text), pol, frozenset(cols), sel

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.text, self.pol) == (o.text, o.pol)

    def __hash__(self):
        return hash((self.text, self.pol))

    def __repr__(self):
        return ('' if self.pol else 'not ') + FULL.get(self.text, self.text)


def text(v):
    return v.text if v is not None else '?'


def cols(v):
    if isinstance(v, Rows):
        c = v.cols
        for a in v.sel:
            c = c | a.may
        return c
    if isinstance(v, (Index, Shape)):
        return cols(v.rows)
    if isinstance(v, (Opq, Any)):
        return v.cols
    if isinstance(v, Tup):
        return frozenset().union(*[cols(i) for i in v.items]) if v.items else frozenset()
    if isinstance(v, Cnt):
        out = frozenset()
        for c, b, s in v.terms:
            for a in s:
                out |= a.may
        for b in v.base:
            out |= cols(b)
        return out
    if isinstance(v, Cont):
        return frozenset()
    return frozenset()


def must(v):
    if isinstance(v, (Rows, Opq)):
        return v.must
    if isinstance(v, Tup):
        return frozenset().union(*[must(i) for i in v.items]) if v.items else frozenset()
    return cols(v)


def parts(v):
    """Rows among a value (looking into tuples)."""
    if isinstance(v, Rows):
        return [v]
    if isinstance(v, Tup):
        return [r for i in v.items for r in parts(i)]
    if isinstance(v, (Index,)):
        return [v.rows]
    return []


def has_counts(v):
    return isinstance(v, Cnt) or isinstance(v, Tup) and any(has_counts(i) for i in v.items)


def bare(v):
    """Text of the value of an entry, without the selection."""
    if isinstance(v, Rows):
        return v.expr
    if isinstance(v, Tup):
        return '(' + ', '.join(bare(i) for i in v.items) + ')'
    return text(v)


def negate(atoms, may):
    if len(atoms) == 1:
        a = next(iter(atoms))
        if a.text.startswith('not '):
            return frozenset([Atom(a.text[4:], a.may, a.must)])
        return frozenset([Atom('not ' + a.text, a.may, a.must)])
    m = frozenset().union(*[a.may for a in atoms]) if atoms else frozenset(may)
    return frozenset([Atom('not(%s)' % ' & '.join(sorted(a.text for a in atoms)), m)])


FLIP = {'>': '<', '>=': '<='}
OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
SAME = {'astype', 'copy', 'ravel', 'flatten', 'squeeze', 'filled', 'view', 'tolist', 'compressed', 'round', 'transpose'}
WRAP = {'asarray', 'array', 'ascontiguousarray', 'float', 'int', 'float64', 'int64', 'copy', 'nan_to_num', 'asanyarray', 'uint32', 'transpose', 'deepcopy', 'ravel', 'masked_array', 'masked_where', 'round', 'list', 'tuple'}
RED = {'mean', 'nanmean', 'std', 'nanstd', 'max', 'min', 'amax', 'amin', 'median', 'nanmedian', 'average', 'var', 'percentile', 'nanmax', 'nanmin', 'nansum', 'prod', 'unique', 'all', 'array_equal', 'len'}
MASKS = {'ones', 'ones_like', 'zeros', 'zeros_like', 'full', 'full_like', 'empty', 'empty_like'}
KERNELS = {'hist_1d_index': 1, 'hist_2d_index': 2, 'hist_3d_index': 3}


class Walk(object):
    """client.ratio(num, den, node, walk) is called for each quotient of counts."""

    def __init__(self, prog, fn, client, rowwise=(), skip=()):
        self.prog, self.fn, self.client, self.rowwise, self.skip = prog, fn, client, set(rowwise), set(skip)
        self.env, self.elems, self.conds = {}, {}, []
        self.stack = []
        self.loops = []
        self.returns = []
        self.depth = 0
        self.serial = 0
        self.locals, self.changed, self.bound = set(), set(), set()
        self.tests = []

    # -- running -------------------------------------------------------------------------------------------
    def run(self, node, given=None):
        self.locals = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for p in params(node):
            self.env[p] = (given or {}).get(p) or Opq(p, {'param:' + p})
        self.block(node.body)

    def fresh(self, hint):
        self.serial += 1
        return Opq('%s~%d' % (hint, self.serial))

    def snapshot(self):
        return dict(self.env), dict(self.elems)

    def restore(self, s):
        self.env, self.elems = dict(s[0]), dict(s[1])

    def join(self, cond, one, two):
        """Environments after a branch; None: that branch ended."""
        if one is None and two is None:
            return False
        if one is None or two is None:
            self.restore(two if one is None else one)
            return True
        for k in (0, 1):
            out = {}
            for n in set(one[k]) | set(two[k]):
                a, b = one[k].get(n), two[k].get(n)
                out[n] = a if b is None else b if a is None else self.phi(cond, a, b)
            if k == 0:
                self.env = out
            else:
                self.elems = out
        return True

    def phi(self, cond, a, b):
        if a is b or type(a) is type(b) and text(a) == text(b) and getattr(a, 'sel', None) == getattr(b, 'sel', None) and not isinstance(a, Cnt) \
                and getattr(a, 'atoms', None) == getattr(b, 'atoms', None):
            return a
        ct = cond.text
        if isinstance(a, Cnt) or isinstance(b, Cnt):
            a2, b2 = self.as_cnt(a), self.as_cnt(b)
            if a2 is not None and b2 is not None:
                out = {}
                for k in set(a2.terms) | set(b2.terms):
                    x, y = a2.terms.get(k), b2.terms.get(k)
                    if x is not None and y is not None:
                        out[k] = (x[0] & y[0], max(x[1], y[1]))
                    else:
                        out[k] = x or y
                base = {text(v): v for v in a2.base + b2.base}
                return Cnt(out, [base[k] for k in sorted(base)])
            return a if isinstance(a, Cnt) else b
        if isinstance(a, Rows) and isinstance(b, Rows):
            sel = self.phi_atoms(ct, a.sel, b.sel, cond)
            atoms = None
            if a.atoms is not None and b.atoms is not None:
                atoms = self.phi_atoms(ct, a.atoms, b.atoms, cond)
            expr = a.expr if a.expr == b.expr else 'phi(%s; %s; %s)' % (ct, a.expr, b.expr)
            comps = None
            if a.comps and b.comps and len(a.comps) == len(b.comps):
                comps = [self.phi(cond, x, y) for x, y in zip(a.comps, b.comps)]
            return Rows(expr, a.cols | b.cols | cond.cols, sel, atoms, comps, a.must & b.must)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.phi(cond, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, Cont) and isinstance(b, Cont):
            return a
        if isinstance(a, Cont) and text(b) == 'None':
            return a
        if isinstance(b, Cont) and text(a) == 'None':
            return b
        return Opq('phi(%s; %s; %s)' % (ct, text(a), text(b)), cols(a) | cols(b) | cond.cols, must=must(a) & must(b))

    def phi_atoms(self, ct, one, two, cond):
        if one == two:
            return one
        common = one & two
        x, y = one - common, two - common
        may = cond.cols
        for a in x | y:
            may = may | a.may
        mx = frozenset().union(*[a.must for a in x]) if x else frozenset()
        my = frozenset().union(*[a.must for a in y]) if y else frozenset()
        t = 'phi(%s; %s; %s)' % (ct, ' & '.join(sorted(a.text for a in x)), ' & '.join(sorted(a.text for a in y)))
        return common | {Atom(t, may, mx & my)}

    def block(self, stmts):
        """True if the end is reached."""
        for i, s in enumerate(stmts):
            if not self.stmt(s):
                return False
        return True

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return True
        r = m(s)
        return True if r is None else r

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
            n = v.func.value.id
            cur = self.env.get(n)
            if v.func.attr == 'append' and isinstance(cur, Cont) and len(v.args) == 1:
                cur.default = self.ev(v.args[0])
                return
            if v.func.attr == 'append' and isinstance(cur, Tup) and cur.kind == 'list' and not cur.items and len(v.args) == 1:
                self.env[n] = Cont(self.ev(v.args[0]), 'list ' + n)
                return
            if v.func.attr in ('append', 'resize', 'extend', 'update'):
                [self.ev(a) for a in v.args]
                return
        self.ev(v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        cur = self.ev(as_load(t))
        v = self.ev(s.value)
        if isinstance(t, ast.Subscript):
            key = self.elem_key(t)
            if key is not None:
                self.elems[key] = self.binop(s.op, cur, v, s)
                return
            base = self.ev(as_load(t.value))
            idx = self.ev_index(t.slice)
            if isinstance(base, Rows) and base.atoms is not None and isinstance(s.op, ast.BitAnd):
                self.assign(as_load(t.value), self.masked_and(base, idx, v), force=True)
                return
            if isinstance(base, Cnt):
                self.assign(as_load(t.value), self.binop(s.op, base, v, s), force=True)
                return
            self.assign(as_load(t.value), Opq('upd(%s)' % text(base), cols(base) | cols(v)) if not isinstance(base, (Rows, Cont)) else
                        (Rows('upd(%s, %s, %s)' % (base.expr, text(idx), bare(v)), base.cols | cols(v), base.sel) if isinstance(base, Rows) else base), force=True)
            return
        self.assign(t, self.binop(s.op, cur, v, s), force=isinstance(cur, (Cnt, Rows)))

    def masked_and(self, base, idx, v):
        m = idx.rows if isinstance(idx, Index) else idx
        if not isinstance(m, Rows) or m.atoms is None:
            return Rows(base.expr, base.cols | cols(v), base.sel, base.atoms | {Atom('cut(%s; %s)' % (text(idx), bare(v)), cols(v) | cols(idx), must(v))})
        if isinstance(v, Rows) and v.atoms is not None:
            new = v.atoms
            if v.sel != base.sel | m.atoms or m.sel != base.sel:
                self.serial += 1
                new = frozenset(Atom('misaligned~%d %s' % (self.serial, a.text), a.may, a.must) for a in new)
        else:
            new = frozenset([Atom('true ' + text(v), cols(v))])
        ante = ' & '.join(sorted(a.text for a in m.atoms))
        am = frozenset().union(*[a.may for a in m.atoms]) if m.atoms else frozenset()
        out = base.atoms | {Atom('imp(%s; %s)' % (ante, a.text), a.may | am, a.must) for a in new}
        return Rows('and', base.cols | cols(v) | am, base.sel, out)

    def assign(self, t, v, force=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            if force:
                self.changed.add(t.id)
            else:
                self.changed.discard(t.id)
                self.bound.add(t.id)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x)
            return
        if isinstance(t, ast.Subscript):
            key = self.elem_key(t)
            if key is not None:
                self.elems[key] = v
                return
            base = self.ev(as_load(t.value))
            idx = self.ev_index(t.slice)
            if isinstance(base, Rows):
                m = idx.rows if isinstance(idx, Index) else idx
                if base.atoms is not None and isinstance(m, Rows) and m.atoms is not None and text(v) == 'False':
                    new = Rows('and', base.cols | m.cols, base.sel, base.atoms | negate(m.atoms, m.cols))
                elif base.atoms is not None and isinstance(m, Rows) and m.atoms is not None and text(v) == 'True':
                    new = self.either(base, m)
                elif isinstance(m, Rows) and m.atoms is not None and isinstance(v, Rows) and base.atoms is not None and v.atoms is not None and base.atoms == frozenset([FALSE]):
                    # only where the mask holds: mask and value
                    new = Rows('and', base.cols | m.cols | v.cols, base.sel, m.atoms | v.atoms if v.sel == base.sel | m.atoms else frozenset([Atom('misaligned ' + bare(v), v.cols)]))
                else:
                    e = 'upd(%s, %s, %s)' % (base.expr, bare(idx), bare(v))
                    c = base.cols | cols(v) | cols(idx)
                    new = Rows(e, c, base.sel, frozenset([Atom(e, c)]) if base.atoms is not None else None)
                self.assign(as_load(t.value), new, force=True)
            elif isinstance(base, Cnt):
                if isinstance(v, Cnt):
                    self.assign(as_load(t.value), self.add(base, v), force=True)
                elif not isinstance(v, (Opq,)) or text(v) not in ('0', '0.0'):
                    self.assign(as_load(t.value), Opq('upd(%s)' % text(base), cols(base)), force=True)
            elif isinstance(base, Opq) and isinstance(t.value, ast.Name):
                self.env[t.value.id] = Opq('upd(%s, %s, %s)' % (text(base), text(idx), text(v)), cols(base) | cols(v))
            return
        if isinstance(t, ast.Attribute):
            d = dotted(t)
            if d:
                self.env[d] = v

    def elem_key(self, t):
        """Element of a list with one entry per element of something."""
        if isinstance(t.value, ast.Name) and isinstance(self.env.get(t.value.id), Cont):
            i = self.ev_index(t.slice)
            if isinstance(i, Opq):
                return (self.env[t.value.id].uid, i.text)
        return None

    def s_Return(self, s):
        self.returns.append((self.ev(s.value) if s.value is not None else Opq('None'), list(self.conds)))
        return False

    def s_Raise(self, s):
        return False

    def s_Continue(self, s):
        if self.loops:
            self.loops[-1].append((self.snapshot(), list(self.conds)))
        return False

    s_Break = s_Continue

    def s_If(self, s):
        self.tests.append(s.test)
        cs, neg = self.cond(s.test)
        self.tests.pop()
        start = self.snapshot()
        depth = len(self.conds)
        self.conds += cs
        one = self.snapshot() if self.block(s.body) else None
        after_one = self.conds[depth + len(cs):]
        del self.conds[depth:]
        self.restore(start)
        self.conds += neg
        two = self.snapshot() if self.block(s.orelse) else None
        after_two = self.conds[depth + len(neg):]
        del self.conds[depth:]
        c = cs[0] if len(cs) == 1 else Cond('(' + ' and '.join(repr(x) for x in cs) + ')', True, frozenset().union(*[x.cols for x in cs]) if cs else ())
        if not c.pol:
            c = Cond(c.text, True, c.cols)
            ok = self.join(c, two, one)
        else:
            ok = self.join(c, one, two)
        if one is None and two is not None:
            self.conds += neg + after_two
        elif two is None and one is not None:
            self.conds += cs + after_one
        return ok

    def cond(self, t):
        """Path conditions of the branch taken and of the other one."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.cond(t.operand)
            return b, a
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            out = [c for v in t.values for c in self.cond(v)[0]]
            k = ' and '.join(repr(c) for c in out)
            m = frozenset().union(*[c.cols for c in out]) if out else frozenset()
            return out, [Cond(k, False, m)]
        if isinstance(t, ast.BoolOp):
            out = [c for v in t.values for c in self.cond(v)[1]]
            k = ' or '.join(repr(self.cond(v)[0]) for v in t.values)
            m = frozenset().union(*[c.cols for c in out]) if out else frozenset()
            return [Cond(k, True, m)], out
        v = self.ev(t)
        if isinstance(v, Any):
            return [Cond(v.text, True, v.cols, v.sel)], [Cond(v.text, False, v.cols, v.sel)]
        if isinstance(v, Cnt) and len(v.terms) == 1 and not v.base:
            (c, b, sel), _ = next(iter(v.terms.items()))
            if not c:
                a = Any(sel, cols(v))
                return [Cond(a.text, True, a.cols, a.sel)], [Cond(a.text, False, a.cols, a.sel)]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            pos = Cond(short(text(v)).replace(' is not ', ' is ', 1).replace(' != ', ' == ', 1), True, cols(v))
            return [Cond(pos.text, False, pos.cols)], [pos]
        return [Cond(text(v), True, cols(v))], [Cond(text(v), False, cols(v))]

    def loop(self, body):
        self.loops.append([])
        depth = len(self.conds)
        end = self.snapshot() if self.block(body) else None
        del self.conds[depth:]
        for snap, cs in self.loops.pop():
            extra = cs[depth:]
            c = extra[-1] if extra else Cond('loop', True, ())
            if end is None:
                end = snap
            else:
                self.join(c, snap, end) if c.pol else self.join(Cond(c.text, True, c.cols), end, snap)
                end = self.snapshot()
        if end is not None:
            self.restore(end)
        self.client.turn(self)
        return True

    def s_For(self, s):
        it = self.ev(s.iter)
        self.carry(s)
        self.bind_loop(s.target, s.iter, it)
        self.loop(s.body)
        self.block(s.orelse)

    def s_While(self, s):
        self.carry(s)
        self.ev(s.test)
        self.loop(s.body)

    def carry(self, s):
        """Numbers that the loop changes hold, at the beginning of a turn, what previous turns left."""
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign):
                t = n.target
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                t = n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                t = n
            else:
                continue
            while isinstance(t, ast.Subscript):
                t = t.value
            v = self.env.get(t.id) if isinstance(t, ast.Name) else None
            if isinstance(v, Opq) and (number(v.text) or v.text == 'None'):
                self.env[t.id] = Opq('old:' + t.id)
            elif isinstance(v, Cnt) and not v.terms and not v.base:
                self.env[t.id] = Cnt(base=[Opq('old:' + t.id)])

    def bind_loop(self, target, node, it):
        name = dotted(node.func).split('.')[-1] if isinstance(node, ast.Call) and dotted(node.func) else ''
        if name == 'data_aligned_at_events' and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.assign(target.elts[0], Opq('table(%s)' % (text(self.ev(node.args[0])) if node.args else '')))
            self.assign(target.elts[1], self.fresh('index'))
            return
        if name == 'enumerate' and isinstance(target, ast.Tuple) and len(target.elts) == 2 and node.args:
            self.assign(target.elts[0], Opq('idx(%s)' % self.seq_text(node.args[0])))
            self.bind_loop(target.elts[1], node.args[0], None)
            return
        if name == 'range' and len(node.args) == 1 and isinstance(node.args[0], ast.Call) and dotted(node.args[0].func) == 'len' and node.args[0].args:
            self.assign(target, Opq('idx(%s)' % self.seq_text(node.args[0].args[0])))
            return
        if name == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(node.args):
            for e, a in zip(target.elts, node.args):
                self.bind_loop(e, a, None)
            return
        st = self.seq_text(node)
        if isinstance(target, (ast.Tuple, ast.List)):
            for k, e in enumerate(target.elts):
                self.assign(e, Opq('elem(%s)#%d' % (st, k)))
        else:
            src = self.ev(node)
            self.assign(target, Opq('elem(%s)' % st, cols(src)))

    def seq_text(self, node):
        if isinstance(node, ast.Call) and dotted(node.func) == 'zip' and node.args:
            node = node.args[0]
        return text(self.ev(node))

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v if isinstance(i.optional_vars, ast.Name) else self.fresh('with'))
        return self.block(s.body)

    def s_Try(self, s):
        start = self.snapshot()
        ok = self.block(s.body)
        one = self.snapshot() if ok else None
        for h in s.handlers:
            self.restore(start)
            two = self.snapshot() if self.block(h.body) else None
            if two is not None:
                if one is None:
                    one = two
                else:
                    self.join(Cond('try', True, ()), one, two)
                    one = self.snapshot()
        if one is not None:
            self.restore(one)
        self.block(s.finalbody)
        return one is not None

    # -- expressions ---------------------------------------------------------------------------------------
    def ev(self, n):
        if n is None:
            return Opq('None')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            vs = [self.ev(c) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
            return Opq('%s(%s)' % (type(n).__name__, ', '.join(map(text, vs))), frozenset().union(*[cols(v) for v in vs]) if vs else ())
        return m(n)

    def e_Constant(self, n):
        return Str(repr(n.value), n.value) if isinstance(n.value, str) else Opq(repr(n.value))

    def e_Name(self, n):
        v = self.env.get(n.id)
        if v is None:
            return Opq('old:' + n.id if n.id in self.locals else n.id)
        return v

    def e_Attribute(self, n):
        d = dotted(n)
        if d and d in self.env:
            return self.env[d]
        v = self.ev(n.value)
        if isinstance(v, Rows):
            if n.attr == 'shape':
                return Shape(v)
            if n.attr == 'size':
                return self.size(v)
            if n.attr in ('T', 'flat', 'data'):
                return v
            return self.rowwise_call('.' + n.attr, [v])
        if isinstance(v, Cnt):
            if n.attr in ('T', 'flat', 'data'):
                return v
            return Opq('%s.%s' % (text(v), n.attr))
        if isinstance(v, Tup) and n.attr == 'statistic' and v.items:
            return v.items[0]
        if isinstance(v, Tup) and n.attr == 'T':
            return v
        return Opq('%s.%s' % (text(v), n.attr), cols(v))

    def size(self, v):
        return Cnt({('', '', v.sel): (frozenset(self.conds), 1)})

    def e_Tuple(self, n):
        return Tup([self.ev(e) for e in n.elts])

    def e_List(self, n):
        return Tup([self.ev(e) for e in n.elts], 'list')

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_JoinedStr(self, n):
        return Str(ast.unparse(n), ''.join(str(p.value) if isinstance(p, ast.Constant) else '%d' for p in n.values))

    def e_IfExp(self, n):
        a, b = self.ev(n.body), self.ev(n.orelse)
        cs, _ = self.cond(n.test)
        if len(cs) == 1:
            c = cs[0]
            if not c.pol:
                a, b = b, a
            return self.phi(Cond(c.text, True, c.cols), a, b)
        return self.phi(Cond(' and '.join(map(repr, cs)), True, frozenset().union(*[c.cols for c in cs])), a, b)

    def e_ListComp(self, n):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            keep = self.snapshot()
            g = n.generators[0]
            self.bind_loop(g.target, g.iter, None)
            v = self.ev(n.elt)
            st = self.seq_text(g.iter)
            self.restore(keep)
            if not parts(v) and isinstance(v, Cnt) or text(v) in ('None', '0', '0.0'):
                return Cont(v, 'list(%s for %s)' % (text(v), st))
            return Opq('[%s for %s]' % (text(v), st), cols(v))
        return Opq('comp ' + ast.unparse(n))

    e_GeneratorExp = e_ListComp

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(v, Rows) and v.atoms is not None and isinstance(n.op, (ast.Invert, ast.Not)):
            return Rows('not', v.cols, v.sel, negate(v.atoms, v.cols), must=v.must)
        if isinstance(v, Rows):
            return self.rowwise_call(type(n.op).__name__, [v])
        return Opq('%s(%s)' % (type(n.op).__name__, text(v)), cols(v))

    def e_BoolOp(self, n):
        vs = [self.ev(v) for v in n.values]
        return Opq('%s(%s)' % (type(n.op).__name__, ', '.join(map(text, vs))), frozenset().union(*[cols(v) for v in vs]))

    def e_Compare(self, n):
        if len(n.ops) == 2:
            one = self.ev(ast.copy_location(ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), n))
            two = self.ev(ast.copy_location(ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]]), n))
            return self.both(one, two, n)
        a, b = self.ev(n.left), self.ev(n.comparators[0])
        op = n.ops[0]
        rs = parts(a) + parts(b)
        if rs and type(op) in OPS:
            o = OPS[type(op)]
            x, y = bare(a), bare(b)
            ma, mb = must(a), must(b)
            if o == '==' and y == 'False' and isinstance(a, Rows) and a.atoms is not None:
                return Rows('not', a.cols, a.sel, negate(a.atoms, a.cols))
            if o == '==' and y == 'True' and isinstance(a, Rows) and a.atoms is not None:
                return a
            if o in FLIP:
                o, x, y = FLIP[o], y, x
            if o in ('==', '!=') and y < x:
                x, y = y, x
            neg = o == '!='
            t = '%s %s %s' % (x, '==' if neg else o, y)
            c = cols_expr(a) | cols_expr(b)
            at = frozenset([Atom(t, c, ma | mb)])
            return Rows(t, c, self.common_sel(rs, t), negate(at, c) if neg else at)
        if isinstance(a, Cnt) and not a.base and len(a.terms) == 1 and number(text(b)) and isinstance(op, (ast.Gt, ast.NotEq, ast.Eq, ast.GtE, ast.Lt)):
            (c, bn, sel), _ = next(iter(a.terms.items()))
            if not c and (isinstance(op, (ast.Gt, ast.NotEq)) and text(b) in ('0', '0.0') or isinstance(op, ast.GtE) and text(b) == '1'):
                return Any(sel, cols(a))
            if not c and (isinstance(op, ast.Eq) and text(b) == '0' or isinstance(op, ast.Lt) and text(b) == '1'):
                an = Any(sel, cols(a))
                return Opq('no ' + an.text, an.cols)
        return Opq('%s %s %s' % (text(a), opname(op), text(b)), cols(a) | cols(b))

    def common_sel(self, rs, what):
        sels = {r.sel for r in rs}
        if len(sels) == 1:
            return next(iter(sels))
        m = frozenset()
        for s in sels:
            for a in s:
                m |= a.may
        return frozenset([Atom('mixed selections of ' + what, m)]) | frozenset.intersection(*sels)

    def both(self, a, b, n):
        if isinstance(a, Rows) and isinstance(b, Rows) and a.atoms is not None and b.atoms is not None:
            if a.sel != b.sel:
                t = 'mixed %s & %s' % (a.expr, b.expr)
                return Rows(t, a.cols | b.cols, self.common_sel([a, b], t), frozenset([Atom(t, a.cols | b.cols)]))
            at = a.atoms | b.atoms
            if FALSE in at:
                at = frozenset([FALSE])
            return Rows('and(%s)' % ' & '.join(sorted(x.text for x in at)), a.cols | b.cols, a.sel, at)
        return None

    def either(self, a, b):
        if FALSE in a.atoms:
            return b
        if FALSE in b.atoms:
            return a
        if not a.atoms or not b.atoms:
            return a if not a.atoms else b
        t = ' | '.join(sorted(' & '.join(sorted(x.text for x in v.atoms)) for v in (a, b)))
        c = frozenset().union(*[x.may for x in a.atoms | b.atoms])
        return Rows('or(%s)' % t, c, self.common_sel([a, b], t), frozenset([Atom('or(%s)' % t, c)]))

    def e_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            v = self.ev(n.right)
            return Str('%r %% %s' % (n.left.value, text(v)), n.left.value)
        return self.binop(n.op, self.ev(n.left), self.ev(n.right), n)

    def as_cnt(self, v):
        if isinstance(v, Cnt):
            return v
        if isinstance(v, Opq):
            if v.text in ('0', '0.0', 'None', 'False'):
                return Cnt()
            if isinstance(v, Str):
                return None
            return Cnt(base=[v])
        if isinstance(v, Rows) and v.atoms is not None:
            return None
        return None

    def add(self, a, b):
        out = dict(a.terms)
        for k, (c, m) in b.terms.items():
            if k in out:
                c0, m0 = out[k]
                clash = any(Cond(x.text, not x.pol, ()) in c for x in c0)
                out[k] = (c0 & c if clash else c0 & c, max(m, m0) if clash else m + m0)
            else:
                out[k] = (c | frozenset(self.conds), m)
        base = {text(v): v for v in a.base + b.base}
        return Cnt(out, [base[k] for k in sorted(base)])

    def binop(self, op, a, b, n):
        if isinstance(op, ast.BitAnd):
            r = self.both(a, b, n)
            if r is not None:
                return r
        if isinstance(op, ast.BitOr) and isinstance(a, Rows) and isinstance(b, Rows) and a.atoms is not None and b.atoms is not None:
            return self.either(a, b)
        if isinstance(a, Cnt) or isinstance(b, Cnt):
            if isinstance(op, ast.Div):
                x, y = self.as_cnt(a), self.as_cnt(b)
                if x is not None and y is not None:
                    self.client.ratio(x, y, n, self)
                return Opq('(%s / %s)' % (text(a), text(b)), cols(a) | cols(b))
            if isinstance(op, ast.Add):
                x, y = self.as_cnt(a), self.as_cnt(b)
                if x is not None and y is not None:
                    return self.add(x, y)
            if isinstance(op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Cnt) and number(text(y)):
                        return x
        rs = parts(a) + parts(b)
        if rs:
            c = cols_expr(a) | cols_expr(b)
            t = '(%s %s %s)' % (bare(a), opname(op), bare(b))
            comps = None
            ca, cb = getattr(a, 'comps', None), getattr(b, 'comps', None)
            if ca and (cb is None and not isinstance(b, Rows) or cb and len(cb) == len(ca)):
                comps = [self.binop(op, x, cb[i] if cb else b, n) for i, x in enumerate(ca)]
            return Rows(t, c, self.common_sel(rs, t), None, comps, must(a) | must(b))
        if isinstance(op, ast.Mult) and isinstance(a, Opq) and isinstance(b, Opq):
            return Opq('(%s * %s)' % tuple(sorted([text(a), text(b)])), cols(a) | cols(b), (a, b), must(a) | must(b))
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items, a.kind)
        if isinstance(op, ast.Mult) and isinstance(a, Tup) and a.kind == 'list' and len(a.items) == 1 and (isinstance(a.items[0], Cnt) or text(a.items[0]) in ('None', '0', '0.0')):
            return Cont(a.items[0], 'list(%s * %s)' % (text(a.items[0]), text(b)))
        return Opq('(%s %s %s)' % (text(a), opname(op), text(b)), cols(a) | cols(b), must=must(a) | must(b))

    def ev_index(self, sl):
        if isinstance(sl, ast.Slice):
            return Opq('slice(%s, %s, %s)' % tuple(text(self.ev(x)) if x is not None else '' for x in (sl.lower, sl.upper, sl.step)))
        if isinstance(sl, ast.Tuple):
            return Tup([self.ev_index(e) for e in sl.elts])
        return self.ev(sl)

    def e_Subscript(self, n):
        if isinstance(n.value, ast.Name) and isinstance(self.env.get(n.value.id), Cont):
            i = self.ev_index(n.slice)
            c = self.env[n.value.id]
            if isinstance(i, Opq):
                v = self.elems.get((c.uid, i.text))
                if v is None:
                    mine = [x for k, x in self.elems.items() if k[0] == c.uid]
                    if len(mine) == 1:
                        v = mine[0]
                if v is None:
                    v = c.default
                    old = Opq('old:%s[%s]' % (n.value.id, i.text))
                    if isinstance(v, Opq) and (number(v.text) or v.text == 'None'):
                        v = old
                    elif isinstance(v, Cnt) and not v.terms and not v.base:
                        v = Cnt(base=[old])
                return v
        v = self.ev(n.value)
        i = self.ev_index(n.slice)
        return self.index(v, i)

    def index(self, v, i):
        if isinstance(v, Shape) and text(i) == '0':
            return self.size(v.rows)
        if isinstance(v, Tup):
            k = integer(text(i))
            if k is not None and -len(v.items) <= k < len(v.items):
                return v.items[k]
            return Opq('%s[%s]' % (text(v), text(i)), cols(v))
        if isinstance(v, Index):
            return v if text(i) in ('0', '(slice(, , ), 0)') else Opq('%s[%s]' % (v.text, text(i)), cols(v))
        if isinstance(v, Cnt):
            if isinstance(i, Opq) and i.text.startswith('slice('):
                if i.text == 'slice(, , )':
                    return v
                return Cnt({(c, b + '|' + i.text if c else b, s): x for (c, b, s), x in v.terms.items()}, v.base)
            return v
        if isinstance(i, Str):
            tpl = i.tpl
            if isinstance(v, Rows):
                return Rows('%s[%s]' % (v.expr, i.text), v.cols | {tpl}, v.sel)
            return Rows('%s[%s]' % (text(v), i.text), cols(v) | {tpl})
        if isinstance(v, Rows):
            j = i
            if isinstance(i, Tup) and i.items:
                j = i.items[0]
                rest = i.items[1:]
                if isinstance(j, Opq) and j.text == 'slice(, , )':
                    k = integer(text(rest[0])) if len(rest) == 1 else None
                    if k is not None:
                        if v.comps and -len(v.comps) <= k < len(v.comps):
                            return v.comps[k]
                        return Rows('%s[:, %d]' % (v.expr, k), v.cols, v.sel, must=v.must)
                    return v
                w = self.index(v, j)
                return self.index(w, Tup([Opq('slice(, , )')] + rest)) if isinstance(w, Rows) else w
            m = j.rows if isinstance(j, Index) else j
            if isinstance(m, Rows) and (m.atoms is not None):
                at = m.atoms
                sel = v.sel | at
                if m.sel != v.sel:
                    t = 'misaligned %s[%s]' % (v.expr, m.expr)
                    sel = v.sel | frozenset([Atom(t, v.cols | cols(m))])
                return Rows(v.expr, v.cols, sel, v.atoms, [self.index(x, i if not isinstance(i, Tup) else j) for x in v.comps] if v.comps else None, v.must)
            if isinstance(j, Opq) and j.text == 'slice(, , )':
                return v
            if isinstance(j, Rows):
                t = 'take(%s)' % j.expr
                return Rows(v.expr, v.cols | j.cols, v.sel | {Atom(t, cols(j))} if v.sel == j.sel else j.sel | {Atom(t + ' of ' + v.expr, cols(j) | v.cols)})
            if isinstance(j, Opq) and j.text.startswith('slice('):
                return Rows(v.expr, v.cols, v.sel | {Atom('part ' + j.text, ())}, v.atoms, must=v.must)
            return Opq('%s[%s]' % (v.expr, text(i)), cols(v))
        return Opq('%s[%s]' % (text(v), text(i)), cols(v) | cols(i), must=must(v))

    def unpack(self, v, k):
        if isinstance(v, Tup) and len(v.items) == k:
            return v.items
        if isinstance(v, Rows):
            if v.comps and len(v.comps) == k:
                return v.comps
            return [Rows('%s#%d' % (v.expr, i), v.cols, v.sel, must=v.must) for i in range(k)]
        if isinstance(v, Index):
            return [v] + [Opq('?')] * (k - 1)
        return [Opq('%s#%d' % (text(v), i), cols(v), must=must(v)) for i in range(k)]

    # -- calls ---------------------------------------------------------------------------------------------
    def rowwise_call(self, name, args, kws=()):
        rs = [r for a in args for r in parts(a)] + [r for _, v in kws for r in parts(v)]
        t = '%s(%s)' % (name, ', '.join([bare(a) for a in args] + ['%s=%s' % (k, bare(v)) for k, v in kws]))
        c = frozenset().union(*[cols_expr(a) for a in args] + [cols_expr(v) for _, v in kws])
        m = frozenset().union(*[must(a) for a in args] + [must(v) for _, v in kws])
        boolean = name.split('.')[-1] in ('isfinite', 'isnan', 'isin', 'in1d', 'isinf', 'isclose', 'greater', 'less', 'equal', 'greater_equal', 'less_equal', 'not_equal')
        return Rows(t, c, self.common_sel(rs, t), frozenset([Atom(t, c, m)]) if boolean else None, must=m)

    def count(self, xs, bins):
        rs = [r for x in xs for r in parts(x)]
        if not rs:
            return Opq('count(%s)' % ', '.join(map(text, xs)))
        t = ', '.join(bare(x) for x in xs)
        return Cnt({(short(t), short(bins), self.common_sel(rs, t)): (frozenset(self.conds), 1)})

    def e_Call(self, n):
        d = dotted(n.func) or ''
        name = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else '')
        if not name and isinstance(n.func, ast.Attribute):
            name = n.func.attr
        args = [self.ev(a) for a in n.args]
        kws = [(k.arg, self.ev(k.value)) for k in n.keywords if k.arg]
        kw = dict(kws)
        root = d.split('.')[0] if d else ''
        module_call = root in ('np', 'numpy', 'stats', 'scipy', 'math', 'ma') and isinstance(n.func, ast.Attribute) or isinstance(n.func, ast.Name)

        def arg(i, *names):
            for nm in names:
                if nm in kw:
                    return kw[nm]
            return args[i] if i < len(args) else None

        # methods of a value
        if isinstance(n.func, ast.Attribute) and not (root in ('np', 'numpy', 'stats', 'scipy', 'math')):
            v = self.ev(n.func.value)
            if isinstance(v, (Rows, Cnt, Tup)):
                r = self.method(v, n.func.attr, args, kw, n)
                if r is not None:
                    return r
        # counts
        if name == 'binned_statistic_2d':
            x, y, st = arg(0, 'x'), arg(1, 'y'), arg(3, 'statistic')
            if st is not None and text(st) == "'count'":
                return Tup([self.count([x, y], 'bins=%s range=%s' % (text(arg(4, 'bins')), text(arg(5, 'range')))), Opq('?'), Opq('?'), self.fresh_rows('binnumber', [x, y])])
            return Opq('%s(%s)' % (name, ', '.join(text(a) for a in args + [v for _, v in kws])), frozenset().union(*[cols(a) for a in args + [v for _, v in kws]] or [()]))
        if name in ('binned_statistic_dd', 'binned_statistic'):
            x, st = arg(0, 'sample', 'x'), arg(2, 'statistic')
            if st is not None and text(st) == "'count'":
                xs = x.items if isinstance(x, Tup) else [x]
                return Tup([self.count(xs, 'bins=%s range=%s' % (text(arg(3, 'bins')), text(arg(4, 'range')))), Opq('?'), self.fresh_rows('binnumber', xs)])
        if name in ('histogram2d', 'histogram', 'histogramdd'):
            if 'weights' not in kw:
                xs = args[:2] if name == 'histogram2d' else args[:1]
                for k in ('a', 'x', 'y', 'sample'):
                    if k in kw:
                        xs = xs + [kw[k]]
                first = 2 if name == 'histogram2d' else 1
                b, r = arg(first, 'bins'), arg(first + 1, 'range')
                c = self.count(xs, 'bins=%s range=%s' % (text(b), text(r)))
                return Tup([c] + [Opq('edges %s %s %s' % (text(c), k, ''), cols(c)) for k in range(2 if name == 'histogram2d' else 1)])
        if name == 'bincount' and 'weights' not in kw and len(args) < 2 or name == 'bincount' and text(arg(1, 'weights')) == 'None':
            x = arg(0, 'x')
            if parts(x):
                return self.count([x], 'bincount minlength=%s' % text(kw.get('minlength', args[2] if len(args) > 2 else None)))
        if name in KERNELS and len(args) + len(kws) > KERNELS[name]:
            k = KERNELS[name]
            xs = [arg(i, 'xyz'[i]) for i in range(k)]
            return self.count(xs, 'shape=%s' % text(arg(k, 'shape')))
        if name in ('count_nonzero', 'sum') and module_call:
            x = arg(0, 'a')
            if isinstance(x, Rows) and x.atoms is not None:
                return Cnt({('', '', x.sel | x.atoms): (frozenset(self.conds), 1)})
            if isinstance(x, Cnt) and name == 'sum':
                return summed(x)
        if name == 'len' and len(args) == 1:
            if isinstance(args[0], Rows):
                return self.size(args[0])
            if isinstance(args[0], Index):
                r = args[0].rows
                return Cnt({('', '', r.sel | r.atoms): (frozenset(self.conds), 1)})
        if name == 'mean' and module_call and isinstance(arg(0, 'a'), Rows) and arg(0, 'a').atoms is not None:
            x = arg(0, 'a')
            self.client.ratio(Cnt({('', '', x.sel | x.atoms): (frozenset(self.conds), 1)}), self.size(x), n, self)
            return Opq('mean(%s)' % text(x), cols(x))
        if name == 'any' and module_call and args:
            x = args[0]
            if isinstance(x, Rows):
                if x.atoms is not None:
                    return Any(x.sel | x.atoms, cols(x) | frozenset().union(*[a.may for a in x.atoms] or [()]))
                return Opq('any nonzero(%s)[%s]' % (x.expr, ','.join(sorted(a.text for a in x.sel))), cols(x))
        if name in ('divide', 'true_divide') and len(args) >= 2:
            return self.binop(ast.Div(), args[0], args[1], n)
        if name == 'add' and root in ('np', 'numpy') and len(args) >= 2:
            return self.binop(ast.Add(), args[0], args[1], n)
        if name == 'multiply' and root in ('np', 'numpy') and len(args) >= 2:
            return self.binop(ast.Mult(), args[0], args[1], n)
        # masks
        if name in ('logical_and', 'bitwise_and') and len(args) >= 2:
            r = self.both(args[0], args[1], n)
            if r is not None:
                return r
        if name == 'reduce' and d.endswith('logical_and.reduce') and args and isinstance(args[0], Tup):
            r = args[0].items[0] if args[0].items else None
            for x in args[0].items[1:]:
                r = self.both(r, x, n) if r is not None else None
            if r is not None:
                return r
        if name in ('logical_or', 'bitwise_or') and len(args) >= 2 and all(isinstance(a, Rows) and a.atoms is not None for a in args[:2]):
            return self.either(args[0], args[1])
        if name in ('logical_not', 'invert') and args and isinstance(args[0], Rows) and args[0].atoms is not None:
            v = args[0]
            return Rows('not', v.cols, v.sel, negate(v.atoms, v.cols))
        if name in ('where', 'nonzero', 'flatnonzero', 'argwhere') and len(args) == 1 and isinstance(args[0], Rows) and args[0].atoms is not None:
            return Index(args[0])
        if name == 'where' and len(args) == 3 and isinstance(args[0], Rows) and args[0].atoms is not None:
            c, a, b = args
            if isinstance(a, Rows) and a.atoms is not None and a.sel == c.sel and text(b) in ('True', '1'):
                return self.masked_and(Rows('true', c.cols, c.sel, frozenset()), c, Rows(a.expr, a.cols, c.sel | c.atoms, a.atoms, must=a.must))
            if isinstance(a, Rows) and a.atoms is not None and text(b) in ('False', '0'):
                r = self.both(c, a, n)
                if r is not None:
                    return r
            if text(a) in ('True', '1') and isinstance(b, Rows) and b.atoms is not None:
                return self.either(c, b)
            if text(a) in ('False', '0') and isinstance(b, Rows) and b.atoms is not None:
                r = self.both(Rows('not', c.cols, c.sel, negate(c.atoms, c.cols)), b, n)
                if r is not None:
                    return r
        if name in ('compress', 'extract') and len(args) == 2 and module_call:
            return self.index(args[1], args[0])
        if name in MASKS:
            x = arg(0, 'shape', 'a')
            dt = kw.get('dtype') or (args[2] if name.startswith('full') and len(args) > 2 else args[1] if not name.startswith('full') and len(args) > 1 else None)
            fill = arg(1, 'fill_value') if name.startswith('full') else None
            r = x.rows if isinstance(x, Shape) else x if isinstance(x, Rows) and name.endswith('_like') else None
            if isinstance(x, Cnt) and not name.endswith('_like') and len(x.terms) == 1:
                (c, b, s), _ = next(iter(x.terms.items()))
                if not c:
                    r = Rows('rows', (), s)
            isbool = dt is not None and text(dt) in ('bool', 'np.bool_', "'bool'", "'?'", 'np.bool', 'numpy.bool_') or dt is None and r is not None and name.endswith('_like') and r.atoms is not None \
                or name == 'full' and fill is not None and text(fill) in ('True', 'False')
            if r is not None and isbool:
                truth = name.startswith('ones') or fill is not None and text(fill) == 'True'
                return Rows('true' if truth else 'false', (), r.sel, frozenset() if truth else frozenset([FALSE]))
            if r is not None:
                return Rows('%s()' % name, (), r.sel)
            if name.startswith('zeros'):
                return Cnt()
            return Opq('%s(%s)' % (name, text(x)))
        if name in ('column_stack', 'stack', 'vstack', 'dstack', 'hstack', 'concatenate', 'array', 'asarray') and args and isinstance(args[0], Tup) and parts(args[0]):
            items = args[0].items
            rs = parts(args[0])
            if all(isinstance(i, Rows) for i in items):
                t = 'columns(%s)' % ', '.join(i.expr for i in items)
                return Rows(t, frozenset().union(*[i.cols for i in items]), self.common_sel(rs, t), None, list(items), frozenset().union(*[i.must for i in items]))
        if name in WRAP and args and (isinstance(args[0], (Cnt, Rows, Tup))):
            return args[0]
        if name == 'query' and isinstance(n.func, ast.Attribute) and args and isinstance(args[0], Rows):
            return self.rowwise_call(text(self.ev(n.func.value)) + '.query', args, kws)
        if name in RED and (args and parts(args[0])) and module_call:
            return Opq('%s(%s)[%s]' % (name, bare(args[0]), ','.join(sorted(a.text for r in parts(args[0]) for a in r.sel))), cols(args[0]))
        # functions of the package
        f = self.env.get(n.func.id) if isinstance(n.func, ast.Name) else None
        if isinstance(f, Local) and self.depth < 4 and not generator(f.node):
            b = bound(f, 0, n)
            if b is not None:
                given = {p: self.ev(e) for p, e in b.items()}
                defaults(f.node, given, self)
                return self.inside(self.fn, f.node, given, b, self.env, n)
        g, skip = callee(self.prog, self.fn, n.func)
        every = args + [v for _, v in kws]
        if g is not None and name not in self.rowwise and g.module.name.split('.')[-1] not in self.skip and self.depth < 3 and any(has_counts(v) or parts(v) for v in every) and not generator(g.node):
            return self.enter(g, skip, n)
        if any(parts(v) for v in every):
            return self.rowwise_call(d or name, args, kws)
        if name == 'len' and args:
            return Opq('len(%s)' % text(args[0]))
        b = text(self.ev(n.func.value)) + '.' + n.func.attr if isinstance(n.func, ast.Attribute) and not module_call else d or name
        return Opq('%s(%s)' % (b, ', '.join([text(a) for a in args] + ['%s=%s' % (k, text(v)) for k, v in kws])),
                   frozenset().union(*[cols(v) for v in every] or [()]))

    def fresh_rows(self, name, xs):
        rs = [r for x in xs for r in parts(x)]
        if not rs:
            return Opq('?')
        t = '%s(%s)' % (name, ', '.join(bare(x) for x in xs))
        return Rows(t, frozenset().union(*[r.cols for r in rs]), self.common_sel(rs, t))

    def method(self, v, m, args, kw, n):
        if m in SAME:
            if isinstance(v, Rows) and m == 'astype' and args and text(args[0]) in ('bool', 'np.bool_') and v.atoms is None:
                return Rows(v.expr, v.cols, v.sel, frozenset([Atom('bool ' + v.expr, v.cols, v.must)]))
            return v
        if isinstance(v, Rows):
            if m == 'sum' and v.atoms is not None:
                return Cnt({('', '', v.sel | v.atoms): (frozenset(self.conds), 1)})
            if m == 'mean' and v.atoms is not None:
                self.client.ratio(Cnt({('', '', v.sel | v.atoms): (frozenset(self.conds), 1)}), self.size(v), n, self)
                return Opq('mean(%s)' % text(v), cols(v))
            if m == 'any' and v.atoms is not None:
                return Any(v.sel | v.atoms, cols(v) | frozenset().union(*[a.may for a in v.atoms] or [()]))
            if m in ('nonzero',) and v.atoms is not None:
                return Index(v)
            if m == 'compress' and args:
                return self.index(v, args[0])
            if m == 'reshape':
                return v
            if m in RED or m == 'sum':
                return Opq('%s.%s[%s]' % (v.expr, m, ','.join(sorted(a.text for a in v.sel))), cols(v))
            return self.rowwise_call('.' + m, [v] + args)
        if isinstance(v, Cnt):
            if m == 'sum':
                return summed(v)
            if m in ('reshape', 'clip'):
                return v
            return Opq('%s.%s' % (text(v), m), cols(v))
        return None

    def enter(self, g, skip, n):
        b = bound(g, skip, n)
        if b is None:
            return Opq('%s(..)' % g.name)
        given = {p: self.ev(e) for p, e in b.items()}
        defaults(g.node, given, self)
        return self.inside(g, g.node, given, b, {}, n)

    def inside(self, fn, node, given, args, env, n):
        keep = self.env, self.returns, self.loops, self.fn, self.locals, self.changed, self.bound
        self.env, self.returns, self.loops, self.fn, self.changed, self.bound = dict(env), [], [], fn, set(), set()
        self.depth += 1
        self.stack.append(n)
        depth = len(self.conds)
        back = {}
        try:
            self.run(node, given)
            rets = self.returns
            # arrays changed in place
            for p in self.changed - self.bound:
                if p in args and isinstance(self.env.get(p), (Cnt, Rows)):
                    back[p] = self.env[p]
        finally:
            self.env, self.returns, self.loops, self.fn, self.locals, self.changed, self.bound = keep
            self.depth -= 1
            self.stack.pop()
            del self.conds[depth:]
        for p, v in back.items():
            if isinstance(args[p], (ast.Name, ast.Subscript)):
                self.assign(as_load(args[p]), v, force=True)
        if not rets:
            return Opq('None')
        v, cs = rets[-1]
        for w, c2 in reversed(rets[:-1]):
            extra = [c for c in c2[depth:]]
            c = extra[-1] if extra else Cond('?', True, ())
            v = self.phi(Cond(c.text, True, c.cols), w, v) if c.pol else self.phi(Cond(c.text, True, c.cols), v, w)
        return v

    def s_FunctionDef(self, s):
        self.env[s.name] = Local(s)

    def e_Lambda(self, n):
        f = ast.FunctionDef(name='lambda', args=n.args, body=[ast.copy_location(ast.Return(n.body), n)], decorator_list=[])
        return Local(ast.copy_location(f, n))


class Local(object):
    """A function defined in the body."""

    def __init__(self, node):
        self.node, self.text = node, 'function ' + node.name


FALSE = Atom('false')


def cols_expr(v):
    """Columns the entries depend on (not those of the selection)."""
    if isinstance(v, Rows):
        return v.cols
    if isinstance(v, Tup):
        return frozenset().union(*[cols_expr(i) for i in v.items]) if v.items else frozenset()
    return cols(v)


def number(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


def integer(t):
    if t.startswith('USub(') and t.endswith(')'):
        t = '-' + t[5:-1]
    try:
        return int(t)
    except ValueError:
        return None


def opname(op):
    return {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Is': 'is', 'IsNot': 'is not', 'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'In': 'in',
            'NotIn': 'not in'}.get(type(op).__name__, type(op).__name__)


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def defaults(node, given, walk):
    a = node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg not in given:
            given[p.arg] = walk.ev(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg not in given and d is not None:
            given[p.arg] = walk.ev(d)


def generator(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))


def as_load(t):
    import copy
    u = copy.copy(t)
    if hasattr(u, 'ctx'):
        u.ctx = ast.Load()
    return u
