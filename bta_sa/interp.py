"""Context-sensitive abstract interpreter over the syntax tree.

Nothing of the analysed package is executed or imported: expressions are mapped to abstract values
(class Val) that carry a handful of facets, statements transform an environment of such values,
branches are joined, loops are iterated to a fixpoint (partitioned by the flags tested inside the
loop), and calls to functions of the package are inlined up to a depth bound.  Property rules are
plugins that observe events (calls, stores, subscripts, operators) and add facts.
"""
import ast

from .loader import AnalysisError, Fn, Cls, dotted, pos

MAXSET = 8
MAXDEPTH = 7


class Terms(object):
    def __init__(self):
        self.tab = {}
        self.rev = []

    def mk(self, *t):
        i = self.tab.get(t)
        if i is None:
            i = len(self.rev)
            self.tab[t] = i
            self.rev.append(t)
        return i

    def show(self, i, d=4):
        t = self.rev[i]
        if d == 0:
            return '..'
        return '%s(%s)' % (t[0], ', '.join(self.show(x, d - 1) if isinstance(x, int) and k > 0 and t[0] not in ('const',) else repr(x) for k, x in enumerate(t[1:], 1)))


T = Terms()
EMPTY = frozenset()


class Val(object):
    __slots__ = ('consts', 'tmpls', 'seq', 'cols', 'elem', 'fields', 'obj', 'roots', 'deps', 'mdeps', 'tags', 'term')

    def __init__(self, consts=None, tmpls=None, seq=None, cols=None, elem=None, fields=None, obj=EMPTY, roots=EMPTY,
                 deps=EMPTY, mdeps=EMPTY, tags=EMPTY, term=None):
        self.consts, self.tmpls, self.seq, self.cols, self.elem, self.fields = consts, tmpls, seq, cols, elem, fields
        self.obj, self.roots, self.deps, self.mdeps, self.tags = obj, roots, deps, mdeps, tags
        self.term = T.mk('u', object.__hash__(self)) if term is None else term

    def key(self, d=3):
        if d == 0:
            return (self.consts, self.tags, self.obj)
        return (self.consts, self.tmpls, tuple(s.key(d - 1) for s in self.seq) if self.seq is not None else None,
                tuple((k, v.key(d - 1)) for k, v in self.cols) if self.cols else None,
                self.elem.key(d - 1) if self.elem is not None else None,
                tuple((k, v.key(d - 1)) for k, v in self.fields) if self.fields else None,
                self.obj, self.roots, self.deps, self.mdeps, self.tags, self.term)

    def fkey(self, d=3):
        """Key without the term (for fixpoint tests)."""
        if d == 0:
            return (self.consts, self.tags, self.obj)
        return (self.consts, self.tmpls, tuple(s.fkey(d - 1) for s in self.seq) if self.seq is not None else None,
                tuple((k, v.fkey(d - 1)) for k, v in self.cols) if self.cols else None,
                self.elem.fkey(d - 1) if self.elem is not None else None,
                tuple((k, v.fkey(d - 1)) for k, v in self.fields) if self.fields else None,
                self.obj, self.roots, self.deps, self.mdeps, self.tags)

    def with_(self, **kw):
        v = Val.__new__(Val)
        for s in Val.__slots__:
            setattr(v, s, kw[s] if s in kw else getattr(self, s))
        return v

    def tag(self, dim):
        for d, x in self.tags:
            if d == dim:
                return x
        return None

    def settag(self, dim, x):
        return self.with_(tags=frozenset([t for t in self.tags if t[0] != dim] + ([(dim, x)] if x is not None else [])))

    def const(self):
        """The single constant, or raises KeyError."""
        if self.consts is not None and len(self.consts) == 1:
            return next(iter(self.consts))[1]
        raise KeyError

    def isconst(self, c=object):
        try:
            v = self.const()
        except KeyError:
            return False
        return c is object or (type(v) is type(c) and v == c)

    def field(self, k):
        for a, v in self.fields or ():
            if a == k:
                return v
        return None


class NonePiece(Val):
    """The piece of a text template that stands for None (a name that is not given)."""
    __slots__ = ()


NONE_PIECE = NonePiece(term=T.mk('const', ('NoneType', None)))
NONE_T = frozenset([(NONE_PIECE,)])


def ck(c):
    return (type(c).__name__, c)


def C(c):
    try:
        hash(c)
    except TypeError:
        return Val(term=T.mk('u', id(c)))
    return Val(consts=frozenset([ck(c)]), tmpls=frozenset([(c,)]) if isinstance(c, str) else NONE_T if c is None else None, term=T.mk('const', ck(c)))


def unknown(term=None, deps=EMPTY, **kw):
    return Val(deps=deps, term=term, **kw)


def alldeps(*vals):
    out = EMPTY
    for v in vals:
        if v is None:
            continue
        out = out | v.deps
        if v.seq:
            for s in v.seq:
                out = out | s.deps
        if v.elem is not None:
            out = out | v.elem.deps
    return out


def join_tags(a, b, anone, bnone):
    if a == b:
        return a
    da, db = dict(a), dict(b)
    out = []
    for k in set(da) | set(db):
        if k in da and k in db:
            if da[k] == db[k]:
                out.append((k, da[k]))
        elif k in da:
            if bnone:
                out.append((k, da[k]))
        elif anone:
            out.append((k, db[k]))
    return frozenset(out)


def _trivial(v):
    """None / plain number constants carry no tag of their own."""
    if v.consts is not None and all(t in ('NoneType', 'int', 'float', 'bool') for t, _ in v.consts):
        return True
    return False


def uset(a, b, lim=MAXSET):
    if a is None or b is None:
        return None
    u = a | b
    return u if len(u) <= lim else None


def join(a, b, site=None, depth=4):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    term = a.term if a.term == b.term else T.mk('phi', site if site is not None else -1, min(a.term, b.term) if site is None else 0, max(a.term, b.term) if site is None else 0)
    if depth == 0:
        return Val(term=term, roots=a.roots | b.roots, deps=a.deps | b.deps, mdeps=a.mdeps & b.mdeps, obj=a.obj | b.obj)
    seq = elem = None
    if a.seq is not None and b.seq is not None and len(a.seq) == len(b.seq):
        seq = tuple(join(x, y, (site, 's', i) if site is not None else None, depth - 1) for i, (x, y) in enumerate(zip(a.seq, b.seq)))
        elem = join(a.elem, b.elem, (site, 'e') if site is not None else None, depth - 1)
    else:
        es = list(a.seq or ()) + list(b.seq or ()) + [e for e in (a.elem, b.elem) if e is not None]
        for e in es:
            elem = e if elem is None else join(elem, e, (site, 'e') if site is not None else None, depth - 1)
        # a None/scalar joined with a sequence keeps the sequence (the None case is not indexable)
        if a.seq is not None and b.seq is None and b.elem is None and _trivial(b):
            seq, elem = a.seq, a.elem
        elif b.seq is not None and a.seq is None and a.elem is None and _trivial(a):
            seq, elem = b.seq, b.elem
    cols = None
    if a.cols and b.cols:
        db = dict(b.cols)
        cols = tuple((k, join(v, db[k], (site, 'c', k) if site is not None else None, depth - 1)) for k, v in a.cols if k in db) or None
    elif a.cols and _trivial(b):
        cols = a.cols
    elif b.cols and _trivial(a):
        cols = b.cols
    fields = None
    if a.fields and b.fields:
        db = dict(b.fields)
        fields = tuple((k, join(v, db[k], (site, 'f', k) if site is not None else None, depth - 1)) for k, v in a.fields if k in db) or None
    return Val(consts=uset(a.consts, b.consts), tmpls=uset(a.tmpls, b.tmpls), seq=seq, cols=cols, elem=elem, fields=fields,
               obj=a.obj | b.obj if len(a.obj | b.obj) <= 12 else EMPTY, roots=a.roots | b.roots, deps=a.deps | b.deps,
               mdeps=a.mdeps & b.mdeps, tags=join_tags(a.tags, b.tags, _trivial(a), _trivial(b)), term=term)


class Env(object):
    """Local variables, heap of instance attributes, control dependences, and boolean facts."""
    __slots__ = ('vars', 'heap', 'pc', 'flags')

    def __init__(self, vars=None, heap=None, pc=EMPTY, flags=None):
        self.vars, self.heap, self.pc, self.flags = vars or {}, heap or {}, pc, flags or {}

    def copy(self):
        return Env(dict(self.vars), dict(self.heap), self.pc, dict(self.flags))


def join_env(a, b, site):
    if a is None:
        return b
    if b is None:
        return a
    v = {}
    for k in a.vars.keys() | b.vars.keys():
        x, y = a.vars.get(k), b.vars.get(k)
        if x is None or y is None:
            v[k] = x or y
        else:
            v[k] = join(x, y, (site, k)) if x is not y else x
    h = {}
    for k in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(k), b.heap.get(k)
        h[k] = (x or y) if (x is None or y is None) else (join(x, y, (site, k)) if x is not y else x)
    fl = {k: x for k, x in a.flags.items() if b.flags.get(k) == x}
    return Env(v, h, a.pc | b.pc, fl)


def env_key(e):
    return (tuple(sorted((k, v.fkey()) for k, v in e.vars.items())) if False else
            frozenset((k, v.fkey(2)) for k, v in e.vars.items()), frozenset((k, v.fkey(1)) for k, v in e.heap.items()), e.pc, frozenset(e.flags.items()))


class Frame(object):
    def __init__(self, fn, depth, caller=None, callnode=None):
        self.fn, self.depth, self.caller, self.callnode = fn, depth, caller, callnode
        self.rets = []       # (Val, Env, node)
        self.yields = []
        self.loops = []
        self.guards = []     # (Val cond, polarity, node)
        self.uid = None
        self.closure = None
        self.excs = []
        self.trydepth = 0

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f.fn.qual if f.fn else '<module>')
            f = f.caller
        return out

    def top(self):
        f = self
        while f.caller is not None:
            f = f.caller
        return f

    def all_guards(self):
        f, out = self, []
        while f is not None:
            out = list(f.guards) + out
            f = f.caller
        return out


class Loop(object):
    def __init__(self, node, lid):
        self.node, self.lid = node, lid
        self.breaks, self.conts = [], []


class Plugin(object):
    name = 'plugin'

    def start(self, it): pass
    def param(self, it, fr, name, val): return val
    def assign(self, it, fr, env, name, val, node): return val
    def attr_load(self, it, fr, env, base, attr, val, node): return val
    def attr_store(self, it, fr, env, base, attr, val, node): pass
    def sub_load(self, it, fr, env, base, idx, val, node): return val
    def sub_store(self, it, fr, env, base, idx, val, node, aug): return None
    def binop(self, it, fr, env, op, l, r, val, node): return val
    def compare(self, it, fr, env, op, l, r, val, node): return val
    def call(self, it, fr, env, callee, args, kwargs, val, node): return val
    def precall(self, it, fr, env, callee, args, kwargs, node): return None
    def iterate(self, it, fr, env, itv, elem, node): return elem
    def ret(self, it, fr, env, val, node): pass
    def raise_(self, it, fr, env, node): pass
    def branch(self, it, fr, env, cond, node): pass
    def loop_end(self, it, fr, loop, pre, back, final): pass
    def loop_head(self, it, fr, env, loop): pass
    def mutate(self, it, fr, env, val, how, node, args=()): pass
    def display(self, it, fr, env, val, node): return val


BUILTIN_PURE = set('len range enumerate zip sorted list tuple dict set frozenset int float str bool abs min max sum any all round repr isinstance issubclass hasattr getattr '
                   'map filter reversed type id hash iter next print callable divmod pow bytes ord chr format vars slice super object open setattr delattr exec eval input '
                   'basestring unicode xrange memoryview bytearray complex locals globals dir __import__ property staticmethod classmethod'.split())

import builtins as _b
BUILTIN_NAMES = set(dir(_b)) | {'__file__', '__name__', '__doc__'}

# external callables returning a view on / the very object of their first argument
VIEW_FUNCS = {'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.transpose', 'numpy.atleast_1d', 'numpy.atleast_2d',
              'numpy.expand_dims', 'numpy.ma.getdata', 'numpy.asanyarray', 'numpy.ma.asarray', 'numpy.swapaxes', 'numpy.flip', 'numpy.fliplr', 'numpy.flipud', 'numpy.rollaxis', 'numpy.moveaxis', 'numpy.broadcast_to'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes'}
MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'fill', 'resize', 'put', 'itemset',
               'add', 'discard', 'partition', 'setflags', 'setfield', 'byteswap'}


class Interp(object):
    def __init__(self, prog, plugins=(), opaque=(), intrinsics=None, maxdepth=MAXDEPTH, inline_filter=None):
        self.prog = prog
        self.plugins = list(plugins)
        self.opaque = set(opaque)
        self.intrinsics = intrinsics or {}
        self.maxdepth = maxdepth
        self.inline_filter = inline_filter
        self.stack = []
        self.uid = 0
        self.steps = 0
        self.fns_seen = set()
        self.calls_seen = 0
        self.memo = {}
        self.active_keys = set()
        for p in self.plugins:
            p.start(self)

    # -- helpers ----------------------------------------------------------
    def ev(self, name, *a):
        for p in self.plugins:
            getattr(p, name)(self, *a)

    def fold(self, name, val, *a):
        """Chain plugins whose last-but-one positional value is the abstract value."""
        for p in self.plugins:
            m = getattr(p, name)
            if name == 'param':
                val = m(self, a[0], a[1], val)
        return val

    # -- entry points -----------------------------------------------------
    def analyse_entry(self, fn, params=None, obj=None):
        fr = Frame(fn, 0)
        fr.uid = self.newuid()
        env = Env()
        for i, p in enumerate(fn.all_params):
            if fn.cls and i == 0 and not fn.is_static:
                v = Val(obj=frozenset([('inst', fn.cls.qual, ('self', fn.cls.qual))]), term=T.mk('self', fn.cls.qual), roots=frozenset([('self',)]))
            else:
                v = Val(roots=frozenset([('param', p)]), deps=frozenset([('param', p)]), term=T.mk('param', p))
            if params and p in params:
                v = params[p]
            for pl in self.plugins:
                v = pl.param(self, fr, p, v)
            env.vars[p] = v
        if fn.vararg:
            env.vars[fn.vararg] = Val(term=T.mk('param', '*' + fn.vararg), deps=frozenset([('param', fn.vararg)]))
        if fn.kwarg:
            env.vars[fn.kwarg] = Val(term=T.mk('param', '**' + fn.kwarg), deps=frozenset([('param', fn.kwarg)]))
        return self.run_body(fr, env)

    def newuid(self):
        self.uid += 1
        return self.uid

    def run_body(self, fr, env):
        fn = fr.fn
        self.fns_seen.add(fn.qual)
        self.stack.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, env, fr)
                fr.rets.append((v, env, fn.node))
                end = None
            else:
                end = self.block(fn.node.body, env, fr)
            if end is not None:
                v = C(None)
                fr.rets.append((v, end, fn.node))
            val, out = None, None
            for i, (v, e, n) in enumerate(fr.rets):
                v = v.with_(deps=v.deps | fr_pc(e))
                val = v if val is None else join(val, v, (id(fn.node), 'ret'))
                out = join_env(out, e, (id(fn.node), 'rete')) if out is not None else e
            if fn.is_generator:
                el = None
                for y in fr.yields:
                    el = y if el is None else join(el, y, (id(fn.node), 'yield'))
                val = Val(elem=el, term=T.mk('gen', fr.uid), deps=el.deps if el is not None else EMPTY)
            return val, out
        finally:
            self.stack.pop()

    # -- statements -------------------------------------------------------
    def block(self, stmts, env, fr):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env, fr)
        return env

    def stmt(self, s, env, fr):
        self.steps += 1
        if self.steps > 4000000:
            raise AnalysisError('interpreter step limit reached in %s' % fr.fn.qual)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('statement kind %s not supported at %s' % (type(s).__name__, pos(s)))
        return m(s, env, fr)

    def s_Expr(self, s, env, fr):
        self.eval(s.value, env, fr)
        return env

    def s_Pass(self, s, env, fr):
        return env

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, env, fr):
        table = {}
        self.prog._do_import(s, table)
        for k, d in table.items():
            env.vars[k] = self.resolved(self.prog.resolve(d), d)
        return env

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, env, fr):
        f = getattr(fr.fn, 'nested', {}).get(s.name)
        if f is None:
            f = Fn(s._module, s, fr.fn.qual + '.<locals>.' + s.name, parent=fr.fn)
            self.prog._nested(f)
        for d in f.node.args.defaults:
            self.eval(d, env, fr)
        env.vars[s.name] = Val(obj=frozenset([('clos', f, fr)]), term=T.mk('fn', f.qual))
        fr.lastenv = env
        return env

    def s_ClassDef(self, s, env, fr):
        env.vars[s.name] = unknown()
        return env

    def s_Assign(self, s, env, fr):
        v = self.eval(s.value, env, fr)
        for t in s.targets:
            self.bind(t, v, env, fr, s)
        return env

    def s_AnnAssign(self, s, env, fr):
        if s.value is not None:
            self.bind(s.target, self.eval(s.value, env, fr), env, fr, s)
        return env

    def s_AugAssign(self, s, env, fr):
        t = s.target
        cur = self.eval(t, env, fr)
        r = self.eval(s.value, env, fr)
        v = self.do_binop(s.op, cur, r, env, fr, s)
        for p in self.plugins:
            p.mutate(self, fr, env, cur, 'augassign', s, (r,))
        # in-place operators keep the identity of arrays and lists
        v = v.with_(roots=cur.roots, obj=cur.obj, tags=v.tags)
        if isinstance(s.op, ast.Add) and cur.elem is not None:
            v = v.with_(elem=join(cur.elem, r.elem, (id(s), 'aug')) if r.elem is not None else cur.elem)
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env, fr, s)
        else:
            self.bind(t, v, env, fr, s, aug=True)
        return env

    def s_Delete(self, s, env, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, env, fr)
                self.eval(t.slice, env, fr)
                for p in self.plugins:
                    p.mutate(self, fr, env, b, 'del', s)
        return env

    def s_Assert(self, s, env, fr):
        c = self.eval(s.test, env, fr)
        self.refine(s.test, True, env, fr)
        return env

    def s_Return(self, s, env, fr):
        v = self.eval(s.value, env, fr) if s.value is not None else C(None)
        for p in self.plugins:
            p.ret(self, fr, env, v, s)
        fr.rets.append((v, env, s))
        for l in fr.loops:
            pass
        return None

    def s_Raise(self, s, env, fr):
        if s.exc is not None:
            self.eval(s.exc, env, fr)
        for p in self.plugins:
            p.raise_(self, fr, env, s)
        return None

    def s_Break(self, s, env, fr):
        fr.loops[-1].breaks.append(env)
        return None

    def s_Continue(self, s, env, fr):
        fr.loops[-1].conts.append(env)
        return None

    def truth(self, v):
        """True/False if the abstract value decides the condition, else None."""
        if v.consts is not None:
            ts = {bool(c) for _, c in v.consts}
            if len(ts) == 1:
                return ts.pop()
        if v.seq is not None and v.consts is None and v.elem is None:
            return len(v.seq) > 0
        if v.tmpls and v.consts is None and all(any(p if isinstance(p, str) else getattr(p, 'nonempty', False) for p in t) for t in v.tmpls):
            return True
        if any(o[0] in ('clos', 'fn', 'cls', 'mod', 'inst') for o in v.obj) and v.consts is None:
            return None
        return None

    def s_If(self, s, env, fr):
        cv = self.eval(s.test, env, fr)
        for p in self.plugins:
            p.branch(self, fr, env, cv, s)
        t = self.truth(cv)
        a = b = None
        site = id(s)
        pc0 = env.pc
        ctl = self.ctl_deps(cv)
        if t is not False:
            e = env.copy()
            e.pc = pc0 | ctl
            if self.refine(s.test, True, e, fr):
                fr.guards.append((cv, True, s))
                a = self.block(s.body, e, fr)
                fr.guards.pop()
        if t is not True:
            e = env.copy()
            e.pc = pc0 | ctl
            if self.refine(s.test, False, e, fr):
                fr.guards.append((cv, False, s))
                b = self.block(s.orelse, e, fr)
                fr.guards.pop()
        if a is not None and b is not None:
            out = join_env(a, b, site)
            if ctl:
                for k, v in out.vars.items():
                    x, y = a.vars.get(k), b.vars.get(k)
                    if (x is None) != (y is None) or (x is not None and x.term != y.term):
                        out.vars[k] = v.with_(deps=v.deps | ctl)
            # leaving the branch: control dependence ends unless a branch exited
            out.pc = (a.pc | b.pc) - (ctl - pc0)
            return out
        out = a if a is not None else b
        if out is not None and not ctl:
            out.pc = pc0 | (out.pc - pc0)
        if out is not None and ctl:
            dead_body = s.body if a is None else s.orelse
            if t is not None or self.only_raises(dead_body):
                out.pc = out.pc - (ctl - pc0)
        return out

    @staticmethod
    def only_raises(body):
        return bool(body) and isinstance(body[-1], ast.Raise)

    def ctl_deps(self, v):
        return frozenset(d for d in alldeps(v) if d in self.track_ctl) if getattr(self, 'track_ctl', None) else EMPTY

    # boolean refinement; returns False if the branch is infeasible
    def refine(self, test, pol, env, fr):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol, env, fr)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == pol:
                return all([self.refine(v, pol, env, fr) for v in test.values])
            return True
        if isinstance(test, ast.Name):
            v = env.vars.get(test.id)
            if v is not None and v.consts is not None:
                keep = frozenset(c for c in v.consts if bool(c[1]) == pol)
                if not keep:
                    return False
                if keep != v.consts:
                    env.vars[test.id] = v.with_(consts=keep, term=T.mk('const', next(iter(keep))) if len(keep) == 1 else v.term)
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant):
            c = test.comparators[0].value
            op = test.ops[0]
            eq = isinstance(op, (ast.Is, ast.Eq))
            ne = isinstance(op, (ast.IsNot, ast.NotEq))
            v = env.vars.get(test.left.id)
            if v is not None and (eq or ne):
                want = (eq == pol)
                if v.consts is not None:
                    keep = frozenset(k for k in v.consts if (k == ck(c)) == want)
                    if not keep:
                        return False
                    if keep != v.consts:
                        env.vars[test.left.id] = v.with_(consts=keep, term=T.mk('const', next(iter(keep))) if len(keep) == 1 else v.term)
                elif want and c is None:
                    # a None value has neither elements nor methods
                    nv = C(None)
                    env.vars[test.left.id] = nv.with_(roots=EMPTY, deps=v.deps)
            return True
        return True

    def s_While(self, s, env, fr):
        return self.loop(s, env, fr, None)

    def s_For(self, s, env, fr):
        itv = self.eval(s.iter, env, fr)
        return self.loop(s, env, fr, itv)

    s_AsyncFor = s_For

    def loop_flags(self, s, env):
        """Names tested in the loop body as flags that have a single constant value on entry."""
        names = set()
        for n in ast.walk(s):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                tests = [n.test]
                while tests:
                    t = tests.pop()
                    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                        tests.append(t.operand)
                    elif isinstance(t, ast.BoolOp):
                        tests.extend(t.values)
                    elif isinstance(t, ast.Name):
                        names.add(t.id)
                    elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant):
                        names.add(t.left.id)
        out = []
        for n in sorted(names):
            v = env.vars.get(n)
            if v is not None and v.consts is not None and len(v.consts) == 1:
                out.append(n)
        return out

    def elem_of(self, itv, env, fr, node):
        if itv is None:
            return None
        if itv.seq is not None:
            e = None
            for x in itv.seq:
                e = x if e is None else join(e, x, (id(node), 'it'))
            if itv.elem is not None:
                e = itv.elem if e is None else join(e, itv.elem, (id(node), 'it'))
            if e is None:
                e = unknown(T.mk('elem', itv.term, id(node)))
        elif itv.elem is not None:
            e = itv.elem
            if e.term is None:
                e = e.with_(term=T.mk('elem', itv.term, id(node)))
        elif itv.consts is not None and itv.isconst() and isinstance(itv.const(), str):
            e = unknown(T.mk('elem', itv.term, id(node)))
        else:
            e = Val(term=T.mk('elem', itv.term, id(node)), deps=itv.deps, roots=frozenset(r + ('[]',) for r in itv.roots if len(r) < 6), mdeps=itv.mdeps)
            for o in itv.obj:
                if o[0] == 'inst':
                    pass
        e = e.with_(deps=e.deps | itv.deps)
        for p in self.plugins:
            e = p.iterate(self, fr, env, itv, e, node)
        return e

    def loop(self, s, env, fr, itv):
        is_for = not isinstance(s, ast.While)
        lid = ('L', getattr(s._module, 'rel', ''), fr.fn.qual, self.loop_ordinal(s, fr))
        flags = self.loop_flags(s, env)
        # unroll displays of a few elements (parallel treatment of x and y)
        if is_for and itv is not None and itv.seq is not None and itv.elem is None and 0 < len(itv.seq) <= 8 and self.unrollable(s, itv):
            cur, brk = env, []
            for i, x in enumerate(itv.seq):
                lp = Loop(s, lid)
                fr.loops.append(lp)
                for p in self.plugins:
                    x = p.iterate(self, fr, cur, itv, x, s)
                self.bind(s.target, x.with_(deps=x.deps | itv.deps), cur, fr, s)
                nxt = self.block(s.body, cur.copy(), fr)
                fr.loops.pop()
                for c in lp.conts:
                    nxt = join_env(nxt, c, (id(s), 'cont'))
                brk += lp.breaks
                if nxt is None:
                    cur = None
                    break
                cur = nxt
            if cur is not None:
                cur = self.block(s.orelse, cur, fr)
            for b in brk:
                cur = join_env(cur, b, (id(s), 'brk'))
            return cur
        pre = env
        heads = {}
        work = []

        def fkey(e):
            k = []
            for n in flags:
                v = e.vars.get(n)
                try:
                    k.append(ck(v.const()) if v is not None else 'unbound')
                except KeyError:
                    k.append('?')
            return tuple(k)

        exits, breaks_all = [], []
        k0 = fkey(env)
        heads[k0] = (env.copy(), 0)
        work.append(k0)
        entry_keys = {k0}
        backs = {}
        count = 0
        finals = {}
        elem0 = self.elem_of(itv, env, fr, s) if is_for else None
        while work:
            k = work.pop(0)
            count += 1
            if count > 40:
                break
            head, n = heads[k]
            e = head.copy()
            for p in self.plugins:
                p.loop_head(self, fr, e, (s, lid, k in entry_keys))
            lp = Loop(s, lid)
            fr.loops.append(lp)
            feasible = True
            if is_for:
                el = elem0
                el = el.with_(deps=el.deps | e.pc, term=el.term)
                self.bind(s.target, el, e, fr, s)
            else:
                cv = self.eval(s.test, e, fr)
                for p in self.plugins:
                    p.branch(self, fr, e, cv, s)
                t = self.truth(cv)
                if t is not True:
                    x = e.copy()
                    if self.refine(s.test, False, x, fr):
                        finals[k] = x
                else:
                    finals.pop(k, None)
                if t is False:
                    feasible = False
                elif not self.refine(s.test, True, e, fr):
                    feasible = False
            out = self.block(s.body, e, fr) if feasible else None
            fr.loops.pop()
            outs = ([out] if out is not None else []) + lp.conts
            breaks_all += lp.breaks
            if is_for:
                finals[k] = head
            for b in outs:
                bk = fkey(b)
                backs.setdefault(bk, []).append((k, b))
                if bk in heads:
                    old, n2 = heads[bk]
                    ne = join_env(old, b, (id(s), 'loop', bk))
                    if env_key(ne) != env_key(old):
                        if n2 < 4:
                            heads[bk] = (ne, n2 + 1)
                            if bk not in work:
                                work.append(bk)
                        else:
                            heads[bk] = (ne, n2)
                    else:
                        # keep phi terms stable
                        heads[bk] = (ne, n2)
                elif len(heads) < 6:
                    heads[bk] = (b.copy(), 0)
                    work.append(bk)
                else:
                    kk = next(iter(heads))
                    heads[kk] = (join_env(heads[kk][0], b, (id(s), 'loop', kk)), heads[kk][1])
        final = None
        for k, x in finals.items():
            hx = heads[k][0] if is_for else x
            final = join_env(final, hx, (id(s), 'exit')) if final is not None else hx.copy()
        for p in self.plugins:
            p.loop_end(self, fr, (s, lid), pre, [(k, b, heads[k][0]) for bk in backs for (k, b) in backs[bk]], final)
        if final is not None:
            final.pc = pre.pc | (final.pc - pre.pc)
            final = self.block(s.orelse, final, fr)
        for b in breaks_all:
            final = join_env(final, b, (id(s), 'brk'))
        return final

    def unrollable(self, s, itv):
        return True

    def loop_ordinal(self, s, fr):
        if not hasattr(fr.fn, '_loops'):
            fr.fn._loops = {}
            i = 0
            for n in ast.walk(fr.fn.node):
                if isinstance(n, (ast.For, ast.While)):
                    fr.fn._loops[id(n)] = i
                    i += 1
        return fr.fn._loops.get(id(s), -1)

    def s_With(self, s, env, fr):
        for item in s.items:
            v = self.eval(item.context_expr, env, fr)
            if item.optional_vars is not None:
                self.bind(item.optional_vars, v, env, fr, s)
        return self.block(s.body, env, fr)

    s_AsyncWith = s_With

    def s_Try(self, s, env, fr):
        pre = env.copy()
        hstate = env.copy()
        cur = env
        nret = len(fr.rets)
        fr.trydepth += 1
        for st in s.body:
            if cur is None:
                break
            before = cur.copy()
            cur = self.stmt(st, cur, fr)
            hstate = join_env(hstate, before, (id(s), 'h'))
            if cur is not None:
                hstate = join_env(hstate, cur, (id(s), 'h'))
        fr.trydepth -= 1
        out = cur
        if out is not None:
            out = self.block(s.orelse, out, fr)
        for h in s.handlers:
            e = hstate.copy()
            if h.type is not None:
                self.eval(h.type, e, fr)
            if h.name:
                e.vars[h.name] = unknown()
            e = self.block(h.body, e, fr)
            if e is not None:
                out = join_env(out, e, (id(s), 'try')) if out is not None else e
        if s.finalbody:
            if out is None:
                # evaluate it once for its events
                self.block(s.finalbody, hstate.copy(), fr)
            else:
                out = self.block(s.finalbody, out, fr)
        return out

    s_TryStar = s_Try

    # -- binding ----------------------------------------------------------
    def setvar(self, name, v, env, fr, node):
        for p in self.plugins:
            v = p.assign(self, fr, env, name, v, node)
        if env.pc:
            v = v.with_(deps=v.deps | env.pc)
        env.vars[name] = v

    def bind(self, t, v, env, fr, node, aug=False):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env, fr, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if v.seq is not None and len(v.seq) == n and not star:
                vals = [x.with_(deps=x.deps | v.deps) if v.deps - x.deps else x for x in v.seq]
            else:
                el = v.elem
                vals = []
                for i in range(n):
                    c = dict(v.cols).get(i) if v.cols and v.seq is None and False else None
                    if c is not None:
                        vals.append(c)
                    elif el is not None:
                        vals.append(el.with_(term=T.mk('item', v.term, ck(i)), deps=el.deps | v.deps))
                    else:
                        vals.append(Val(term=T.mk('item', v.term, ck(i)), deps=v.deps, mdeps=v.mdeps, roots=frozenset(r + (i,) for r in v.roots if len(r) < 6)))
                    for p in self.plugins:
                        vals[-1] = p.sub_load(self, fr, env, v, C(i), vals[-1], t)
            for e, x in zip(t.elts, vals):
                self.bind(e.value if isinstance(e, ast.Starred) else e, x, env, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, env, fr)
            self.attr_store(b, t, v, env, fr, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, env, fr)
            i = self.eval(t.slice, env, fr)
            self.sub_store(b, i, t, v, env, fr, node, aug)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, fr, node)
        else:
            raise AnalysisError('cannot bind %s at %s' % (type(t).__name__, pos(t)))

    def attr_store(self, b, t, v, env, fr, node):
        for p in self.plugins:
            p.attr_store(self, fr, env, b, t.attr, v, t)
        for o in b.obj:
            if o[0] == 'inst':
                c = self.prog.classes.get(o[1])
                pr = self.prog.find_prop(c, t.attr) if c else None
                if pr and 'set' in pr and self.can_inline(pr['set'], fr):
                    self.inline(pr['set'], [b, v], {}, env, fr, t)
                else:
                    env.heap[(o[1:], t.attr)] = v

    def sub_store(self, b, i, t, v, env, fr, node, aug=False):
        for p in self.plugins:
            p.mutate(self, fr, env, b, 'setitem', t, (i, v))
        new = None
        for p in self.plugins:
            r = p.sub_store(self, fr, env, b, i, v, t, aug)
            if r is not None:
                new = r
        name = t.value
        base = new or b
        nv = base.with_(term=T.mk('st', b.term, i.term, v.term), deps=base.deps | v.deps | i.deps, consts=None)
        idx = self.last_index(i)
        try:
            k = i.const()
        except KeyError:
            k = None
        if isinstance(k, str):
            nv = nv.with_(fields=tuple([(a, x) for a, x in (nv.fields or ()) if a != k] + [(k, v)]))
        elif nv.seq is not None and isinstance(k, int) and -len(nv.seq) <= k < len(nv.seq):
            sq = list(nv.seq)
            sq[k] = v
            nv = nv.with_(seq=tuple(sq))
        elif idx is not None and i.seq is not None:
            nv = nv.with_(cols=tuple([(a, x) for a, x in (nv.cols or ()) if a != idx] + [(idx, v)]), mdeps=nv.mdeps)
        elif nv.seq is not None:
            el = v
            for x in nv.seq:
                el = join(el, x, (id(t), 'st'))
            nv = nv.with_(seq=None, elem=el)
        elif nv.elem is not None:
            nv = nv.with_(elem=join(nv.elem, v, (id(t), 'st')))
        else:
            # element of an array or list of unknown content
            full = isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None
            if full:
                nv = nv.with_(tags=nv.tags | frozenset(x for x in v.tags if nv.tag(x[0]) is None), elem=v.elem, cols=v.cols)
            elif not isinstance(t.slice, ast.Slice) and i.tags and nv.elem is None:
                nv = nv.with_(elem=v)
        self.write_back(t.value, nv, env, fr)

    def write_back(self, target, nv, env, fr):
        """Store the updated container under the expression it was read from."""
        if isinstance(target, ast.Name):
            if target.id in env.vars:
                if env.pc:
                    nv = nv.with_(deps=nv.deps | env.pc)
                env.vars[target.id] = nv
        elif isinstance(target, ast.Attribute):
            b = self.eval_quiet(target.value, env, fr)
            for o in b.obj:
                if o[0] == 'inst' and (o[1:], target.attr) in env.heap:
                    env.heap[(o[1:], target.attr)] = nv
        elif isinstance(target, ast.Subscript):
            b = self.eval_quiet(target.value, env, fr)
            i = self.eval_quiet(target.slice, env, fr)
            try:
                k = i.const()
            except KeyError:
                k = None
            nb = b
            if b.seq is not None and isinstance(k, int) and -len(b.seq) <= k < len(b.seq):
                sq = list(b.seq)
                sq[k] = nv
                nb = b.with_(seq=tuple(sq))
            elif isinstance(k, str):
                nb = b.with_(fields=tuple([(a, x) for a, x in (b.fields or ()) if a != k] + [(k, nv)]))
            elif b.elem is not None:
                nb = b.with_(elem=join(b.elem, nv, (id(target), 'wb')))
            elif b.seq is None:
                nb = b.with_(elem=nv)
            nb = nb.with_(deps=nb.deps | nv.deps, term=T.mk('st', b.term, i.term, nv.term))
            self.write_back(target.value, nb, env, fr)

    def eval_quiet(self, node, env, fr):
        pl, self.plugins = self.plugins, []
        try:
            return self.eval(node, env, fr)
        finally:
            self.plugins = pl

    @staticmethod
    def last_index(i):
        """Constant last component of a tuple index like [:, k], [..., k] or [a, b, k]."""
        if i.seq is not None and len(i.seq) >= 2:
            try:
                k = i.seq[-1].const()
            except KeyError:
                return None
            if isinstance(k, int) and not isinstance(k, bool):
                return k
        return None

    # -- expressions ------------------------------------------------------
    def eval(self, n, env, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('expression kind %s not supported at %s' % (type(n).__name__, pos(n)))
        return m(n, env, fr)

    def e_Constant(self, n, env, fr):
        return C(n.value)

    def resolved(self, r, d):
        kind, x = r
        if kind == 'fn':
            return Val(obj=frozenset([('fn', x.qual)]), term=T.mk('fn', x.qual))
        if kind == 'cls':
            return Val(obj=frozenset([('cls', x.qual)]), term=T.mk('cls', x.qual))
        if kind == 'mod':
            return Val(obj=frozenset([('mod', x.name)]), term=T.mk('mod', x.name))
        if kind == 'global':
            m, name = x
            return self.global_val(m, name)
        return Val(obj=frozenset([('ext', d)]), term=T.mk('ext', d))

    def global_val(self, m, name):
        key = (m.name, name)
        cache = self.__dict__.setdefault('_gcache', {})
        if key in cache:
            return cache[key]
        cache[key] = unknown(T.mk('global', m.name, name), roots=frozenset([('global', m.name, name)]))
        e = m.globals.get(name)
        if e is not None:
            pl, self.plugins = self.plugins, []
            try:
                fr = Frame(ModFn(m), 0)
                fr.uid = 0
                v = self.eval(e, Env(), fr)
                # keep literals; mutable ones may be changed elsewhere but their literal content is the table
                cache[key] = v.with_(roots=frozenset([('global', m.name, name)]))
            except AnalysisError:
                pass
            finally:
                self.plugins = pl
        return cache[key]

    def e_Name(self, n, env, fr):
        v = env.vars.get(n.id)
        if v is not None:
            return v
        return self.lookup(n.id, fr, n)

    def lookup(self, name, fr, n):
        # enclosing function scopes
        f = fr.closure
        while f is not None:
            e = getattr(f, 'lastenv', None)
            if e is not None and name in e.vars:
                return e.vars[name]
            f = f.closure
        g = fr.fn
        while isinstance(g, Fn):
            if name in getattr(g, 'nested', {}):
                return Val(obj=frozenset([('clos', g.nested[name], fr.closure or fr)]), term=T.mk('fn', g.nested[name].qual))
            g = g.parent
        m = fr.fn.module
        if name in m.functions:
            return self.resolved(('fn', m.functions[name]), None)
        if name in m.classes:
            return self.resolved(('cls', m.classes[name]), None)
        if name in m.imports:
            d = m.imports[name]
            return self.resolved(self.prog.resolve(d), d)
        if name in m.global_names:
            return self.global_val(m, name)
        if name in BUILTIN_NAMES:
            return Val(obj=frozenset([('ext', 'builtins.' + name)]), term=T.mk('ext', 'builtins.' + name))
        return unknown(T.mk('undef', name))

    def e_Attribute(self, n, env, fr):
        b = self.eval(n.value, env, fr)
        v = None
        for o in sorted(b.obj, key=repr):
            w = None
            if o[0] == 'ext':
                d = o[1] + '.' + n.attr
                w = Val(obj=frozenset([('ext', d)]), term=T.mk('ext', d))
            elif o[0] == 'mod':
                m = self.prog.modules[o[1]]
                d = m.name + '.' + n.attr
                r = self.prog.resolve(d)
                w = self.resolved(r, d) if r[0] != 'missing' else unknown(T.mk('missing', d))
            elif o[0] == 'inst':
                key = (o[1:], n.attr)
                if key in env.heap:
                    w = env.heap[key]
                else:
                    c = self.prog.classes.get(o[1])
                    meth = self.prog.find_method(c, n.attr) if c else None
                    pr = self.prog.find_prop(c, n.attr) if c else None
                    if meth:
                        w = Val(obj=frozenset([('bound', meth.qual, b)]), term=T.mk('bound', meth.qual, b.term))
                    elif pr and 'get' in pr and self.can_inline(pr['get'], fr) and ('prop', pr['get'].qual) not in self.opaque:
                        w = self.inline(pr['get'], [b], {}, env, fr, n)
                        w = w.with_(term=T.mk('attr', b.term, n.attr))
                    else:
                        a = None
                        for k in (self.prog.mro(c) if c else ()):
                            if n.attr in k.attrs:
                                a = self.eval_quiet(k.attrs[n.attr], Env(), Frame(ModFn(k.module), 0))
                                break
                        w = a if a is not None else Val(term=T.mk('attr', b.term, n.attr), deps=b.deps, roots=frozenset(r + ('.' + n.attr,) for r in b.roots if len(r) < 6))
            elif o[0] == 'cls':
                c = self.prog.classes[o[1]]
                meth = self.prog.find_method(c, n.attr)
                w = Val(obj=frozenset([('fn', meth.qual)]), term=T.mk('fn', meth.qual)) if meth else None
            elif o[0] == 'extinst':
                w = Val(obj=frozenset([('ext', o[1] + '().' + n.attr)]), term=T.mk('attr', b.term, n.attr), roots=b.roots, deps=b.deps)
            if w is not None:
                v = w if v is None else join(v, w, (id(n), 'attr'))
        if v is None:
            v = Val(term=T.mk('attr', b.term, n.attr), deps=b.deps, mdeps=b.mdeps, roots=frozenset(r + ('.' + n.attr,) for r in b.roots if len(r) < 6))
            if n.attr == 'T':
                # transposed view: columns become the first axis
                sq = None
                if b.cols:
                    ks = dict(b.cols)
                    if set(ks) == set(range(len(ks))):
                        sq = tuple(ks[i] for i in range(len(ks)))
                cl = tuple(enumerate(b.seq)) if b.seq is not None else None
                v = v.with_(roots=b.roots, seq=sq, cols=cl, tags=b.tags, elem=None)
            elif n.attr in ('flat', 'real', 'data'):
                v = v.with_(roots=b.roots, tags=b.tags)
        for p in self.plugins:
            v = p.attr_load(self, fr, env, b, n.attr, v, n)
        return v

    def e_Subscript(self, n, env, fr):
        b = self.eval(n.value, env, fr)
        i = self.eval(n.slice, env, fr)
        v = self.do_sub(b, i, n, env, fr)
        for p in self.plugins:
            v = p.sub_load(self, fr, env, b, i, v, n)
        return v

    def do_sub(self, b, i, n, env, fr):
        term = T.mk('sub', b.term, i.term)
        deps = b.deps | i.deps
        if isinstance(n.slice, ast.Slice):
            if b.seq is not None and b.elem is None:
                try:
                    lo = self.eval_quiet(n.slice.lower, env, fr).const() if n.slice.lower is not None else None
                    hi = self.eval_quiet(n.slice.upper, env, fr).const() if n.slice.upper is not None else None
                    st = self.eval_quiet(n.slice.step, env, fr).const() if n.slice.step is not None else None
                    sq = b.seq[slice(lo, hi, st)]
                    # a slice of a list is a copy; of an array it is a view
                    return b.with_(seq=sq, deps=deps, term=term, tags=b.tags, consts=None, roots=b.roots if not self.is_list(b) else EMPTY)
                except (KeyError, TypeError, ValueError):
                    pass
            rts = frozenset(r for r in b.roots)
            full = n.slice.lower is None and n.slice.upper is None and n.slice.step is None
            el = b.elem
            if b.seq is not None:
                for x in b.seq:
                    el = x if el is None else join(el, x, (id(n), 'sl'))
            return Val(seq=b.seq if full else None, cols=b.cols, elem=el, fields=b.fields if full else None, roots=frozenset(r + ('[:]',) if r[-1] != '[:]' else r for r in rts), deps=deps, mdeps=b.mdeps, tags=b.tags, term=term if not full else T.mk('slice', b.term), obj=b.obj if full else EMPTY)
        try:
            k = i.const()
        except KeyError:
            k = None
        if isinstance(k, int) and not isinstance(k, bool) and b.seq is not None and b.elem is None:
            if -len(b.seq) <= k < len(b.seq):
                x = b.seq[k]
                return x.with_(deps=x.deps | deps)
        if isinstance(k, str) and b.fields:
            f = b.field(k)
            if f is not None:
                return f.with_(deps=f.deps | deps)
        if i.seq is not None:     # tuple index
            li = self.last_index(i)
            if li is not None and b.cols and li in dict(b.cols):
                x = dict(b.cols)[li]
                return x.with_(deps=x.deps | deps, term=T.mk('sub', b.term, i.term), roots=b.roots | x.roots)
            if b.seq is not None and i.seq:
                try:
                    k0 = i.seq[0].const()
                    if isinstance(k0, int) and -len(b.seq) <= k0 < len(b.seq):
                        x = b.seq[k0]
                        return x.with_(deps=x.deps | deps, term=term)
                except KeyError:
                    pass
            keep_cols = b.cols if (i.seq and self.is_full_slice_last(n)) else None
            return Val(term=term, deps=deps, mdeps=b.mdeps, roots=frozenset(r + ('[,]',) for r in b.roots if len(r) < 6), tags=b.tags, cols=keep_cols, elem=b.elem)
        es = list(b.seq or ()) + ([b.elem] if b.elem is not None else [])
        if es and self.is_list(b):
            e = None
            for x in es:
                e = x if e is None else join(e, x, (id(n), 'sub'))
            return e.with_(deps=e.deps | deps, term=T.mk('sub', b.term, i.term) if True else e.term, mdeps=e.mdeps | b.mdeps)
        # array indexed with a mask or an index array keeps its columns; with a scalar it is an element
        return Val(term=term, deps=deps, mdeps=b.mdeps, roots=frozenset(r + ('[i]',) for r in b.roots if len(r) < 6), tags=b.tags, cols=b.cols, elem=b.elem, obj=EMPTY)

    @staticmethod
    def is_full_slice_last(n):
        return isinstance(n.slice, ast.Tuple) and isinstance(n.slice.elts[-1], ast.Slice)

    @staticmethod
    def is_list(b):
        return b.seq is not None or b.elem is not None

    def e_Slice(self, n, env, fr):
        vs = [self.eval(x, env, fr) for x in (n.lower, n.upper, n.step) if x is not None]
        return Val(term=T.mk('slc', *[self.eval_quiet(x, env, fr).term if x is not None else -1 for x in (n.lower, n.upper, n.step)]), deps=alldeps(*vs))

    def e_Tuple(self, n, env, fr):
        vals = []
        star = False
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env, fr)
                if v.seq is not None and v.elem is None:
                    vals.extend(v.seq)
                else:
                    star = True
                    vals.append(v.elem if v.elem is not None else unknown())
            else:
                vals.append(self.eval(e, env, fr))
        t = T.mk('tup', *[v.term for v in vals])
        if star:
            el = None
            for v in vals:
                el = v if el is None else join(el, v, (id(n), 'star'))
            return Val(elem=el, term=t, deps=alldeps(*vals))
        md = None
        for v in vals:
            md = v.mdeps if md is None else md | v.mdeps
        v = Val(seq=tuple(vals), term=t, deps=alldeps(*vals), mdeps=md or EMPTY)
        for p in self.plugins:
            v = p.display(self, fr, env, v, n)
        return v

    def e_List(self, n, env, fr):
        v = self.e_Tuple(n, env, fr)
        return v

    def e_Set(self, n, env, fr):
        v = self.e_Tuple(n, env, fr)
        el = None
        for x in (v.seq or ()):
            el = x if el is None else join(el, x, (id(n), 'set'))
        return v.with_(seq=None, elem=el, obj=frozenset([('extinst', 'builtins.set')]))

    def e_Dict(self, n, env, fr):
        fields, el, deps = [], None, EMPTY
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, env, fr)
            deps |= vv.deps
            if k is None:
                for a, x in vv.fields or ():
                    fields.append((a, x))
                continue
            kv = self.eval(k, env, fr)
            try:
                fields.append((kv.const(), vv))
            except KeyError:
                el = vv if el is None else join(el, vv, (id(n), 'dict'))
        return Val(fields=tuple(fields) or None, elem=el, deps=deps, obj=frozenset([('extinst', 'builtins.dict')]), term=T.mk('dict', id(n), *[v.term for _, v in fields]))

    def e_Starred(self, n, env, fr):
        return self.eval(n.value, env, fr)

    def e_UnaryOp(self, n, env, fr):
        v = self.eval(n.operand, env, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return C(not t).with_(deps=v.deps)
            return Val(consts=frozenset([ck(True), ck(False)]), term=T.mk('not', v.term), deps=v.deps)
        if v.isconst() and isinstance(v.const(), (int, float)) and isinstance(n.op, ast.USub):
            return C(-v.const())
        nm = type(n.op).__name__
        if nm == 'Invert' and T.rev[v.term][0] == 'Invert':
            return v.with_(term=T.rev[v.term][1], roots=EMPTY)
        return Val(term=T.mk(nm, v.term), deps=v.deps, mdeps=v.mdeps, tags=v.tags, cols=v.cols, seq=v.seq, elem=v.elem)

    def e_BinOp(self, n, env, fr):
        l = self.eval(n.left, env, fr)
        r = self.eval(n.right, env, fr)
        return self.do_binop(n.op, l, r, env, fr, n)

    def do_binop(self, op, l, r, env, fr, n):
        v = self._binop(op, l, r, n)
        for p in self.plugins:
            v = p.binop(self, fr, env, op, l, r, v, n)
        return v

    def _binop(self, op, l, r, n):
        nm = type(op).__name__
        deps = l.deps | r.deps
        md = l.mdeps | r.mdeps
        # string templates
        if nm == 'Mod' and l.tmpls is not None:
            args = list(r.seq) if r.seq is not None and r.elem is None else [r]
            out = set()
            for t in l.tmpls:
                x = fmt_percent(t, args)
                if x is None:
                    out = None
                    break
                out |= x
            return mkstr(out, deps | alldeps(*args), T.mk('fmt', l.term, r.term))
        if nm == 'Add' and (l.tmpls is not None or r.tmpls is not None):
            lt = l.tmpls if l.tmpls is not None else frozenset([(l,)])
            rt = r.tmpls if r.tmpls is not None else frozenset([(r,)])
            out = set()
            for a in lt:
                for b in rt:
                    out.add(norm_tmpl(a + b))
            return mkstr(out if len(out) <= MAXSET else None, deps, T.mk('cat', l.term, r.term))
        if l.isconst() and r.isconst():
            a, b = l.const(), r.const()
            try:
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    res = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b,
                           'Mod': lambda: a % b, 'Pow': lambda: a ** b if abs(b) < 64 else None, 'LShift': lambda: a << b if b < 128 else None, 'RShift': lambda: a >> b,
                           'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'BitXor': lambda: a ^ b}.get(nm, lambda: None)()
                    if res is not None:
                        return C(res)
            except Exception:
                pass
        # list operations
        if nm == 'Add' and (l.seq is not None or l.elem is not None) and (r.seq is not None or r.elem is not None):
            if l.seq is not None and r.seq is not None and l.elem is None and r.elem is None and not l.cols:
                return Val(seq=l.seq + r.seq, deps=deps, term=T.mk(nm, l.term, r.term), tags=join_tags(l.tags, r.tags, False, False), mdeps=md)
            es = list(l.seq or ()) + list(r.seq or ()) + [x for x in (l.elem, r.elem) if x is not None]
            e = None
            for x in es:
                e = x if e is None else join(e, x, (id(n), 'cat'))
            return Val(elem=e, deps=deps, term=T.mk(nm, l.term, r.term), mdeps=md, tags=l.tags & r.tags)
        if nm == 'Mult' and (l.seq is not None or l.elem is not None) != (r.seq is not None or r.elem is not None):
            lst, k = (l, r) if (l.seq is not None or l.elem is not None) else (r, l)
            if k.isconst() and isinstance(k.const(), int) and lst.seq is not None and k.const() * len(lst.seq) <= 16:
                return Val(seq=lst.seq * k.const(), deps=deps, term=T.mk(nm, l.term, r.term), mdeps=md)
            if not k.isconst() or isinstance(k.const(), int):
                e = lst.elem
                for x in lst.seq or ():
                    e = x if e is None else join(e, x, (id(n), 'rep'))
                return Val(elem=e, deps=deps, term=T.mk(nm, l.term, r.term), mdeps=md, tags=frozenset(t for t in k.tags if False))
        a, b = l.term, r.term
        if nm in ('Add', 'Mult', 'BitAnd', 'BitOr', 'BitXor') and b < a:
            a, b = b, a
        seq = cols = None
        if l.seq is not None and r.seq is not None and len(l.seq) == len(r.seq):
            seq = tuple(self._binop(op, x, y, n) for x, y in zip(l.seq, r.seq))
        elif l.seq is not None and r.seq is None and not r.cols:
            seq = tuple(self._binop(op, x, r, n) for x in l.seq)
        elif r.seq is not None and l.seq is None and not l.cols:
            seq = tuple(self._binop(op, l, x, n) for x in r.seq)
        if l.cols and r.cols:
            d = dict(r.cols)
            cols = tuple((k, self._binop(op, v, d[k], n)) for k, v in l.cols if k in d) or None
        elif l.cols and r.seq is not None:
            cols = tuple((k, self._binop(op, v, r.seq[k], n)) for k, v in l.cols if isinstance(k, int) and k < len(r.seq)) or None
            seq = None
        elif r.cols and l.seq is not None:
            cols = tuple((k, self._binop(op, l.seq[k], v, n)) for k, v in r.cols if isinstance(k, int) and k < len(l.seq)) or None
            seq = None
        elif l.cols and not r.cols:
            cols = tuple((k, self._binop(op, v, r, n)) for k, v in l.cols)
        elif r.cols and not l.cols:
            cols = tuple((k, self._binop(op, l, v, n)) for k, v in r.cols)
        return Val(term=T.mk(nm, a, b), deps=deps, mdeps=md, tags=op_tags(nm, l, r), seq=seq, cols=cols)

    def e_BoolOp(self, n, env, fr):
        e = env
        vals = []
        conj = isinstance(n.op, ast.And)
        for v in n.values:
            x = self.eval(v, e, fr)
            vals.append(x)
            t = self.truth(x)
            if t is not None and t != conj:
                und = [y for y in vals[:-1] if self.truth(y) is None]
                if not und:
                    return x.with_(deps=alldeps(*vals))
                if x.tmpls is None or x.tmpls is NONE_T:
                    return C(t).with_(deps=alldeps(*vals))
                break
            e = e.copy()
            if not self.refine(v, conj, e, fr):
                break
        # values that are known not to decide are not the result, except for the last one
        keep = [x for x in vals[:-1] if self.truth(x) is None] + vals[-1:]
        if len(keep) == 1:
            return keep[0].with_(deps=alldeps(*vals))
        res = None
        terms = [x.term for x in vals]
        for x in keep:
            res = x if res is None else join(res, x, (id(n), 'bool'))
        return res.with_(term=T.mk('and' if conj else 'or', *terms), deps=alldeps(*vals))

    def e_Compare(self, n, env, fr):
        l = self.eval(n.left, env, fr)
        res = None
        lc = l
        deps = l.deps
        terms = []
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c, env, fr)
            deps = deps | r.deps
            v = self._compare(op, lc, r, n)
            for p in self.plugins:
                v = p.compare(self, fr, env, op, lc, r, v, n)
            terms.append(v)
            lc = r
        if len(terms) == 1:
            return terms[0].with_(deps=deps)
        return Val(term=T.mk('and', *[t.term for t in terms]), deps=deps, consts=None, tags=terms[0].tags)

    def _compare(self, op, l, r, n):
        nm = type(op).__name__
        if l.consts is not None and r.consts is not None and l.isconst() and r.isconst():
            a, b = l.const(), r.const()
            try:
                res = {'Is': lambda: a is b or (a == b and type(a) is type(b)), 'IsNot': lambda: not (a is b or (a == b and type(a) is type(b))), 'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                       'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'In': lambda: a in b, 'NotIn': lambda: a not in b}[nm]()
                return C(bool(res))
            except Exception:
                pass
        if nm in ('Is', 'IsNot') and r.isconst(None):
            notnone = (l.consts is not None and all(c[1] is not None for c in l.consts)) or (l.consts is None and (l.seq is not None or l.elem is not None or l.fields or any(o[0] in ('inst', 'fn', 'clos', 'cls', 'mod') for o in l.obj)) and not l.roots and getattr(l, 'obj', None) is not None and T.rev[l.term][0] in ('tup', 'dict', 'fn', 'cls', 'mod', 'inst'))
            if not notnone and l.tmpls and l.consts is None:
                notnone = all(any(isinstance(p, str) and p for p in t) for t in l.tmpls)
            if notnone:
                return C(nm == 'IsNot')
        a, b = l.term, r.term
        sym = {'Gt': 'Lt', 'GtE': 'LtE'}
        if nm in sym:
            nm, a, b = sym[nm], b, a
        elif nm in ('Eq', 'NotEq') and b < a:
            a, b = b, a
        return Val(term=T.mk(nm, a, b), deps=l.deps | r.deps, mdeps=l.mdeps | r.mdeps)

    def e_IfExp(self, n, env, fr):
        c = self.eval(n.test, env, fr)
        for p in self.plugins:
            p.branch(self, fr, env, c, n)
        t = self.truth(c)
        a = b = None
        ctl = self.ctl_deps(c)
        if t is not False:
            e = env.copy()
            if self.refine(n.test, True, e, fr):
                fr.guards.append((c, True, n))
                a = self.eval(n.body, e, fr)
                fr.guards.pop()
        if t is not True:
            e = env.copy()
            if self.refine(n.test, False, e, fr):
                fr.guards.append((c, False, n))
                b = self.eval(n.orelse, e, fr)
                fr.guards.pop()
        if a is None and b is None:
            return unknown()
        v = join(a, b, (id(n), 'ife')) if a is not None and b is not None else (a if a is not None else b)
        if a is not None and b is not None and a.term != b.term:
            v = v.with_(term=T.mk('ite', c.term, a.term, b.term))
        return v.with_(deps=v.deps | ctl) if ctl else v

    def e_Lambda(self, n, env, fr):
        f = getattr(n, '_fn', None)
        if f is None:
            f = n._fn = Fn(n._module, n, fr.fn.qual + '.<lambda>', parent=fr.fn if isinstance(fr.fn, Fn) else None)
            f.nested, f.local_imports = {}, {}
        fr.lastenv = env
        return Val(obj=frozenset([('clos', f, fr)]), term=T.mk('lambda', id(n)))

    def e_JoinedStr(self, n, env, fr):
        outs = {()}
        deps = EMPTY
        for v in n.values:
            if isinstance(v, ast.Constant):
                outs = {o + (v.value,) for o in outs}
            else:
                x = self.eval(v.value, env, fr)
                deps |= x.deps
                alts = x.tmpls if x.tmpls is not None else [(x,)]
                outs = {o + tuple(a) for o in outs for a in alts}
                if len(outs) > MAXSET:
                    return mkstr(None, deps, T.mk('fstr', id(n)))
        return mkstr({norm_tmpl(o) for o in outs}, deps, None)

    def e_FormattedValue(self, n, env, fr):
        return self.eval(n.value, env, fr)

    def e_NamedExpr(self, n, env, fr):
        v = self.eval(n.value, env, fr)
        self.setvar(n.target.id, v, env, fr, n)
        return v

    def e_Yield(self, n, env, fr):
        v = self.eval(n.value, env, fr) if n.value is not None else C(None)
        fr.yields.append(v)
        return unknown()

    def e_YieldFrom(self, n, env, fr):
        v = self.eval(n.value, env, fr)
        if v.elem is not None:
            fr.yields.append(v.elem)
        return unknown()

    def e_Await(self, n, env, fr):
        return self.eval(n.value, env, fr)

    def comp(self, n, env, fr, what):
        """Comprehension: one abstract element (or the exact elements when the iterable is a short display)."""
        e = env.copy()
        gens = n.generators
        deps = EMPTY
        # exact unrolling for a single generator over a short display without conditions
        g0 = gens[0]
        it0 = self.eval(g0.iter, e, fr)
        filtered = any(g.ifs for g in gens)
        if len(gens) == 1 and it0.seq is not None and it0.elem is None and len(it0.seq) <= 8 and not g0.ifs and what != 'dict':
            out = []
            for x in it0.seq:
                e2 = e.copy()
                for p in self.plugins:
                    x = p.iterate(self, fr, e2, it0, x, n)
                self.bind(g0.target, x, e2, fr, n)
                out.append(self.eval(n.elt, e2, fr))
            return Val(seq=tuple(out), deps=alldeps(*out) | it0.deps, term=T.mk('tup', *[o.term for o in out]), tags=EMPTY), it0, filtered
        first = True
        for g in gens:
            itv = it0 if first else self.eval(g.iter, e, fr)
            first = False
            deps |= itv.deps
            el = self.elem_of(itv, e, fr, n)
            self.bind(g.target, el, e, fr, n)
            for c in g.ifs:
                cv = self.eval(c, e, fr)
                deps |= cv.deps
                fr.guards.append((cv, True, c))
                self.refine(c, True, e, fr)
        if what == 'dict':
            kv = self.eval(n.key, e, fr)
            v = self.eval(n.value, e, fr)
            res = Val(elem=v, deps=deps | v.deps, obj=frozenset([('extinst', 'builtins.dict')]), term=T.mk('comp', id(n), it0.term))
        else:
            v = self.eval(n.elt, e, fr)
            res = Val(elem=v, deps=deps | v.deps, mdeps=it0.mdeps | v.mdeps, term=T.mk('comp', T.mk('node', ast.dump(n.elt)) if False else id(n), it0.term))
        for g in gens:
            for c in g.ifs:
                fr.guards.pop()
        return res, it0, filtered or len(gens) > 1

    def e_ListComp(self, n, env, fr):
        v, it0, filtered = self.comp(n, env, fr, 'list')
        for p in self.plugins:
            if hasattr(p, 'comprehension'):
                v = p.comprehension(self, fr, env, it0, v, filtered, n)
        return v

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env, fr):
        v, it0, filtered = self.comp(n, env, fr, 'list')
        el = v.elem
        for x in v.seq or ():
            el = x if el is None else join(el, x, (id(n), 'sc'))
        return v.with_(seq=None, elem=el, obj=frozenset([('extinst', 'builtins.set')]))

    def e_DictComp(self, n, env, fr):
        return self.comp(n, env, fr, 'dict')[0]

    # -- calls ------------------------------------------------------------
    def e_Call(self, n, env, fr):
        self.calls_seen += 1
        f = self.eval(n.func, env, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env, fr)
                if v.seq is not None and v.elem is None:
                    args.extend(v.seq)
                else:
                    kwargs['*'] = v
            else:
                args.append(self.eval(a, env, fr))
        for k in n.keywords:
            v = self.eval(k.value, env, fr)
            if k.arg is None:
                if v.fields:
                    for a, x in v.fields:
                        if isinstance(a, str):
                            kwargs.setdefault(a, x)
                    if v.elem is not None:
                        kwargs['**'] = v
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call_value(f, args, kwargs, n, env, fr)

    def call_value(self, f, args, kwargs, n, env, fr):
        res = None
        descs = sorted(f.obj, key=repr)
        if not descs:
            descs = [('unknown',)]
        # method on a value of unknown type
        for o in descs:
            v = self.call_one(o, f, args, kwargs, n, env, fr)
            res = v if res is None else join(res, v, (id(n), 'call'))
        return res

    def call_one(self, o, f, args, kwargs, n, env, fr):
        callee = o
        for p in self.plugins:
            r = p.precall(self, fr, env, callee, args, kwargs, n)
            if r is not None:
                return r
        v = None
        if o[0] == 'fn':
            v = self.call_fn(self.prog.fns[o[1]], args, kwargs, n, env, fr)
        elif o[0] == 'bound':
            v = self.call_fn(self.prog.fns[o[1]], [o[2]] + args, kwargs, n, env, fr)
        elif o[0] == 'clos':
            v = self.call_fn(o[1], args, kwargs, n, env, fr, closure=o[2])
        elif o[0] == 'cls':
            v = self.construct(self.prog.classes[o[1]], args, kwargs, n, env, fr)
        elif o[0] == 'partial':
            v = self.call_value(o[1], list(o[2]) + args, dict(list(o[3]) + list(kwargs.items())), n, env, fr)
        elif o[0] == 'ext':
            v = self.call_ext(o[1], f, args, kwargs, n, env, fr)
        else:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = self.call_method(n.func.attr, args, kwargs, n, env, fr)
            else:
                v = Val(term=T.mk('u', id(n), fr.uid), deps=alldeps(f, *(args + list(kwargs.values()))))
        for p in self.plugins:
            v = p.call(self, fr, env, callee, args, kwargs, v, n)
        return v

    def can_inline(self, fn, fr):
        if fn.qual in self.opaque:
            return False
        if self.inline_filter is not None and not self.inline_filter(fn):
            return False
        if fr.depth + 1 > self.maxdepth:
            return False
        if sum(1 for f in self.stack if f.fn is fn) >= 1:
            return False
        return True

    def call_fn(self, fn, args, kwargs, n, env, fr, closure=None):
        if fn.qual in self.intrinsics:
            r = self.intrinsics[fn.qual](self, fn, args, kwargs, n, env, fr)
            if r is not None:
                return r
        if not self.can_inline(fn, fr):
            return Val(term=T.mk('call', fn.qual, *[a.term for a in args] + [x for k in sorted(kwargs) for x in (k, kwargs[k].term)]), deps=alldeps(*(args + list(kwargs.values()))))
        return self.inline(fn, args, kwargs, env, fr, n, closure)

    def bind_args(self, fn, args, kwargs, env, fr, n):
        vals = {}
        pos_params = fn.params
        for p, a in zip(pos_params, args):
            vals[p] = a
        extra = args[len(pos_params):]
        kw = {k: v for k, v in kwargs.items() if k not in ('*', '**')}
        rest = {}
        for k, v in kw.items():
            if k in fn.all_params:
                vals[k] = v
            else:
                rest[k] = v
        for p in fn.all_params:
            if p not in vals:
                if p in fn.defaults and '**' not in kwargs and '*' not in kwargs:
                    vals[p] = self.eval_quiet(fn.defaults[p], Env(), Frame(ModFn(fn.module), 0))
                elif '*' in kwargs and kwargs['*'].elem is not None:
                    vals[p] = kwargs['*'].elem
                else:
                    vals[p] = unknown(T.mk('arg', fn.qual, p, id(n)))
                    if '**' in kwargs:
                        vals[p] = vals[p].with_(deps=kwargs['**'].deps)
        if fn.vararg:
            vals[fn.vararg] = Val(seq=tuple(extra), deps=alldeps(*extra), term=T.mk('tup', *[e.term for e in extra])) if '*' not in kwargs else unknown(deps=kwargs['*'].deps)
        if fn.kwarg:
            vals[fn.kwarg] = Val(fields=tuple(sorted(rest.items())) or None, deps=alldeps(*rest.values()), term=T.mk('kw', *[x for k, v in sorted(rest.items()) for x in (k, v.term)]))
            if '**' in kwargs:
                vals[fn.kwarg] = kwargs['**']
        return vals

    def inline(self, fn, args, kwargs, env, fr, n, closure=None):
        nf = Frame(fn, fr.depth + 1, caller=fr, callnode=n)
        nf.uid = (fr.uid, id(n)) if fr.depth < 3 else self.newuid()
        nf.closure = closure
        vals = self.bind_args(fn, args, kwargs, env, fr, n)
        e = Env(vals, env.heap, env.pc, {})
        for p in self.plugins:
            if hasattr(p, 'enter'):
                p.enter(self, nf, e, args, kwargs, n)
        val, out = self.run_body(nf, e)
        if out is not None:
            env.heap = out.heap
            env.pc = env.pc | (out.pc - e.pc) if False else env.pc
            for p in self.plugins:
                if hasattr(p, 'leave'):
                    p.leave(self, nf, out, env, n)
        if val is None:
            # the callee never returns normally
            val = unknown(T.mk('bottom', id(n)))
        return val

    def construct(self, cls, args, kwargs, n, env, fr):
        iid = ('at', cls.qual, fr.fn.qual if fr.fn else '', getattr(n, 'lineno', 0) if False else id(n))
        v = Val(obj=frozenset([('inst', cls.qual, iid)]), term=T.mk('inst', cls.qual, id(n)), deps=alldeps(*(args + list(kwargs.values()))))
        init = self.prog.find_method(cls, '__init__')
        if init and self.can_inline(init, fr):
            self.inline(init, [v] + args, kwargs, env, fr, n)
        return v

    # external calls
    def call_ext(self, d, f, args, kwargs, n, env, fr):
        allv = args + list(kwargs.values())
        deps = alldeps(*allv) | f.deps
        md = EMPTY
        for a in allv:
            md = md | a.mdeps
        term = T.mk('call', d, *[a.term for a in args] + [x for k in sorted(kwargs) for x in (k, kwargs[k].term)])
        short = d.split('.')[-1]
        a0 = args[0] if args else None
        if d.startswith('builtins.'):
            v = self.call_builtin(short, args, kwargs, n, env, fr, deps, md, term)
            if v is not None:
                return v
        if '().' in d:
            return Val(term=T.mk('u', id(n), fr.uid if isinstance(fr.uid, int) else str(fr.uid)), deps=deps, mdeps=md, obj=frozenset([('extres', d)]))
        if d == 'functools.partial' and args:
            return Val(obj=frozenset([('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))]), term=term, deps=deps)
        if d in ('copy.copy', 'copy.deepcopy') and a0 is not None:
            return a0.with_(roots=EMPTY if d.endswith('deepcopy') or True else a0.roots, elem=a0.elem, term=T.mk('copy', a0.term))
        if d.startswith('os.path.'):
            if short == 'splitext' and a0 is not None:
                st = Val(term=T.mk('stem', a0.term), deps=a0.deps, tmpls=None, roots=EMPTY)
                return Val(seq=(st, Val(term=T.mk('ext_of', a0.term), deps=a0.deps)), term=term, deps=a0.deps)
            if short == 'join':
                out = None
                if all(True for a in args):
                    alts = [()]
                    for i, a in enumerate(args):
                        ts = a.tmpls if a.tmpls is not None else [(a,)]
                        alts = [x + (('/',) if i else ()) + tuple(t) for x in alts for t in ts]
                        if len(alts) > MAXSET:
                            alts = None
                            break
                    if alts is not None:
                        out = {norm_tmpl(t) for t in alts}
                return mkstr(out, deps, term)
            return Val(term=term, deps=deps)
        if d.startswith('numpy.') or d.startswith('scipy.') or d.startswith('math.'):
            v = self.call_numpy(d, short, args, kwargs, n, env, fr, deps, md, term)
            if v is not None:
                return v
        # effects possible: opaque result (unique per site and context)
        inst = EMPTY
        return Val(term=term if self.is_pure(d) else T.mk('u', d, id(n), str(fr.uid)), deps=deps, mdeps=md, obj=frozenset([('extinst', d)]))

    PURE_PREFIX = ('numpy.', 'math.', 'scipy.', 'os.path.', 'builtins.')

    def is_pure(self, d):
        return d.startswith(self.PURE_PREFIX) and not d.startswith('numpy.random.')

    def call_builtin(self, name, args, kwargs, n, env, fr, deps, md, term):
        a0 = args[0] if args else None
        if name == 'len' and a0 is not None:
            if a0.seq is not None and a0.elem is None and T.rev[a0.term][0] in ('tup',):
                return C(len(a0.seq))
            for o in a0.obj:
                if o[0] == 'inst':
                    return Val(term=T.mk('len', a0.term), deps=deps)
            return Val(term=T.mk('len', a0.term), deps=a0.deps)
        if name == 'range':
            if len(args) == 1 and a0.isconst() and isinstance(a0.const(), int) and 0 <= a0.const() <= 8:
                return Val(seq=tuple(C(i) for i in range(a0.const())), term=term, deps=deps)
            return Val(elem=Val(term=T.mk('elem', term, id(n)), deps=deps), term=term, deps=deps)
        if name == 'enumerate' and a0 is not None:
            if a0.seq is not None and a0.elem is None and len(a0.seq) <= 8 and len(args) == 1 and not kwargs:
                return Val(seq=tuple(Val(seq=(C(i), x), term=T.mk('tup', C(i).term, x.term), deps=x.deps) for i, x in enumerate(a0.seq)), term=term, deps=deps)
            e = self.elem_of(a0, env, fr, n)
            i = Val(term=T.mk('pos', a0.term, id(n)), deps=a0.deps)
            return Val(elem=Val(seq=(i, e), term=T.mk('tup', i.term, e.term), deps=e.deps), term=term, deps=deps, tags=a0.tags)
        if name == 'zip':
            if args and all(a.seq is not None and a.elem is None for a in args):
                m = min(len(a.seq) for a in args)
                if m <= 8:
                    return Val(seq=tuple(Val(seq=tuple(a.seq[i] for a in args), term=T.mk('tup', *[a.seq[i].term for a in args]), deps=alldeps(*[a.seq[i] for a in args])) for i in range(m)), term=term, deps=deps)
            es = tuple(self.elem_of(a, env, fr, n) for a in args)
            return Val(elem=Val(seq=es, term=T.mk('tup', *[e.term for e in es]), deps=alldeps(*es)), term=term, deps=deps)
        if name in ('list', 'tuple', 'sorted', 'reversed', 'set', 'frozenset', 'iter'):
            if a0 is None:
                return Val(seq=(), term=T.mk('tup'), deps=EMPTY) if name in ('list', 'tuple') else Val(elem=None, obj=frozenset([('extinst', 'builtins.set')]), term=T.mk('u', id(n)))
            if name in ('list', 'tuple'):
                return a0.with_(roots=EMPTY, term=T.mk('copy', a0.term), elem=a0.elem if (a0.elem is not None or a0.seq is not None) else self.elem_of(a0, env, fr, n))
            el = self.elem_of(a0, env, fr, n)
            v = Val(elem=el, term=term, deps=deps, mdeps=md, tags=EMPTY)
            if name in ('set', 'frozenset'):
                v = v.with_(obj=frozenset([('extinst', 'builtins.set')]))
            return v
        if name == 'dict':
            if a0 is None:
                return Val(fields=tuple(sorted((k, v) for k, v in kwargs.items() if k not in ('*', '**'))) or None, term=T.mk('u', id(n)), deps=deps, obj=frozenset([('extinst', 'builtins.dict')]))
            return Val(fields=a0.fields, elem=a0.elem, term=T.mk('copy', a0.term), deps=deps, obj=frozenset([('extinst', 'builtins.dict')]))
        if name == 'isinstance':
            return Val(term=term, deps=deps)
        if name in ('bool',):
            t = self.truth(a0) if a0 is not None else None
            return C(t) if t is not None else Val(term=T.mk('bool', a0.term if a0 else -1), deps=deps)
        if name in ('int', 'float', 'abs', 'round'):
            if a0 is not None:
                if a0.isconst() and isinstance(a0.const(), (int, float)) and len(args) == 1:
                    try:
                        return C({'int': int, 'float': float, 'abs': abs, 'round': round}[name](a0.const()))
                    except Exception:
                        pass
                return Val(term=T.mk(name, a0.term) if len(args) == 1 else term, deps=deps, mdeps=md, tags=a0.tags)
        if name == 'str':
            if a0 is not None:
                if a0.tmpls is not None:
                    return a0
                return mkstr({(a0,)}, deps, term)
            return C('')
        if name in ('min', 'max', 'sum'):
            vs = args
            if len(args) == 1 and a0 is not None:
                e = self.elem_of(a0, env, fr, n)
                return Val(term=term, deps=deps, mdeps=md, tags=e.tags if (a0.seq is not None or a0.elem is not None) else a0.tags)
            t = vs[0]
            for x in vs[1:]:
                t = join(t, x)
            return Val(term=term, deps=deps, mdeps=md, tags=t.tags)
        if name == 'getattr' and len(args) >= 2:
            try:
                an = args[1].const()
                fake = ast.Attribute(value=n.args[0], attr=an, ctx=ast.Load())
                ast.copy_location(fake, n)
                fake._module = n._module
                return self.e_Attribute(fake, env, fr)
            except KeyError:
                return Val(term=term, deps=deps)
        if name == 'setattr' and len(args) == 3:
            try:
                an = args[1].const()
                fake = ast.Attribute(value=n.args[0], attr=an, ctx=ast.Store())
                ast.copy_location(fake, n)
                fake._module = n._module
                self.attr_store(a0, fake, args[2], env, fr, n)
            except KeyError:
                pass
            return C(None)
        if name == 'super':
            f = fr.fn
            c = None
            while isinstance(f, Fn):
                if f.cls:
                    c = f.cls
                    break
                f = f.parent
            selfv = env.vars.get(fr.fn.params[0]) if isinstance(fr.fn, Fn) and fr.fn.params else None
            if c and selfv is not None:
                bases = self.prog.mro(c)[1:]
                if bases:
                    inst = [o for o in selfv.obj if o[0] == 'inst']
                    return Val(obj=frozenset([('inst', bases[0].qual, inst[0][2] if inst else 'self')]), term=selfv.term, roots=selfv.roots, deps=selfv.deps)
            return Val(term=term, deps=deps)
        if name == 'map' and len(args) >= 2:
            es = [self.elem_of(a, env, fr, n) for a in args[1:]]
            r = self.call_value(args[0], es, {}, n, env, fr)
            return Val(elem=r, term=term, deps=deps | r.deps)
        if name == 'filter' and len(args) == 2:
            return Val(elem=self.elem_of(args[1], env, fr, n), term=term, deps=deps)
        if name == 'next' and a0 is not None:
            e = self.elem_of(a0, env, fr, n)
            return e.with_(term=T.mk('u', id(n), str(fr.uid)))
        if name in BUILTIN_PURE and name not in ('open', 'exec', 'eval', 'input', 'print'):
            return Val(term=term, deps=deps, mdeps=md)
        return None

    STACK0 = {'array', 'asarray', 'vstack', 'row_stack', 'stack', 'array_split'}

    def call_numpy(self, d, short, args, kwargs, n, env, fr, deps, md, term):
        a0 = args[0] if args else None
        for k in ('a', 'x', 'arr', 'object', 'sample'):
            if a0 is None and k in kwargs:
                a0 = kwargs[k]
        if d.startswith('numpy.random.'):
            return Val(term=T.mk('u', d, id(n), str(fr.uid)), deps=deps | frozenset([('rng',)]), mdeps=md, elem=a0.elem if (a0 is not None and short in ('choice', 'permutation')) else None, tags=a0.tags if a0 is not None and short in ('choice', 'permutation') else EMPTY)
        if short in ('column_stack', 'dstack') and a0 is not None:
            if a0.seq is not None and a0.elem is None:
                return Val(cols=tuple(enumerate(a0.seq)), term=T.mk('cstack', a0.term), deps=deps, mdeps=md)
            return Val(term=term, deps=deps, mdeps=md, cols=tuple((i, x) for i, x in enumerate(a0.seq or ())) or None)
        if short in ('array', 'asarray', 'vstack', 'row_stack', 'stack', 'asanyarray', 'ascontiguousarray') and a0 is not None:
            ax = kwargs.get('axis')
            if short == 'stack' and ax is not None and not ax.isconst(0):
                if a0.seq is not None:
                    return Val(cols=tuple(enumerate(a0.seq)), term=term, deps=deps, mdeps=md)
                return Val(term=term, deps=deps, mdeps=md)
            # np.array copies, np.asarray may alias
            al = short in ('asarray', 'asanyarray', 'ascontiguousarray') or (short == 'array' and 'copy' in kwargs and kwargs['copy'].isconst(False))
            return a0.with_(roots=a0.roots if al else EMPTY, term=T.mk('arr', a0.term), deps=deps, mdeps=md, consts=None, obj=EMPTY)
        if short in ('zeros_like', 'empty_like', 'ones_like', 'full_like', 'zeros', 'empty', 'ones', 'full', 'arange', 'linspace', 'eye', 'identity'):
            fv = kwargs.get('fill_value') or (args[1] if short in ('full', 'full_like') and len(args) > 1 else None)
            t = T.mk('new', short, id(n), *[a.term for a in args])
            return Val(term=t, deps=deps, mdeps=md, tags=EMPTY if short not in ('linspace', 'arange') else EMPTY)
        if short in ('where', 'nonzero', 'argwhere', 'argsort', 'searchsorted', 'argmax', 'argmin', 'digitize', 'in1d', 'isin', 'isnan', 'isfinite', 'count_nonzero', 'flatnonzero', 'isclose', 'allclose', 'array_equal', 'logical_and', 'logical_or', 'logical_not', 'any', 'all', 'greater', 'less', 'equal', 'bincount', 'diff', 'shape', 'ndim', 'size'):
            if short == 'where' and len(args) == 3:
                j = join(args[1], args[2])
                return Val(term=term, deps=deps, mdeps=md, tags=join_tags(args[1].tags, args[2].tags, _trivial(args[1]), _trivial(args[2])))
            if short == 'diff':
                return Val(term=term, deps=deps, mdeps=md, tags=a0.tags if a0 is not None else EMPTY)
            if short in ('where', 'nonzero'):
                e = Val(term=T.mk('idx', term), deps=deps)
                return Val(elem=e, seq=None, term=term, deps=deps, mdeps=md)
            nt = {'logical_and': 'BitAnd', 'logical_or': 'BitOr'}.get(short)
            if nt and len(args) == 2:
                a, b = sorted([args[0].term, args[1].term])
                return Val(term=T.mk(nt, a, b), deps=deps, mdeps=md)
            if short == 'logical_not' and a0 is not None:
                return Val(term=T.mk('Invert', a0.term), deps=deps, mdeps=md)
            return Val(term=term, deps=deps, mdeps=md)
        if short in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'subtract', 'add', 'multiply', 'divide', 'true_divide', 'left_shift', 'right_shift') and len(args) >= 2:
            op = {'bitwise_and': ast.BitAnd, 'bitwise_or': ast.BitOr, 'bitwise_xor': ast.BitXor, 'subtract': ast.Sub, 'add': ast.Add, 'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div, 'left_shift': ast.LShift, 'right_shift': ast.RShift}[short]()
            v = self.do_binop(op, args[0], args[1], env, fr, n)
            if 'out' in kwargs:
                pass
            return v
        if short in ('unique', 'cumsum', 'nan_to_num', 'absolute', 'abs', 'fabs', 'sqrt', 'square', 'rint', 'round', 'around', 'floor', 'ceil', 'copy', 'sort', 'mean', 'average', 'median', 'std', 'nanmean', 'nanmedian', 'nanstd', 'sum', 'nansum', 'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'percentile', 'nanpercentile', 'repeat', 'tile', 'ravel', 'squeeze', 'atleast_1d', 'clip', 'negative', 'masked_invalid', 'masked_equal', 'masked_where', 'filled', 'roll', 'compress', 'take', 'masked_array', 'flip', 'float64', 'float32', 'int64', 'ascontiguousarray', 'asfortranarray', 'abs'):
            al = d in VIEW_FUNCS
            if a0 is None:
                return Val(term=term, deps=deps, mdeps=md)
            src = a0 if short != 'masked_where' or len(args) < 2 else args[1]
            keep = short in ('unique', 'nan_to_num', 'absolute', 'abs', 'fabs', 'sqrt', 'square', 'rint', 'round', 'around', 'floor', 'ceil', 'copy', 'sort', 'repeat', 'clip', 'negative', 'masked_invalid', 'masked_equal', 'atleast_1d', 'float64', 'ascontiguousarray')
            if short == 'unique' and any(k.startswith('return_') for k in kwargs):
                m = 1 + sum(1 for k in kwargs if k.startswith('return_') and not kwargs[k].isconst(False))
                seq = [a0.with_(roots=EMPTY, term=T.mk('unique', a0.term), seq=None, elem=None, deps=deps)] + [Val(term=T.mk('item', term, ck(i)), deps=deps, mdeps=md) for i in range(1, m)]
                return Val(seq=tuple(seq), term=term, deps=deps, mdeps=md)
            tags = src.tags
            if short in ('sum', 'mean', 'average', 'median', 'max', 'min', 'amax', 'amin') and src.seq is not None and not src.tags:
                e = None
                for x in src.seq:
                    e = x if e is None else join(e, x)
                tags = e.tags if e is not None else EMPTY
            redcols = None
            ax = kwargs.get('axis')
            if short in ('mean', 'median', 'sum', 'nanmean', 'nanmedian', 'average', 'std', 'nanstd', 'max', 'min', 'nanmax', 'nanmin') and ax is not None and ax.isconst(0) and src.cols:
                ks = dict(src.cols)
                if set(ks) == set(range(len(ks))):
                    return Val(seq=tuple(ks[i].with_(term=T.mk('red', short, ks[i].term)) for i in range(len(ks))), term=term, deps=deps, mdeps=md)
            return Val(term=term, deps=deps, mdeps=md, tags=tags, roots=a0.roots if al else EMPTY, cols=src.cols if keep else None, seq=src.seq if keep and short != 'unique' else None, elem=src.elem if keep else None)
        if short in ('reshape', 'transpose', 'ma.getdata', 'getdata', 'expand_dims', 'swapaxes', 'broadcast_to') and a0 is not None:
            return Val(term=term, deps=deps, mdeps=md, tags=a0.tags, roots=a0.roots)
        if short in ('concatenate', 'hstack', 'append', 'r_') and a0 is not None:
            srcs = list(a0.seq or ()) if short != 'append' else args[:2]
            tg = None
            for x in srcs:
                tg = x.tags if tg is None else tg & x.tags
            return Val(term=term, deps=deps, mdeps=md, tags=tg or EMPTY)
        return Val(term=term, deps=deps, mdeps=md, obj=EMPTY)

    def call_method(self, name, args, kwargs, n, env, fr):
        """Method call on a value whose type is not a class of the package."""
        b = self.eval_quiet(n.func.value, env, fr)
        allv = args + list(kwargs.values())
        deps = b.deps | alldeps(*allv)
        md = b.mdeps
        for a in allv:
            md = md | a.mdeps
        term = T.mk('meth', name, b.term, *[a.term for a in args] + [x for k in sorted(kwargs) for x in (k, kwargs[k].term)])
        a0 = args[0] if args else None
        if name == 'format' and b.tmpls is not None:
            out = set()
            for t in b.tmpls:
                x = fmt_format(t, args, kwargs)
                if x is None:
                    out = None
                    break
                out |= x
            return mkstr(out, deps, term)
        if name in ('replace', 'lower', 'upper', 'strip', 'title', 'rstrip', 'lstrip', 'split', 'join', 'decode', 'encode', 'startswith', 'endswith', 'isdigit') and (b.tmpls is not None or name in ('startswith', 'endswith')):
            if b.isconst() and all(a.isconst() for a in args) and not kwargs and isinstance(b.const(), str) and name in ('lower', 'upper', 'strip', 'title', 'replace', 'rstrip', 'lstrip', 'startswith', 'endswith'):
                try:
                    return C(getattr(b.const(), name)(*[a.const() for a in args]))
                except Exception:
                    pass
            return Val(term=term, deps=deps)
        if name in MUT_METHODS:
            for p in self.plugins:
                p.mutate(self, fr, env, b, name, n, tuple(args))
            if name in ('append', 'add', 'insert', 'extend', 'update') and (a0 is not None or kwargs):
                nv = b
                x = args[-1] if name == 'insert' else a0
                if name == 'append' and b.seq is not None and b.elem is None and len(b.seq) < 8 and not fr.loops and T.rev[b.term][0] in ('tup', 'app'):
                    nv = b.with_(seq=b.seq + (x,), deps=b.deps | x.deps, term=T.mk('app', b.term, x.term))
                elif name == 'update':
                    f = dict(b.fields or ())
                    for k, v in (a0.fields if a0 is not None and a0.fields else ()):
                        f[k] = v
                    for k, v in kwargs.items():
                        f[k] = v
                    nv = b.with_(fields=tuple(f.items()) or None, deps=deps)
                else:
                    e = b.elem
                    for y in b.seq or ():
                        e = y if e is None else join(e, y, (id(n), 'app'))
                    if name == 'extend':
                        y = self.elem_of(x, env, fr, n)
                    else:
                        y = x
                    e = y if e is None else join(e, y, (id(n), 'app'))
                    nv = b.with_(seq=None, elem=e, deps=b.deps | y.deps, term=T.mk('app', b.term, x.term))
                self.write_back(n.func.value, nv, env, fr)
                return C(None)
            if name == 'pop':
                e = b.elem
                for y in b.seq or ():
                    e = y if e is None else join(e, y, (id(n), 'pop'))
                f = None
                if a0 is not None and a0.isconst() and b.fields:
                    f = b.field(a0.const())
                r = f if f is not None else (e.with_(deps=e.deps | deps) if e is not None else Val(term=T.mk('u', id(n)), deps=deps))
                return r
            nv = b.with_(term=T.mk('mut', b.term, id(n)), deps=deps, seq=None, elem=self.elem_of(b, env, fr, n) if (b.seq is not None or b.elem is not None) else None)
            self.write_back(n.func.value, nv, env, fr)
            return C(None)
        if name in ('copy', 'astype', 'tolist', 'round', 'clip', 'compressed', 'filled', 'flatten', 'repeat', 'cumsum'):
            return b.with_(roots=EMPTY, deps=deps, term=T.mk('meth', name, b.term, *[a.term for a in args]) if name not in ('copy',) else T.mk('copy', b.term), obj=b.obj if name == 'copy' else EMPTY)
        if name in VIEW_METHODS:
            return Val(term=term, deps=deps, mdeps=md, roots=b.roots, tags=b.tags)
        if name in ('max', 'min', 'mean', 'sum', 'std', 'all', 'any', 'cumsum', 'dot', 'argmax', 'argsort', 'nonzero', 'item', 'get', 'keys', 'values', 'items', 'index', 'count', 'is_alive'):
            if name == 'get' and b.fields and a0 is not None and a0.isconst():
                f = b.field(a0.const())
                if f is not None:
                    return f
            if name == 'items' and (b.fields or b.elem is not None):
                if b.fields and b.elem is None and len(b.fields) <= 12:
                    return Val(seq=tuple(Val(seq=(C(k), v), term=T.mk('tup', C(k).term, v.term), deps=v.deps) for k, v in b.fields), term=term, deps=deps)
                e = b.elem
                for k, v in b.fields or ():
                    e = v if e is None else join(e, v, (id(n), 'it'))
                return Val(elem=Val(seq=(unknown(deps=deps), e), term=T.mk('u', id(n)), deps=deps), term=term, deps=deps)
            if name == 'values' and (b.fields or b.elem is not None):
                e = b.elem
                for k, v in b.fields or ():
                    e = v if e is None else join(e, v, (id(n), 'it'))
                return Val(elem=e, term=term, deps=deps)
            if name == 'keys' and b.fields and b.elem is None:
                return Val(seq=tuple(C(k) for k, v in b.fields), term=term, deps=deps)
            keeptags = name in ('max', 'min', 'mean', 'sum', 'std', 'item', 'cumsum')
            return Val(term=term, deps=deps, mdeps=md, tags=b.tags if keeptags else EMPTY)
        # unknown method: opaque result
        return Val(term=T.mk('u', name, id(n), str(fr.uid)), deps=deps, mdeps=md, roots=EMPTY)


class ModFn(object):
    """Stand-in for module level code."""
    def __init__(self, module):
        self.module, self.qual, self.cls, self.parent, self.node, self.params = module, module.name, None, None, module.tree, []
        self.nested = {}
        self.is_generator = False


def fr_pc(env):
    return EMPTY


def op_tags(nm, l, r):
    """Tags of an arithmetic result: those both sides agree on, or those of the only tagged side."""
    if l.tags == r.tags:
        return l.tags
    dl, dr = dict(l.tags), dict(r.tags)
    out = []
    for k in set(dl) | set(dr):
        if k in dl and k in dr:
            if dl[k] == dr[k]:
                out.append((k, dl[k]))
        elif k in dl:
            out.append((k, dl[k]))
        else:
            out.append((k, dr[k]))
    return frozenset(out)


def norm_tmpl(t):
    out = []
    for p in t:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif isinstance(p, str) and p == '':
            continue
        else:
            out.append(p)
    return tuple(out)


def mkstr(tmpls, deps, term):
    if tmpls is None:
        return Val(deps=deps, term=term)
    tm = frozenset(norm_tmpl(t) for t in tmpls)
    consts = None
    if all(all(isinstance(p, str) for p in t) for t in tm):
        consts = frozenset(ck(''.join(t)) for t in tm)
        if len(tm) == 1:
            term = T.mk('const', next(iter(consts)))
            tm = frozenset([(''.join(next(iter(tm))),)])
    return Val(tmpls=tm, deps=deps, consts=consts, term=term)


import re
_PCT = re.compile(r'%(?:\((\w+)\))?[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])')


def fmt_percent(t, args):
    """Alternatives of template t %% args."""
    if not all(isinstance(p, str) for p in t):
        return None
    s = ''.join(t)
    outs = [()]
    k = last = 0
    for m in _PCT.finditer(s):
        outs = [o + (s[last:m.start()],) for o in outs]
        last = m.end()
        if m.group(2) == '%':
            outs = [o + ('%',) for o in outs]
            continue
        a = args[k] if k < len(args) else unknown()
        k += 1
        outs = [o + x for o in outs for x in piece_alts(a)]
        if len(outs) > MAXSET:
            return None
    outs = [o + (s[last:],) for o in outs]
    return {norm_tmpl(o) for o in outs}


def piece_alts(a):
    if a.tmpls is not None:
        return [tuple(t) for t in a.tmpls]
    if a.consts is not None and len(a.consts) <= 4:
        return [(str(c[1]),) for c in a.consts]
    return [(a,)]


def fmt_format(t, args, kwargs):
    if not all(isinstance(p, str) for p in t):
        return None
    s = ''.join(t)
    import string
    outs = [()]
    auto = 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(s):
            outs = [o + (lit,) for o in outs]
            if fld is None:
                continue
            if fld == '':
                a = args[auto] if auto < len(args) else unknown()
                auto += 1
            elif fld.isdigit():
                a = args[int(fld)] if int(fld) < len(args) else unknown()
            else:
                a = kwargs.get(fld.split('.')[0].split('[')[0], unknown())
            outs = [o + x for o in outs for x in piece_alts(a)]
            if len(outs) > MAXSET:
                return None
    except ValueError:
        return None
    return {norm_tmpl(o) for o in outs}


def tmpl_shape(t, hole='%'):
    return ''.join(p if isinstance(p, str) else hole for p in t)
