"""Small symbolic evaluator for code that builds and takes apart dictionaries and objects.

Loops run once over a generic element, both branches of a condition are followed with the condition recorded on every
effect, helpers of the same class and module are entered.  Nothing of the code under analysis is executed.

Values: ('const', v) ('param', n) ('attr', base, name) ('elem', coll) ('key', coll) ('val', coll) ('call', f, args, kws)
        ('phi', (v, ..)) ('cond', test, a, b) ('op', text, args) and Sym (a dictionary, list or tuple under construction).
"""
import ast

from .loader import dotted


class Sym(object):
    """Dictionary: entries (key value, value, conditions); open if it stands for unknown content with an origin."""
    n = 0

    def __init__(self, kind='dict', origin=None):
        self.kind, self.origin, self.entries, self.removed = kind, origin, [], set()
        Sym.n += 1
        self.id = Sym.n

    def copy(self):
        s = Sym(self.kind, self.origin)
        s.entries, s.removed = list(self.entries), set(self.removed)
        return s

    def __repr__(self):
        return '%s%s%s' % (self.kind, '@%r' % (self.origin,) if self.origin else '', {repr(k): v for k, v, c in self.entries})


def const(v):
    return ('const', v)


def phi(*vs):
    out = []
    for v in vs:
        for x in (v[1] if isinstance(v, tuple) and v and v[0] == 'phi' else (v,)):
            if not any(x is y or (not isinstance(x, Sym) and x == y) for y in out):
                out.append(x)
    return out[0] if len(out) == 1 else ('phi', tuple(out))


def alts(v):
    if isinstance(v, tuple) and v and v[0] == 'phi':
        return tuple(x for a in v[1] for x in alts(a))
    if isinstance(v, tuple) and v and v[0] == 'cond':
        return alts(v[2]) + alts(v[3])
    return (v,)


def choose(test, a, b):
    if a is b or (not isinstance(a, Sym) and not isinstance(b, Sym) and a == b):
        return a
    return ('cond', test, a, b)


def rooted(v):
    """Part of the content a hook returned."""
    while isinstance(v, tuple) and v and v[0] in ('item', 'val', 'key', 'attr', 'elem'):
        v = v[1]
    return isinstance(v, tuple) and v and v[0] == 'source'


class Stop(Exception):
    pass


class Eval(object):
    def __init__(self, prog, cls=None, module=None):
        self.prog, self.cls, self.module = prog, cls, module
        self.effects = []          # ('setattr', base, name, value, conds) ('store', base, key, value, conds) ('call', name, args, kws, conds, node)
        self.conds = []
        self.depth = 0
        self.raises = []
        self.hooks = {}            # external function -> value of its result (called with the arguments)

    # ------------------------------------------------------------------ entry
    def call_fn(self, fn, args, kws, selfv=('self',), cls=None):
        """Evaluate a function of the program; returns its value."""
        if self.depth > 6:
            return ('call', fn.qual, tuple(args), ())
        env = {}
        params = list(fn.params)
        a = list(args)
        if fn.cls is not None and not fn.is_static:
            env[params[0]] = selfv
            params = params[1:]
        for p, v in zip(params, a):
            env[p] = v
        extra = None
        if fn.kwarg:
            extra = Sym('dict')
            env[fn.kwarg] = extra
        rest = a[len(params):]
        if fn.vararg:
            s = Sym('list')
            s.entries = [(const(i), v, ()) for i, v in enumerate(rest)]
            env[fn.vararg] = s
        for k, v in kws:
            if k is None:
                # ** of a dictionary
                for d in alts(v):
                    if isinstance(d, Sym) and extra is not None:
                        if d.origin is not None:
                            extra.origin, extra.removed = d.origin, set(d.removed)
                        for kk, vv, cc in d.entries:
                            if kk[0] == 'const' and kk[1] in params + fn.kwonly:
                                env[kk[1]] = vv
                            else:
                                extra.entries.append((kk, vv, cc))
                    elif isinstance(d, Sym):
                        for kk, vv, cc in d.entries:
                            if kk[0] == 'const':
                                env[kk[1]] = vv
            elif k in params + fn.kwonly:
                env[k] = v
            elif extra is not None:
                extra.entries.append((const(k), v, ()))
        for p in params + fn.kwonly:
            if p not in env:
                env[p] = self.expr(fn.defaults[p], {}) if p in fn.defaults else ('unbound', p)
        old = self.cls, self.module
        self.cls, self.module = (cls or fn.cls or self.cls), fn.module
        self.depth += 1
        self.rets = getattr(self, 'rets', [])
        self.rets.append([])
        n = len(self.conds)
        try:
            self.block(fn.node.body, env)
        except Stop:
            pass
        self.conds = self.conds[:n]
        r = self.rets.pop()
        self.depth -= 1
        self.cls, self.module = old
        if not r:
            return const(None)
        out = r[-1][0]
        for v, cs in reversed(r[:-1]):
            for pol, t in reversed(cs[n:]):
                if pol == 'except':
                    v = phi(v, out)
                else:
                    v = choose(t, v, out) if pol else choose(t, out, v)
            out = v if len(cs) > n else phi(v, out)
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        """Run statements; returns False if they always leave."""
        n = len(self.conds)
        for s in stmts:
            if self.stmt(s, env) is False:
                return False
        del self.conds[n:]
        return True

    def stmt(self, s, env):
        t = type(s).__name__
        m = getattr(self, 's_' + t, None)
        if m is None:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x, env)
            return True
        return m(s, env)

    def s_Expr(self, s, env):
        self.expr(s.value, env)
        return True

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)
        return True

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env), env, s)
        return True

    def s_AugAssign(self, s, env):
        old = self.expr(s.target, env)
        v = ('op', type(s.op).__name__, (old, self.expr(s.value, env)))
        self.assign(s.target, v, env, s)
        return True

    def s_Return(self, s, env):
        self.rets[-1].append((self.expr(s.value, env) if s.value is not None else const(None), tuple(self.conds)))
        return False

    def s_Raise(self, s, env):
        self.raises.append(tuple(self.conds))
        return False

    def s_Continue(self, s, env):
        return False

    s_Break = s_Continue

    def s_With(self, s, env):
        for i in s.items:
            v = self.expr(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, s)
        return self.block(s.body, env)

    def s_Try(self, s, env):
        r = self.block(s.body, env)
        for h in s.handlers:
            e2 = dict(env)
            self.conds.append(('except', h.lineno))
            if self.block(h.body, e2):
                for k in e2:
                    if k in env and env[k] is not e2[k]:
                        env[k] = phi(env[k], e2[k])
            self.conds.pop()
        self.block(s.finalbody, env)
        return r

    def s_If(self, s, env):
        test = self.expr(s.test, env)
        if test[0] == 'const' if isinstance(test, tuple) else False:
            return self.block(s.body if test[1] else s.orelse, env)
        if self.noop_reset(s):
            return True
        out = []
        for pol, body in ((True, s.body), (False, s.orelse)):
            e2 = dict(env)
            n = len(self.conds)
            self.conds.append((pol, test))
            ok = self.block(body, e2)
            del self.conds[n:]
            if ok:
                out.append((pol, e2))
            gone = not ok
            if gone:
                left = (pol, body)
        if not out:
            return False
        if len(out) == 1:
            env.update(out[0][1])
            # the other branch left: unless it raised, what follows depends on the condition
            if not self.only_raises(left[1]):
                self.conds.append((out[0][0], test))
            return True
        a, b = out[0][1], out[1][1]
        for k in set(a) | set(b):
            if k in a and k in b:
                env[k] = choose(test, a[k], b[k])
            else:
                env[k] = a.get(k, b.get(k))
        return True

    @staticmethod
    def only_raises(body):
        last = body[-1] if body else None
        if isinstance(last, ast.If):
            return Eval.only_raises(last.body) and Eval.only_raises(last.orelse)
        return isinstance(last, ast.Raise)

    @staticmethod
    def noop_reset(s):
        """if not X: X = {}"""
        t = s.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Assign):
            a = s.body[0]
            v = a.value
            empty = (isinstance(v, ast.Dict) and not v.keys) or (isinstance(v, ast.Call) and dotted(v.func) in ('dict', 'OrderedDict') and not v.args and not v.keywords)
            return empty and len(a.targets) == 1 and ast.unparse(a.targets[0]) == ast.unparse(t.operand) and not isinstance(a.targets[0], ast.Name)
        return False

    def s_For(self, s, env):
        it = self.expr(s.iter, env)
        for el in self.elements(it):
            n = len(self.conds)
            self.assign(s.target, el, env, s)
            self.block(s.body, env)
            del self.conds[n:]
        return True

    def s_While(self, s, env):
        self.block(s.body, env)
        return True

    def s_FunctionDef(self, s, env):
        env[s.name] = ('localfn', s.name)
        return True

    def elements(self, it):
        """Generic elements a loop over the value runs through."""
        out = []
        for v in alts(it):
            if isinstance(v, Sym) and v.kind in ('list', 'tuple') and v.origin is None and all(k[0] == 'const' for k, _, _ in v.entries):
                out += [x for _, x, _ in v.entries]
            elif isinstance(v, tuple) and v[0] == 'items':
                out.append(self.tuple_of([('key', v[1]), self.valof(v[1])]))
            elif isinstance(v, tuple) and v[0] == 'call' and v[1] in ('sorted', 'list', 'tuple', 'reversed', 'iter', 'set') and v[2]:
                out += self.elements(v[2][0])
            elif isinstance(v, tuple) and v[0] == 'keys':
                out.append(('key', v[1]))
            elif isinstance(v, tuple) and v[0] == 'values':
                out.append(self.valof(v[1]))
            elif isinstance(v, Sym) and v.kind == 'dict':
                out.append(('key', self.ident(v)))
            else:
                out.append(('elem', v))
        return out

    def valof(self, origin):
        """Generic value of a dictionary; a dictionary itself if it comes from a hooked source."""
        return Sym('dict', ('val', origin)) if rooted(origin) else ('val', origin)

    def tuple_of(self, vs):
        s = Sym('tuple')
        s.entries = [(const(i), v, ()) for i, v in enumerate(vs)]
        return s

    @staticmethod
    def ident(v):
        return v.origin if isinstance(v, Sym) and v.origin is not None else ('dict', v.id) if isinstance(v, Sym) else v

    # ------------------------------------------------------------------ stores
    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self.assign(e, self.item(v, const(i)), env, s)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, env)
            self.effects.append(('setattr', b, t.attr, v, tuple(self.conds), s))
        elif isinstance(t, ast.Subscript):
            b, k = self.expr(t.value, env), self.key(self.expr(t.slice, env))
            self.store(b, k, v, s)

    def store(self, b, k, v, s):
        for d in alts(b):
            if isinstance(d, Sym):
                self.put(d, k, v)
            self.effects.append(('store', d, k, v, tuple(self.conds), s))

    def put(self, d, k, v):
        cs = tuple(self.conds)
        # an entry stored under the same or a narrower condition is overwritten
        d.entries = [e for e in d.entries if not (e[0] == k and e[2][:len(cs)] == cs)]
        d.entries.append((k, v, cs))

    def covers(self, cs):
        """The conditions hold wherever the current statement is reached."""
        return tuple(self.conds[:len(cs)]) == tuple(cs)

    # ------------------------------------------------------------------ expressions
    def item(self, v, k):
        out = []
        for d in alts(v):
            if isinstance(d, Sym):
                hit = [e for e in d.entries if e[0] == k]
                if hit:
                    full = [e for e in hit if self.covers(e[2])]
                    if d.origin is not None and not full:
                        c = self.child(d, k)
                        out.append(c)
                    out += [e[1] for e in hit]
                    continue
                if d.origin is not None:
                    out.append(self.child(d, k))
                    continue
                gen = [e for e in d.entries if e[0][0] != 'const']
                out += [e[1] for e in gen] or [('item', ('dict', d.id), k)]
            elif isinstance(d, tuple) and d and d[0] in ('attr', 'item', 'val', 'elem', 'param') and isinstance(k, tuple) and k[0] == 'key' and k[1] == d:
                out.append(('val', d))
            else:
                out.append(('item', d, k))
        return phi(*out)

    def child(self, d, k):
        cache = d.__dict__.setdefault('children', {})
        if k not in cache:
            o = ('val', d.origin) if isinstance(k, tuple) and k[0] == 'key' and k[1] == d.origin else ('item', d.origin, k)
            cache[k] = Sym('dict', o)
        return cache[k]

    def expr(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.expr(x, env)
            return ('op', type(n).__name__, (ast.unparse(n),))
        return m(n, env)

    def e_Constant(self, n, env):
        return const(n.value)

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        return ('global', n.id)

    def e_Attribute(self, n, env):
        b = self.expr(n.value, env)
        return phi(*[('attr', self.ident(x) if isinstance(x, Sym) else x, n.attr) for x in alts(b)])

    def e_Subscript(self, n, env):
        b = self.expr(n.value, env)
        k = self.key(self.expr(n.slice, env))
        return self.item(b, k)

    def e_Tuple(self, n, env):
        return self.seq('tuple', n.elts, env)

    def e_List(self, n, env):
        return self.seq('list', n.elts, env)

    def seq(self, kind, elts, env):
        s = Sym(kind)
        i = 0
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, env)
                if isinstance(v, Sym) and v.origin is None:
                    for _, x, _ in v.entries:
                        s.entries.append((const(i), x, ()))
                        i += 1
                else:
                    s.entries.append((('elem', v), ('elem', v), ()))
                continue
            s.entries.append((const(i), self.expr(e, env), ()))
            i += 1
        return s

    def e_Dict(self, n, env):
        s = Sym('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.update(s, self.expr(v, env))
            else:
                self.put(s, self.expr(k, env), self.expr(v, env))
        return s

    def comp(self, n, env, put):
        e2 = dict(env)

        def rec(gens):
            if not gens:
                return put(e2)
            g = gens[0]
            it = self.expr(g.iter, e2)
            for el in self.elements(it):
                k = len(self.conds)
                self.assign(g.target, el, e2, n)
                for c in g.ifs:
                    self.conds.append((True, self.expr(c, e2)))
                rec(gens[1:])
                del self.conds[k:]
        rec(n.generators)

    def e_DictComp(self, n, env):
        s = Sym('dict')
        self.comp(n, env, lambda e2: self.put(s, self.key(self.expr(n.key, e2)), self.expr(n.value, e2)))
        return self.filtered(s) or s

    def filtered(self, s):
        """{k: v for k, v in d.items() if k != 'a'} is a copy of d without 'a'."""
        if len(s.entries) != 1:
            return None
        k, v, cs = s.entries[0]
        if not (isinstance(k, tuple) and k[0] == 'key') or self.key(v) != ('val', k[1]):
            return None
        out = Sym('dict', k[1])
        for pol, t in cs[len(self.conds):]:
            neg = isinstance(t, tuple) and t[0] == 'op' and (t[1], pol) in (('NotEq', True), ('Eq', False), ('NotIn', True), ('In', False))
            if not neg or t[2][0] != k:
                return None
            if t[1] in ('NotEq', 'Eq') and t[2][1][0] == 'const':
                out.removed.add(t[2][1])
            elif t[1] in ('NotIn', 'In') and t[2][1][0] == 'tuple':
                out.removed.update(t[2][1][1])
            else:
                return None
        return out

    def e_ListComp(self, n, env):
        s = Sym('list')

        def put(e2):
            v = self.expr(n.elt, e2)
            s.entries.append((('gen', len(s.entries)), v, tuple(self.conds)))
        self.comp(n, env, put)
        return s

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_IfExp(self, n, env):
        return ('cond', self.expr(n.test, env), self.expr(n.body, env), self.expr(n.orelse, env))

    def e_BoolOp(self, n, env):
        return ('op', type(n.op).__name__, tuple(self.key(self.expr(v, env)) for v in n.values))

    def e_BinOp(self, n, env):
        a, b = self.expr(n.left, env), self.expr(n.right, env)
        if isinstance(n.op, ast.Add) and isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind and a.origin is None and b.origin is None:
            s = Sym(a.kind)
            s.entries = [(const(i), v, c) for i, (_, v, c) in enumerate(a.entries + b.entries)]
            return s
        return ('op', type(n.op).__name__, (self.key(a), self.key(b)))

    def e_UnaryOp(self, n, env):
        return ('op', type(n.op).__name__, (self.key(self.expr(n.operand, env)),))

    def e_Compare(self, n, env):
        return ('op', '/'.join(type(o).__name__ for o in n.ops), tuple(self.key(self.expr(v, env)) for v in [n.left] + n.comparators))

    def key(self, v):
        if isinstance(v, Sym) and v.kind in ('tuple', 'list') and v.origin is None and v.entries and all(e[1][0] == 'const' for e in v.entries if isinstance(e[1], tuple)) \
                and all(isinstance(e[1], tuple) for e in v.entries):
            return ('tuple', tuple(e[1] for e in v.entries))
        return self.ident(v) if isinstance(v, Sym) else v

    def e_Lambda(self, n, env):
        return ('op', 'lambda', (ast.unparse(n),))

    def update(self, s, v):
        for d in alts(v):
            if isinstance(d, Sym):
                if d.origin is not None and s.origin is None:
                    s.origin, s.removed = d.origin, set(d.removed)
                    s.__dict__['children'] = d.__dict__.setdefault('children', {})
                for k, x, c in d.entries:
                    if d.kind == 'dict':
                        cs = tuple(self.conds) + tuple(x for x in c if x not in self.conds)
                        s.entries = [e for e in s.entries if not (e[0] == k and e[2][:len(cs)] == cs)]
                        s.entries.append((k, x, cs))
                    elif isinstance(x, Sym) and len(x.entries) == 2:
                        s.entries.append((self.key(x.entries[0][1]), x.entries[1][1], tuple(self.conds) + tuple(y for y in c if y not in self.conds)))

    def e_Call(self, n, env):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, env)
                if isinstance(v, Sym) and v.origin is None:
                    args += [x for _, x, _ in v.entries]
                else:
                    args.append(('star', v))
            else:
                args.append(self.expr(a, env))
        kws = [(k.arg, self.expr(k.value, env)) for k in n.keywords]
        f = n.func
        d = dotted(f) or ''
        if d and d.split('.')[0] not in env:
            full = self.extname(d)
            if full in self.hooks:
                self.effects.append(('hook', full, args, kws, tuple(self.conds), n))
                return self.hooks[full](args, kws)
        if isinstance(f, ast.Name):
            if f.id in ('dict', 'OrderedDict'):
                s = Sym('dict')
                for a in args:
                    self.update(s, a)
                for k, v in kws:
                    if k is None:
                        self.update(s, v)
                    else:
                        self.put(s, const(k), v)
                return s
            if f.id in ('list', 'tuple') and len(args) == 1 and isinstance(args[0], Sym) and args[0].kind in ('list', 'tuple'):
                s = args[0].copy()
                s.kind = f.id
                return s
            if f.id == 'getattr' and len(args) >= 2:
                if self.key(args[1])[0] == 'const':
                    return ('attr', self.key(args[0]), args[1][1])
                return ('call', 'getattr', tuple(self.key(a) for a in args), ())
            if f.id == 'setattr' and len(args) == 3:
                self.effects.append(('setattr', args[0], self.key(args[1]), args[2], tuple(self.conds), n))
                return const(None)
            if f.id == 'zip' and args:
                pass
            fn = self.module.functions.get(f.id) if self.module else None
            if fn is not None and f.id not in env:
                return self.call_fn(fn, args, kws)
        if isinstance(f, ast.Attribute):
            # super().m(..) and super(C, self).m(..)
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and self.cls is not None:
                r = self.super_method(f.attr)
                if r is not None:
                    return self.call_fn(r, args, kws, selfv=env.get('self', ('self',)), cls=r.cls)
                self.effects.append(('super', f.attr, tuple(args), tuple(kws), tuple(self.conds), n))
                return ('call', 'super.' + f.attr, tuple(self.key(a) for a in args), ())
            if d and len(d.split('.')) == 2 and self.module is not None:
                r = self.prog.resolve_in_module(self.module, d.split('.')[0])
                if r and r[0] == 'cls' and args and args[0] == ('self',):
                    m = self.prog.find_method(r[1], f.attr)
                    if m is not None:
                        return self.call_fn(m, args[1:], kws, selfv=('self',), cls=m.cls)
            b = self.expr(f.value, env)
            if b == ('self',) and self.cls is not None:
                m = self.prog.find_method(getattr(self, 'top', None) or self.cls, f.attr)
                if m is not None:
                    self.effects.append(('self', f.attr, args, kws, tuple(self.conds), n))
                    return self.call_fn(m, args, kws)
            outs = []
            for o in alts(b):
                if f.attr in ('items', 'keys', 'values') and not args:
                    if f.attr == 'items' and isinstance(o, Sym) and o.origin is None:
                        s = Sym('list')
                        s.entries = [(const(i), self.tuple_of([k, v]), c) for i, (k, v, c) in enumerate(o.entries)]
                        outs.append(s)
                    else:
                        outs.append((f.attr, self.ident(o)))
                        if isinstance(o, Sym) and o.origin is not None:
                            outs[-1] = (f.attr, o.origin)
                elif f.attr == 'pop' and args and isinstance(o, Sym):
                    outs.append(self.item(o, args[0]))
                    o.removed.add(args[0])
                elif f.attr == 'pop' and args:
                    self.effects.append(('pop', o, args[0], None, tuple(self.conds), n))
                    outs.append(('item', o, args[0]))
                elif f.attr == 'get' and args:
                    outs.append(self.item(o, args[0]))
                elif f.attr == 'setdefault' and len(args) == 2 and isinstance(o, Sym):
                    self.conds.append((True, ('op', 'NotIn', (args[0], self.ident(o)))))
                    self.put(o, args[0], args[1])
                    self.conds.pop()
                    outs.append(self.item(o, args[0]))
                elif f.attr == 'update' and isinstance(o, Sym):
                    for a in args:
                        self.update(o, a)
                    for k, v in kws:
                        if k is None:
                            self.update(o, v)
                        else:
                            self.put(o, const(k), v)
                    outs.append(const(None))
                elif f.attr == 'copy' and isinstance(o, Sym) and not args:
                    c = o.copy()
                    c.__dict__['children'] = o.__dict__.setdefault('children', {})
                    outs.append(c)
                elif f.attr in ('append', 'add') and isinstance(o, Sym) and args:
                    o.entries.append((('gen', len(o.entries)), args[0], tuple(self.conds)))
                    outs.append(const(None))
                elif f.attr == 'clear' and isinstance(o, Sym):
                    if not self.conds:
                        o.entries, o.origin = [], None
                    outs.append(const(None))
                else:
                    self.effects.append(('call', f.attr, o, args, tuple(self.conds), n))
                    outs.append(('call', d or ('.' + f.attr), tuple(self.key(a) for a in ([o] if not d else []) + args), tuple((k, self.key(v)) for k, v in kws)))
            return phi(*outs)
        v = self.key(self.expr(f, env) if not isinstance(f, ast.Name) else env.get(f.id, ('global', f.id)))
        self.effects.append(('apply', v, args, kws, tuple(self.conds), n))
        name = d if not (isinstance(f, ast.Name) and f.id in env) else None
        return ('call', name if name else v, tuple(self.key(a) for a in args), tuple((k, self.key(x)) for k, x in kws))

    def extname(self, d):
        head, _, rest = d.partition('.')
        t = self.module.imports.get(head, head) if self.module else head
        return t + ('.' + rest if rest else '')

    def super_method(self, name):
        mro = self.prog.mro(getattr(self, 'top', None) or self.cls)
        if self.cls in mro:
            for c in mro[mro.index(self.cls) + 1:]:
                if name in c.methods:
                    return c.methods[name]
        return None
