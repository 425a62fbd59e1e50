"""Functions that the table known.json does not list (helpers split off from a function) are put back where they are called, when a program is loaded.

This makes extracted helpers invisible to the rules. It only applies to calls whose meaning is kept exactly: the returns of the helper can be brought into tail position,
no variable of the caller is touched, and nothing is evaluated between the statement and the call. A helper that is still referred to stays.
A function that only got another name (same parameters as a listed function that is gone) is not a helper.
"""
import ast
import json
import os

from .canon import clone

HERE = os.path.dirname(os.path.abspath(__file__))
LOOPS = (ast.For, ast.While, ast.AsyncFor)
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def signature(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def functions(tree):
    """(qualified name, function, class or None) of the functions of a module and the methods of its classes"""
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            yield s.name, s, None
        elif isinstance(s, ast.ClassDef):
            for m in s.body:
                if isinstance(m, ast.FunctionDef):
                    yield s.name + '.' + m.name, m, s


def table():
    with open(os.path.join(HERE, 'known.json')) as f:
        return json.load(f)


# ---------------------------------------------------------------- bodies
def ends(b):
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False


def has_return(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, ast.Return):
            return True
        if not isinstance(x, FUNC):
            st.extend(ast.iter_child_nodes(x))
    return False


def tail(b):
    """the statements with every return in tail position (guards become branches), None if that is not possible"""
    out = []
    for i, s in enumerate(b):
        if not has_return(s):
            out.append(s)
            continue
        rest = b[i + 1:]
        if isinstance(s, ast.Return):
            return out + [s]
        if isinstance(s, ast.If):
            if rest and ends(s.body):
                s.orelse = s.orelse + rest
            elif rest and s.orelse and ends(s.orelse):
                s.body = s.body + rest
            elif rest:
                return None
            x, y = tail(s.body), tail(s.orelse)
            if x is None or y is None:
                return None
            s.body, s.orelse = x, y
            return out + [s]
        if isinstance(s, ast.With) and (not rest or ends(s.body)):
            x = tail(s.body)
            if x is None:
                return None
            s.body = x
            return out + [s]
        if isinstance(s, ast.For) and not s.orelse and search(s):
            x = tail(rest)
            if x is None:
                return None
            s._rest = x
            return out + [s]
        return None
    return out


def search(loop):
    """a loop whose returns can become an assignment and a break"""
    st = list(loop.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Break, ast.Try, ast.With)) or isinstance(x, LOOPS) and has_return(x):
            return False
        if not isinstance(x, FUNC + LOOPS):
            st.extend(ast.iter_child_nodes(x))
    return True


def returns(b):
    for s in b:
        for x in ast.walk(s):
            if isinstance(x, ast.Return):
                yield x
            for y in getattr(x, '_rest', []):
                yield from returns([y])


def assigns(target, v, at):
    """target = v without assigning anything to itself"""
    if isinstance(target, ast.Tuple) and isinstance(v, ast.Tuple) and len(target.elts) == len(v.elts) and not any(isinstance(x, ast.Starred) for x in target.elts + v.elts):
        pairs = [(t, x) for t, x in zip(target.elts, v.elts) if not (isinstance(t, ast.Name) and isinstance(x, ast.Name) and t.id == x.id)]
        if not pairs:
            return []
        if len(pairs) == 1:
            return [ast.copy_location(ast.Assign([clone(pairs[0][0])], pairs[0][1]), at)]
        return [ast.copy_location(ast.Assign([ast.Tuple([clone(t) for t, x in pairs], ast.Store())], ast.Tuple([x for t, x in pairs], ast.Load())), at)]
    if isinstance(target, ast.Name) and isinstance(v, ast.Name) and target.id == v.id:
        return []
    return [ast.copy_location(ast.Assign([clone(target)], v), at)]


def replace_returns(b, target, loop=False):
    out = []
    for s in b:
        if isinstance(s, ast.Return):
            v = s.value if s.value is not None else ast.Constant(None)
            if target == 'return' and not loop:
                out.append(ast.copy_location(ast.Return(v), s))
            elif target is None:
                if not isinstance(v, (ast.Constant, ast.Name)):
                    out.append(ast.copy_location(ast.Expr(v), s))
            else:
                out += assigns(target, v, s)
            if loop:
                out.append(ast.copy_location(ast.Break(), s))
            continue
        if isinstance(s, ast.If):
            s.body = replace_returns(s.body, target, loop) or [ast.copy_location(ast.Pass(), s)]
            s.orelse = replace_returns(s.orelse, target, loop)
        elif isinstance(s, ast.With):
            s.body = replace_returns(s.body, target, loop) or [ast.copy_location(ast.Pass(), s)]
        elif isinstance(s, ast.For) and hasattr(s, '_rest'):
            if target == 'return':
                out.append(s)
                out += s._rest
                continue
            s.body = replace_returns(s.body, target, True)
            s.orelse = replace_returns(s._rest, target, loop)
        out.append(s)
    return out


def stored(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
    return out


def names(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


class Rename(ast.NodeTransformer):
    """names -> name or expression"""
    def __init__(self, t):
        self.t = t

    def visit_Name(self, n):
        v = self.t.get(n.id)
        if isinstance(v, str):
            return ast.copy_location(ast.Name(v, n.ctx), n)
        if v is not None:
            return ast.copy_location(clone(v), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if isinstance(self.t.get(n.name), str):
            n.name = self.t[n.name]
        return n

    def visit_Lambda(self, n):
        hidden = {a.arg for a in n.args.args + n.args.kwonlyargs}
        n.body = Rename({k: v for k, v in self.t.items() if k not in hidden}).visit(n.body)
        return n


def path(e):
    """attribute chain or subscript by names and constants"""
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Attribute):
        return path(e.value)
    if isinstance(e, ast.Subscript):
        return path(e.value) and isinstance(e.slice, (ast.Name, ast.Constant))
    return False


class Inline(object):
    def __init__(self, helpers, methods):
        self.helpers, self.methods = helpers, methods
        self.n = 0
        self.used = set()

    def resolve(self, call, cls):
        f = call.func
        if isinstance(f, ast.Name) and f.id in self.helpers:
            return f.id, self.helpers[f.id], False
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and cls is not None and (cls.name, f.attr) in self.methods:
            m = self.methods[(cls.name, f.attr)]
            if m.decorator_list:
                return f.attr, m, False
            return f.attr, m, bool(m.args.args) and m.args.args[0].arg == 'self'
        return None

    def bind(self, call, fn, skip):
        a = fn.args
        if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        params = [x.arg for x in a.posonlyargs + a.args][1 if skip else 0:]
        kwonly = [x.arg for x in a.kwonlyargs]
        if len(call.args) > len(params):
            return None
        bound = dict(zip(params, call.args))
        for k in call.keywords:
            if k.arg not in params + kwonly or k.arg in bound:
                return None
            bound[k.arg] = k.value
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x: d for x, d in zip(kwonly, a.kw_defaults) if d is not None})
        for p in params + kwonly:
            if p not in bound:
                if p not in defaults or not isinstance(defaults[p], ast.Constant):
                    return None
                bound[p] = defaults[p]
        return [(p, bound[p]) for p in params + kwonly]

    def statements(self, call, target, caller, cls):
        r = self.resolve(call, cls)
        if r is None:
            return None
        name, fn, skip = r
        if fn is caller:
            return None
        bound = self.bind(call, fn, skip)
        if bound is None:
            return None
        body = [clone(s) for s in fn.body]
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        body = tail(body)
        if body is None:
            return None
        if not ends(body) and (target is not None):
            if target != 'return' or True:
                body = body + [ast.copy_location(ast.Return(ast.Constant(None)), call)] if not (body and hasattr(body[-1], '_rest')) else body
        rets = list(returns(body))
        local = stored(ast.Module(body, []))
        for s in body:
            for y in ast.walk(s):
                for z in getattr(y, '_rest', []):
                    local |= stored(z)
        params = {p for p, v in bound}
        argnames = set()
        for p, v in bound:
            argnames |= {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
        mine = names(caller)
        inner = set()
        for s in body:
            inner |= names(s)
        # what goes where
        to = {}
        if isinstance(target, (ast.Name, ast.Tuple)) and rets:
            ts = [target] if isinstance(target, ast.Name) else target.elts
            vs = []
            for x in rets:
                v = x.value
                vs.append([v] if isinstance(target, ast.Name) else v.elts if isinstance(v, ast.Tuple) and len(v.elts) == len(ts) else None)
            if all(v is not None for v in vs):
                for i, t in enumerate(ts):
                    if isinstance(t, ast.Name) and all(isinstance(v[i], ast.Name) and v[i].id == vs[0][i].id for v in vs if isinstance(vs[0][i], ast.Name)) and isinstance(vs[0][i], ast.Name):
                        src = vs[0][i].id
                        if src not in to and t.id not in to.values() and sum(isinstance(u, ast.Name) and u.id == t.id for u in ts) == 1:
                            to[src] = t.id
        table, pre = {}, []
        taken = set(mine)

        def fresh(x):
            if x not in taken:
                taken.add(x)
                return x
            self.n += 1
            taken.add('%s__%d' % (x, self.n))
            return '%s__%d' % (x, self.n)
        for p, v in bound:
            free = p not in local
            if isinstance(v, ast.Name) and (free or to.get(p) == v.id and sum(isinstance(w, ast.Name) and w.id == v.id for q, w in bound) == 1):
                table[p] = v.id
            elif isinstance(v, ast.Constant) and free:
                table[p] = v
            elif free and not isinstance(v, ast.Name) and path(v) and not self.touched(body, v, p):
                table[p] = v
            else:
                t = fresh(p)
                table[p] = t
                pre.append(ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], clone(v)), call))
        for x in sorted(local - params):
            t = to.get(x)
            if x == '_' and not any(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load) for z in body + [caller] for y in ast.walk(z)):
                continue
            if t is not None and t not in argnames and (t == x or t not in inner - params):
                table[x] = t
                taken.add(t)
            else:
                table[x] = fresh(x)
        body = [self.rename(s, table) for s in body]
        out = pre + replace_returns(body, target)
        if target == 'return' and not ends(out):
            pass
        self.used.add(name)
        return out or [ast.copy_location(ast.Pass(), call)]

    def rename(self, s, table):
        rest = [(y, y._rest) for y in ast.walk(s) if hasattr(y, '_rest')]
        s = Rename(table).visit(s)
        for y, r in rest:
            y._rest = [self.rename(z, table) for z in r]
        return s

    def touched(self, body, v, p):
        """the helper may change what the path v stands for"""
        text = ast.unparse(v)
        used = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and text.startswith(ast.unparse(x)):
                    return True
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in used:
                    return True
        return False

    # -------------------------------------------------- expressions
    def expression(self, call, caller, cls):
        """the value of a helper that is a single return, None if it is not"""
        r = self.resolve(call, cls)
        if r is None or r[1] is caller:
            return None
        name, fn, skip = r
        body = fn.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        bound = self.bind(call, fn, skip)
        if bound is None:
            return None
        e = clone(body[0].value)
        count = {}
        inner = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                count[x.id] = count.get(x.id, 0) + 1
            if isinstance(x, ast.comprehension):
                inner |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Lambda):
                inner |= {y.arg for y in x.args.args}
        argnames = {x.id for p, v in bound for x in ast.walk(v) if isinstance(x, ast.Name)}
        table = {}
        for p, v in bound:
            if not (isinstance(v, ast.Constant) or path(v) or count.get(p, 0) <= 1):
                return None
            if p in inner:
                return None
            table[p] = v
        for x in inner & argnames:
            self.n += 1
            table[x] = '%s__%d' % (x, self.n)
        self.used.add(name)
        return Rename(table).visit(e)

    def deep(self, node, caller, cls, depth):
        """helpers that are expressions, anywhere"""
        inl = self

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if depth > 0:
                    e = inl.expression(n, caller, cls)
                    if e is not None:
                        return ast.copy_location(inl.deep(e, caller, cls, depth - 1), n)
                return n
        return T().visit(node)

    def early(self, n, caller, cls):
        """(parent, field, index, call) of a helper call before which nothing is called"""
        for f, v in ast.iter_fields(n):
            vs = list(enumerate(v)) if isinstance(v, list) else [(None, v)]
            for i, c in vs:
                if isinstance(c, ast.keyword):
                    vs2 = (c, 'value', None, c.value)
                elif isinstance(c, ast.expr):
                    vs2 = (n, f, i, c)
                else:
                    continue
                c = vs2[3]
                if isinstance(c, ast.Call) and self.resolve(c, cls) is not None:
                    return vs2
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    return False
                r = self.early(c, caller, cls)
                if r is not None:
                    return r
                if isinstance(c, ast.Call):
                    return False
                if isinstance(n, (ast.BoolOp, ast.IfExp)):
                    return False
        return None

    def function(self, fn, cls):
        fn.body = self.block(fn.body, fn, cls, 4)

    def block(self, b, fn, cls, depth):
        out = []
        for s in b:
            out += self.statement(s, fn, cls, depth)
        return out

    def statement(self, s, fn, cls, depth):
        if isinstance(s, ast.FunctionDef):
            s.body = self.block(s.body, fn, cls, depth)
            return [s]
        if isinstance(s, FUNC):
            return [s]
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, f, self.block(b, fn, cls, depth))
        for h in getattr(s, 'handlers', []):
            h.body = self.block(h.body, fn, cls, depth)
        if depth <= 0:
            return [s]
        v = getattr(s, 'value', None)
        r = None
        if isinstance(v, ast.Call):
            if isinstance(s, ast.Expr):
                r = self.statements(v, None, fn, cls)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                r = self.statements(v, s.targets[0], fn, cls)
            elif isinstance(s, ast.Return):
                r = self.statements(v, 'return', fn, cls)
        if r is None:
            # a call inside of the statement that comes first
            field = {ast.Expr: 'value', ast.Assign: 'value', ast.Return: 'value', ast.If: 'test', ast.For: 'iter', ast.Raise: 'exc'}.get(type(s))
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                field = 'value'
            holder = s
            if isinstance(s, ast.With):
                holder, field = s.items[0], 'context_expr'
            e = getattr(holder, field, None) if field else None
            if e is not None:
                if isinstance(e, ast.Call) and self.resolve(e, cls) is not None:
                    hit = (holder, field, None, e)
                elif isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    hit = None
                else:
                    hit = self.early(e, fn, cls)
                if isinstance(hit, tuple) and self.expression(hit[3], fn, cls) is None:
                    self.n += 1
                    t = 'value__%d' % self.n
                    pre = self.statements(hit[3], ast.Name(t, ast.Store()), fn, cls)
                    if pre is not None:
                        ref = ast.copy_location(ast.Name(t, ast.Load()), hit[3])
                        if hit[2] is None:
                            setattr(hit[0], hit[1], ref)
                        else:
                            getattr(hit[0], hit[1])[hit[2]] = ref
                        return self.number(self.block(pre, fn, cls, depth - 1), s) + [s]
            return [self.heads(s, fn, cls, depth)]
        return self.number(self.block(r, fn, cls, depth - 1), s)

    def heads(self, s, fn, cls, depth):
        """expression helpers in the statement itself, not in its blocks"""
        for f, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                setattr(s, f, self.deep(v, fn, cls, depth))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, (ast.expr, ast.withitem)):
                        v[i] = self.deep(x, fn, cls, depth)
        return s

    def number(self, b, s):
        """positions in the order of the statements, as some rules compare them"""
        k = 0
        for x in b:
            for y in ast.walk(x):
                if hasattr(y, 'lineno'):
                    if not hasattr(y, '_line'):
                        y._line = y.lineno
                    if isinstance(y, ast.stmt):
                        k += 1
        k = [0]

        def visit(n, at):
            if isinstance(n, ast.stmt):
                k[0] += 1
                at = s.lineno + k[0] * 1e-5
            if hasattr(n, 'lineno'):
                n.lineno = at
            for c in ast.iter_child_nodes(n):
                visit(c, at)
        for x in b:
            visit(x, s.lineno)
        return b


def references(tree, skip):
    out = {}
    st = [tree]
    while st:
        x = st.pop()
        if isinstance(x, ast.Name):
            out[x.id] = out.get(x.id, 0) + 1
        elif isinstance(x, ast.Attribute):
            out[x.attr] = out.get(x.attr, 0) + 1
        elif isinstance(x, ast.alias):
            out[x.name] = out.get(x.name, 0) + 1
        st.extend(ast.iter_child_nodes(x))
    return out


def plausible(f):
    if f.decorator_list and not all(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
        return False
    if f.name.startswith('__') or isinstance(f, ast.AsyncFunctionDef):
        return False
    for x in ast.walk(f):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)) or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
            return False
        if isinstance(x, ast.Name) and x.id in ('super', 'locals', '__class__'):
            return False
    return True


def put_back(trees, package):
    """trees: {module name: tree}"""
    known = table()
    inlined = {}
    for name, tree in trees.items():
        short = name[len(package) + 1:] if name.startswith(package + '.') else name
        if short not in known:
            continue
        k = known[short]
        here = {q: (f, c) for q, f, c in functions(tree)}
        gone = [tuple(v) for q, v in k.items() if q not in here]
        helpers, methods = {}, {}
        for q, (f, c) in here.items():
            if q in k or not plausible(f) or tuple(signature(f)) in gone:
                continue
            if c is None:
                helpers[f.name] = f
            elif sum(1 for q2 in here if q2.split('.')[-1] == f.name) == 1:
                methods[(c.name, f.name)] = f
        if not helpers and not methods:
            continue
        inl = Inline(helpers, methods)
        for q, (f, c) in here.items():
            inl.function(f, c)
        ast.fix_missing_locations(tree)
        if inl.used:
            inlined[name] = inl
    if not inlined:
        return 0
    total = {}
    for tree in trees.values():
        for x, n in references(tree, None).items():
            total[x] = total.get(x, 0) + n
    n = 0
    for name, inl in inlined.items():
        tree = trees[name]
        dead = {id(f) for f in list(inl.helpers.values()) + list(inl.methods.values()) if f.name in inl.used}
        while True:
            # a helper only other dead helpers refer to is dead as well
            drop = set()
            for f in list(inl.helpers.values()) + list(inl.methods.values()):
                if id(f) in dead and not total.get(f.name):
                    drop.add(id(f))
            if not drop:
                break
            for holder in [tree] + [s for s in tree.body if isinstance(s, ast.ClassDef)]:
                for s in list(holder.body):
                    if id(s) in drop:
                        holder.body.remove(s)
                        n += 1
                        for x, c in references(s, None).items():
                            total[x] = total.get(x, 0) - c
                        dead.discard(id(s))
                if not holder.body:
                    holder.body.append(ast.copy_location(ast.Pass(), holder))
    return n
