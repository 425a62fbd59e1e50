"""Flow-insensitive definitions of the local names of a function (every binding of a name, with its form)."""
import ast

from .loader import clone, walk_local


class Def(object):
    """kind: expr (value), elem (element `index` of value), iter (element of the iterable value, path of tuple indices), aug, with, param, other."""

    def __init__(self, kind, value, stmt, path=()):
        self.kind, self.value, self.stmt, self.path = kind, value, stmt, tuple(path)


class Defs(object):
    def __init__(self, node):
        self.node = node
        self.table = {}
        self.parent = {}
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for p in self.params + [x.arg for x in (a.vararg, a.kwarg) if x is not None]:
            self.add(p, Def('param', None, None))
        todo = [(node, None)]
        while todo:
            n, p = todo.pop()
            self.parent[n] = p
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for c in ast.iter_child_nodes(n):
                todo.append((c, n))
        for n in walk_local(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value, n, 'expr')
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value, n, 'expr')
            elif isinstance(n, ast.AugAssign):
                self.bind(n.target, n.value, n, 'aug')
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.bind(n.target, n.iter, n, 'iter')
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, i.context_expr, n, 'with')
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value, n, 'expr')

    def add(self, name, d):
        self.table.setdefault(name, []).append(d)

    def bind(self, t, v, stmt, kind, path=()):
        if isinstance(t, ast.Starred):
            t = t.value
            kind = 'other'
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if kind == 'expr' and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not path:
                    self.bind(e, v.elts[i], stmt, 'expr')
                else:
                    self.bind(e, v, stmt, 'elem' if kind in ('expr', 'elem') else kind, path + (i,))
        elif isinstance(t, ast.Name):
            self.add(t.id, Def(kind, v, stmt, path))
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.add(ast.unparse(t), Def(kind, v, stmt, path))
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.add(b.id + '[]', Def(kind, v, stmt, path))

    def of(self, name):
        return self.table.get(name, [])

    def enclosing(self, n, types):
        """Enclosing nodes of the given types, innermost first (not crossing the function)."""
        out = []
        n = self.parent.get(n)
        while n is not None and n is not self.node:
            if isinstance(n, types):
                out.append(n)
            n = self.parent.get(n)
        return out

    def alternatives(self, e, depth=6, seen=()):
        """Expressions the value may come from: names are replaced by what is assigned to them, conditional expressions split."""
        if isinstance(e, ast.IfExp):
            return self.alternatives(e.body, depth, seen) + self.alternatives(e.orelse, depth, seen)
        if isinstance(e, ast.Name) and depth > 0 and e.id not in seen:
            ds = self.of(e.id)
            if ds and all(d.kind == 'expr' for d in ds):
                out = []
                for d in ds:
                    out += self.alternatives(d.value, depth - 1, seen + (e.id,))
                return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'np.int64') and len(e.args) == 1:
            return self.alternatives(e.args[0], depth, seen)
        return [e]

    def text(self, e, depth=6):
        """Text of the expression with singly assigned names replaced by their value."""
        d = self

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                ds = d.of(n.id)
                if isinstance(n.ctx, ast.Load) and len(ds) == 1 and ds[0].kind == 'expr' and depth > 0:
                    return ast.parse('(%s)' % d.text(ds[0].value, depth - 1), mode='eval').body
                return n
        return ast.unparse(R().visit(clone(e)))


def calls_to(prog, fn, name, node=None):
    """Calls in the function whose callee is (an alias of) the package function `name`."""
    from .loader import dotted
    out = []
    for n in walk_local(node or fn.node):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d and d.split('.')[-1] == name:
                out.append(n)
    return out


def bind_args(call, params, skip=0):
    """{parameter: expression} of a call (None if stars hide something)."""
    out = {}
    for p, a in zip(params[skip:], call.args):
        if isinstance(a, ast.Starred):
            return None
        out[p] = a
    for k in call.keywords:
        if k.arg is None:
            if isinstance(k.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in k.value.keys):
                out.update({x.value: v for x, v in zip(k.value.keys, k.value.values)})
                continue
            return None
        out[k.arg] = k.value
    return out
