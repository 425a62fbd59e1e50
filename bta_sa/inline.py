"""Source-level inlining of helper calls, so that rules on one function see what its extracted helpers do.

Only statement-level calls (f(..), x = f(..), return f(..)) of helpers whose returns are all in tail position are
expanded; anything else is left as it is.
"""
import ast

from .loader import clone

counter = [0]


class Renamer(ast.NodeTransformer):
    def __init__(self, table):
        self.table = table

    def visit_Name(self, n):
        if n.id in self.table:
            return ast.copy_location(ast.Name(self.table[n.id], n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.table:
            n.name = self.table[n.name]
        return n

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef


def tail_returns(stmts):
    """All return statements are in tail position."""
    for i, s in enumerate(stmts):
        last = i == len(stmts) - 1
        if isinstance(s, ast.Return):
            if not last:
                return False
            continue
        if last and isinstance(s, ast.If):
            if not (tail_returns(s.body) and tail_returns(s.orelse)):
                return False
            continue
        if last and isinstance(s, ast.With):
            if not tail_returns(s.body):
                return False
            continue
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)):
                return False
    return True


def to_assign(stmts, target, loc):
    out = []
    for s in stmts:
        if isinstance(s, ast.Return):
            v = s.value if s.value is not None else ast.Constant(None)
            if target is None:
                if not isinstance(v, (ast.Constant, ast.Name)):
                    out.append(ast.copy_location(ast.Expr(v), s))
            elif target == 'return':
                out.append(ast.copy_location(ast.Return(v), s))
            else:
                out.append(ast.copy_location(ast.Assign([clone(target)], v), s))
            continue
        if isinstance(s, ast.If):
            s.body = to_assign(s.body, target, loc) or [ast.copy_location(ast.Pass(), s)]
            s.orelse = to_assign(s.orelse, target, loc)
        elif isinstance(s, ast.With):
            s.body = to_assign(s.body, target, loc) or [ast.copy_location(ast.Pass(), s)]
        out.append(s)
    return out


def stores(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def expand(call, target, resolve):
    """Statements equivalent to target = call(..), or None."""
    r = resolve(call)
    if r is None:
        return None
    fn, skip_self = r
    node = fn.node
    a = node.args
    if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if node.decorator_list and not all(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list):
        return None
    if not tail_returns(node.body):
        return None
    params = [x.arg for x in a.posonlyargs + a.args]
    if skip_self:
        params = params[1:]
    kwonly = [x.arg for x in a.kwonlyargs]
    bound = dict(zip(params, call.args))
    if len(call.args) > len(params):
        return None
    for k in call.keywords:
        if k.arg not in params + kwonly or k.arg in bound:
            return None
        bound[k.arg] = k.value
    defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
    defaults.update({x: d for x, d in zip(kwonly, a.kw_defaults) if d is not None})
    for p in params + kwonly:
        if p not in bound:
            if p not in defaults:
                return None
            bound[p] = defaults[p]
    counter[0] += 1
    local = stores(node) | set(params) | set(kwonly)
    table = {}
    pre = []
    assigned = stores(ast.Module(node.body, []))
    for p in params + kwonly:
        v = bound[p]
        if isinstance(v, ast.Name) and p not in assigned:
            table[p] = v.id
        elif isinstance(v, ast.Constant) and p not in assigned or True:
            table[p] = '%s__%d' % (p, counter[0])
            pre.append(ast.copy_location(ast.Assign([ast.Name(table[p], ast.Store())], clone(v)), call))
    for x in local:
        table.setdefault(x, '%s__%d' % (x, counter[0]))
    body = [Renamer(table).visit(clone(s)) for s in node.body]
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body = body[1:]
    if target is not None and target != 'return' and not ends(body):
        body.append(ast.copy_location(ast.Return(ast.Constant(None)), call))
    return pre + to_assign(body, target, call)


def ends(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False


class Inliner(ast.NodeTransformer):
    def __init__(self, resolve, depth):
        self.resolve, self.depth = resolve, depth

    def many(self, s, call, target):
        if self.depth <= 0 or not isinstance(call, ast.Call):
            return s
        b = expand(call, target, self.resolve)
        if b is None:
            return s
        sub = Inliner(self.resolve, self.depth - 1)
        out = []
        for x in b:
            r = sub.visit(x)
            out += r if isinstance(r, list) else [r]
        return out or [ast.copy_location(ast.Pass(), s)]

    def visit_Expr(self, s):
        return self.many(s, s.value, None)

    def visit_Assign(self, s):
        if len(s.targets) == 1:
            return self.many(s, s.value, s.targets[0])
        return s

    def visit_Return(self, s):
        return self.many(s, s.value, 'return')

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n


class View(object):
    """A function-like object with an expanded body (same interface as loader.Fn where the rules need it)."""

    def __init__(self, fn, node):
        self.fn, self.node = fn, node

    def __getattr__(self, k):
        return getattr(self.fn, k)


def inlined(fn, resolve, depth=3):
    node = clone(fn.node)
    inl = Inliner(resolve, depth)
    body = []
    for s in node.body:
        r = inl.visit(s)
        body += r if isinstance(r, list) else [r]
    node.body = body
    ast.fix_missing_locations(node)
    m = fn.module
    for x in ast.walk(node):
        x._module = m
    return View(fn, node)


def same_class(prog, cls, exclude=()):
    """Resolve self.m(..) to the method m of the class."""
    def resolve(call):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and f.attr not in exclude:
            m = prog.find_method(cls, f.attr)
            if m is not None:
                return m, not m.is_static
        return None
    return resolve


def same_module(fn, exclude=(), private=True):
    """Resolve f(..) to the function f of the same module."""
    def resolve(call):
        f = call.func
        if isinstance(f, ast.Name) and f.id in fn.module.functions and f.id not in exclude and (f.id.startswith('_') or not private) and f.id != fn.name:
            return fn.module.functions[f.id], False
        return None
    return resolve
