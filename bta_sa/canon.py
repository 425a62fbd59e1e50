"""Canonical form of the syntax trees, applied when a module is loaded: spellings that mean the same are the same tree for every rule.

negation    not (a is None) -> a is not None, not (a == b) -> a != b, not not c -> c where only the truth counts
branches    if not c: A else: B -> if c: B else: A;   if a: (if b: A) -> if a and b: A
comparisons 0 < x -> x > 0 for constants;  'a{}'.format(x) -> f'a{x}'
temporaries t = e; s(t) -> s(e)   t is used nowhere else and nothing that could matter is evaluated between e and its use
lists       x = []; for t in s: x.append(e) -> x = [e for t in s]   (with conditions and nested loops)
"""
import ast

def clone(n):
    """Copy of a syntax tree (or a list of them) without the links to its surroundings."""
    if isinstance(n, list):
        return [clone(x) for x in n]
    if not isinstance(n, ast.AST):
        return n
    out = type(n)()
    for f in n._fields:
        if hasattr(n, f):
            setattr(out, f, clone(getattr(n, f)))
    for a in n._attributes:
        if hasattr(n, a):
            setattr(out, a, getattr(n, a))
    for a in ('_module', '_line'):
        if hasattr(n, a):
            setattr(out, a, getattr(n, a))
    return out


NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


class Negation(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1 and isinstance(n.operand.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            c = n.operand
            return ast.copy_location(ast.Compare(c.left, [NEG[type(c.ops[0])]()], c.comparators), n)
        return n


SWAP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}


class Spelling(ast.NodeTransformer):
    """0 < x -> x > 0;  'a{}b'.format(x) -> f'a{x}b'"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP and isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant):
            return ast.copy_location(ast.Compare(n.comparators[0], [SWAP[type(n.ops[0])]()], [n.left]), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not n.keywords and n.args:
            parts = f.value.value.split('{}')
            if len(parts) == len(n.args) + 1 and not any(c in p for p in parts for c in '{}') and not any(isinstance(a, ast.Starred) for a in n.args):
                v = []
                for i, p in enumerate(parts):
                    if p:
                        v.append(ast.copy_location(ast.Constant(p), n))
                    if i < len(n.args):
                        v.append(ast.copy_location(ast.FormattedValue(n.args[i], -1, None), n))
                return ast.copy_location(ast.JoinedStr(v), n)
        return n


def truth(t):
    """the same test, if only its truth counts"""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.UnaryOp) and isinstance(t.operand.op, ast.Not):
        t = t.operand.operand
    if isinstance(t, ast.BoolOp):
        vs = []
        for v in t.values:
            v = truth(v)
            vs += v.values if isinstance(v, ast.BoolOp) and type(v.op) is type(t.op) else [v]
        t = ast.copy_location(ast.BoolOp(t.op, vs), t)
    return t


class Branches(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = truth(n.test)
        if n.orelse and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            n.test, n.body, n.orelse = truth(n.test.operand), n.orelse, n.body
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            n.test = truth(ast.copy_location(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.test))
            n.body = n.body[0].body
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.test = truth(n.test)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = truth(n.test)
        if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            n.test, n.body, n.orelse = truth(n.test.operand), n.orelse, n.body
        return n


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
OPAQUE = (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)


class Lists(object):
    def function(self, fn):
        self.fn = fn
        self.loops = [x for x in ast.walk(fn) if isinstance(x, ast.For)]
        self.blocks(fn)

    def blocks(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, FUNC + (ast.ClassDef,)):
                        self.blocks(s)
                out = []
                for s in b:
                    c = self.comprehension(out[-1], s) if out else None
                    if c is not None:
                        out[-1] = c
                    else:
                        out.append(s)
                setattr(node, f, out)
        for h in getattr(node, 'handlers', []):
            self.blocks(h)

    def comprehension(self, a, loop):
        if not (isinstance(loop, ast.For) and not loop.orelse and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name)
                and isinstance(a.value, ast.List) and not a.value.elts):
            return None
        x = a.targets[0].id
        gens, n = [], loop
        while True:
            if isinstance(n, ast.For) and not n.orelse and len(n.body) == 1:
                gens.append(ast.comprehension(n.target, n.iter, [], 0))
            elif isinstance(n, ast.If) and not n.orelse and len(n.body) == 1:
                gens[-1].ifs.append(n.test)
            else:
                break
            n = n.body[0]
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'append' and isinstance(n.value.func.value, ast.Name)
                and n.value.func.value.id == x and len(n.value.args) == 1 and not n.value.keywords and not isinstance(n.value.args[0], ast.Starred)):
            return None
        e = n.value.args[0]
        names = set()
        for g in gens:
            if not all(isinstance(y, (ast.Name, ast.Tuple, ast.List, ast.expr_context)) for y in ast.walk(g.target)):
                return None
            names |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        parts = [e] + [g.iter for g in gens] + [i for g in gens for i in g.ifs]
        for p in parts:
            for y in ast.walk(p):
                if isinstance(y, ast.Name) and y.id == x or isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                    return None
        inside = set()
        for l in self.loops:
            if l is loop or {y.id for y in ast.walk(l.target) if isinstance(y, ast.Name)} >= names:
                inside |= {id(y) for y in ast.walk(l)}
        for y in ast.walk(self.fn):
            if isinstance(y, ast.Name) and y.id in names and isinstance(y.ctx, ast.Load) and id(y) not in inside:
                return None
        c = ast.ListComp(e, gens)
        ast.copy_location(c, loop)
        return ast.copy_location(ast.Assign(a.targets, c), loop)


class Temporaries(object):
    def __init__(self, modules, library):
        self.modules = modules
        self.library = library

    def function(self, fn):
        stores, loads, barred = {}, {}, set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                d = loads if isinstance(x.ctx, ast.Load) else stores
                d[x.id] = d.get(x.id, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                barred |= set(x.names)
            elif isinstance(x, ast.arg):
                barred.add(x.arg)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                barred.add(x.name)
        if {'locals', 'vars', 'eval', 'exec'} & set(loads):
            return
        self.once = {v for v in stores if stores[v] == 1 and loads.get(v) == 1} - barred
        if self.once:
            self.blocks(fn)

    def blocks(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, FUNC + (ast.ClassDef,)):
                        self.blocks(s)
                setattr(node, f, self.block(b))
        for h in getattr(node, 'handlers', []):
            self.blocks(h)
        for c in getattr(node, 'cases', []):
            self.blocks(c)

    def block(self, b):
        out = []
        for s in reversed(b):
            if out and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.once and self.put(s.targets[0].id, s.value, out[-1]):
                continue
            out.append(s)
        return out[::-1]

    def put(self, t, e, s):
        """replaces t in statement s by e if that is evaluated at the same point"""
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            field = 'value'
        elif isinstance(s, ast.If):
            field = 'test'
        elif isinstance(s, ast.For):
            field = 'iter'
        elif isinstance(s, ast.With):
            s, field = s.items[0], 'context_expr'
        elif isinstance(s, ast.Raise):
            field = 'exc'
        else:
            return False
        v = getattr(s, field)
        if v is None:
            return False
        if isinstance(v, ast.Name) and v.id == t:
            setattr(s, field, e)
            return True
        self.level = 2 if quiet(e) else 1 if plain(e, self.library) else 0
        hit = self.first(v, t)
        if not isinstance(hit, tuple):
            return False
        parent, f, i = hit
        if i is None:
            setattr(parent, f, e)
        else:
            getattr(parent, f)[i] = e
        return True

    def first(self, n, t):
        """(parent, field, index) of t if everything evaluated before it is a name or constant; None if t and nothing of effect was met; False otherwise"""
        if isinstance(n, (ast.BoolOp, ast.IfExp)):
            # only the first operand is always evaluated
            f = 'values' if isinstance(n, ast.BoolOp) else 'test'
            c = n.values[0] if isinstance(n, ast.BoolOp) else n.test
            if isinstance(c, ast.Name):
                return (n, f, 0 if isinstance(n, ast.BoolOp) else None) if c.id == t else False
            r = self.first(c, t)
            return r if isinstance(r, tuple) else False
        if isinstance(n, OPAQUE):
            return False
        effect = False
        for f, v in order(n):
            vs = list(enumerate(v)) if isinstance(v, list) else [(None, v)]
            for i, c in vs:
                if not isinstance(c, ast.AST) or isinstance(c, (ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)):
                    continue
                if isinstance(c, ast.keyword):
                    if isinstance(c.value, ast.Name) and c.value.id == t:
                        return (c, 'value', None)
                    c = c.value
                elif isinstance(c, ast.Name) and c.id == t:
                    return (n, f, i)
                if isinstance(c, (ast.Name, ast.Constant)) or self.module_member(c):
                    continue
                r = self.first(c, t)
                if isinstance(r, tuple):
                    return r
                if r is False and self.level < 2:
                    return False
                if isinstance(n, ast.Call) and f == 'func' and isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name):
                    continue
                effect = effect or not (quiet(c) or self.level == 2 or self.level == 1 and plain(c))
                if effect:
                    return False
        return None

    def module_member(self, n):
        while isinstance(n, ast.Attribute):
            n = n.value
        return isinstance(n, ast.Name) and n.id in self.modules


def quiet(n):
    """no effect and independent of effects: displays and arithmetic of names and constants"""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Tuple, ast.List, ast.UnaryOp, ast.expr_context, ast.unaryop)) for x in ast.walk(n))


BUILTIN = {'int', 'float', 'bool', 'str', 'len', 'tuple', 'list', 'range', 'abs', 'min', 'max', 'sum', 'sorted', 'round', 'isinstance', 'type', 'zip', 'enumerate'}


def plain(n, library=None):
    """reads only: nothing that runs later or conditionally, and no calls (of anything but library functions, which do not change attributes)"""
    for x in ast.walk(n):
        if isinstance(x, OPAQUE):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            if library is None or isinstance(f, ast.Name) and f.id not in BUILTIN and f.id not in library:
                return False
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name) or f.id not in library and f.id not in BUILTIN:
                return False
    return True


def order(n):
    if isinstance(n, ast.Dict):
        return []
    return ast.iter_fields(n)


def canonical(tree):
    Spelling().visit(tree)
    Negation().visit(tree)
    Branches().visit(tree)
    modules, library = set(), set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            names = {(a.asname or a.name).split('.')[0] for a in x.names}
            modules |= names
            if not (isinstance(x, ast.ImportFrom) and (x.level or (x.module or '').startswith('beam_telescope_analysis'))):
                library |= names
    t = Temporaries(modules, library)
    for x in list(ast.walk(tree)):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            Lists().function(x)
            t.function(x)
    Branches().visit(tree)
    return tree
