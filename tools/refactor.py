"""refactor.py: development helper, rewrites the package without changing what it does and runs the checks on the copy (no check uses it).

usage: refactor.py TRANSFORM[,TRANSFORM] [IDS]        every place in every function
       refactor.py extract:SEED [IDS]                 random runs of statements become helper functions
"""
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import sys

SRC = os.environ.get('BASE', '/repo') + '/beam_telescope_analysis'
SKIP = ('testing', 'examples', 'tests')
IDS = ['C%02d' % i for i in range(1, 22)]


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


class Blocks(ast.NodeTransformer):
    """calls self.block(list of statements, function) for every statement list inside of functions, innermost first"""
    fn = None

    def __init__(self):
        self.n = 0

    def tmp(self):
        self.n += 1
        return 'value_%d' % self.n

    def visit_FunctionDef(self, node):
        if any('jit' in ast.unparse(d) for d in node.decorator_list):
            return node
        old, self.fn = self.fn, node
        self.generic_visit(node)
        self.stmts(node)
        self.fn = old
        return node

    def stmts(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.fn is not None and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            self.stmts(node)
        return node

    def block(self, b):
        out = []
        for s in b:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s


class Nop(Blocks):
    pass


class ReturnTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.tmp()
            return [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
        return s


class InvertIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return ast.If(t, s.orelse, s.body)
        return s


class SplitAnd(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            r = s.body
            for v in reversed(s.test.values):
                r = [ast.If(v, r, [])]
            return r
        return s


class NestIf(Blocks):
    """elif -> else: if  is the same tree; if a: if b: -> if a and b"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])
        return s


class Guard(Blocks):
    """for ..: ..; if c: REST  ->  if not c: continue; REST and the other way round"""
    def loop(self, s):
        b = s.body
        if len(b) and isinstance(b[-1], ast.If) and not b[-1].orelse and len(b[-1].body) > 1:
            i = b[-1]
            s.body = b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        else:
            for k, x in enumerate(b[:-1]):
                if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Continue):
                    s.body = b[:k] + [ast.If(ast.UnaryOp(ast.Not(), x.test), b[k + 1:], [])]
                    break
        return s

    def stmt(self, s):
        return self.loop(s) if isinstance(s, (ast.For, ast.While)) and not s.orelse else s


class EarlyReturn(Blocks):
    """if c: ..return  else: B -> if c: ..return; B"""
    def block(self, b):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                out += s.orelse
                s.orelse = []
        return out


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_FunctionDef(self, n):
        if any('jit' in ast.unparse(d) for d in n.decorator_list):
            return n
        return self.generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class DeMorgan(ast.NodeTransformer):
    """not (a == b) for a != b, not a < b is not the same for nan; x is not None -> not x is None"""
    def visit_FunctionDef(self, n):
        if any('jit' in ast.unparse(d) for d in n.decorator_list):
            return n
        return self.generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.IsNot, ast.NotIn)):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is() if isinstance(n.ops[0], ast.IsNot) else ast.In()], n.comparators))
        return n


class Hoist(Blocks):
    """arguments of the outermost call of a statement become variables, in order"""
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(v, ast.Call) and not is_doc(s):
            if any(isinstance(a, ast.Starred) for a in v.args) or any(k.arg is None for k in v.keywords):
                return s
            out = []

            def take(e):
                if isinstance(e, (ast.Name, ast.Constant, ast.Lambda, ast.Attribute)):
                    return e
                t = self.tmp()
                out.append(ast.Assign([name(t, ast.Store())], e))
                return name(t)
            v.args = [take(a) for a in v.args]
            for k in v.keywords:
                k.value = take(k.value)
            return out + [s]
        return s


class HoistIndex(Blocks):
    """x = a[expr] -> i = expr; x = a[i]  (no slices) and operands of arithmetic"""
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, ast.Assign) and isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and not isinstance(v.slice, (ast.Slice, ast.Tuple, ast.Constant, ast.Name)):
            t = self.tmp()
            o = [ast.Assign([name(t, ast.Store())], v.slice)]
            v.slice = name(t)
            return o + [s]
        if isinstance(s, ast.Assign) and isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Call, ast.Subscript)):
            t = self.tmp()
            o = [ast.Assign([name(t, ast.Store())], v.left)]
            v.left = name(t)
            return o + [s]
        return s


class TestTemp(Blocks):
    """if expr: -> cond = expr; if cond:"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            t = self.tmp()
            o = [ast.Assign([name(t, ast.Store())], s.test)]
            s.test = name(t)
            return o + [s]
        return s


class Comp(Blocks):
    """x = [e for a in b if c] -> loop"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp):
            c = s.value
            t = self.tmp()
            r = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [c.elt], []))]
            names = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            m = {n: self.tmp() for n in names}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(m.get(n.id, n.id), n.ctx)
            for g in reversed(c.generators):
                for i in reversed(g.ifs):
                    r = [ast.If(i, r, [])]
                r = [ast.For(g.target, g.iter, r, [])]
            r = [R().visit(x) for x in r]
            return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load()))] + r + [ast.Assign(s.targets, name(t))]
        return s


class Enum(Blocks):
    """for i, x in enumerate(y) -> for i in range(len(y)): x = y[i] if y is a plain name (not a telescope)"""
    def stmt(self, s):
        if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == 'enumerate' and len(s.iter.args) == 1 and isinstance(s.iter.args[0], ast.Name)
                and s.iter.args[0].id != 'telescope' and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name)):
            y = s.iter.args[0]
            return ast.For(s.target.elts[0], ast.Call(name('range'), [ast.Call(name('len'), [y], [])], []),
                           [ast.Assign([s.target.elts[1]], ast.Subscript(y, name(s.target.elts[0].id), ast.Load()))] + s.body, s.orelse)
        return s


class WithSplit(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) > 1:
            r = s.body
            for i in reversed(s.items):
                r = [ast.With([i], r)]
            return r
        return s


class WithTry(Blocks):
    """with open_file(..) as x: body -> x = open_file(..); try: body finally: x.close()"""
    def stmt(self, s):
        if (isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name) and isinstance(s.items[0].context_expr, ast.Call)
                and ast.unparse(s.items[0].context_expr.func).split('.')[-1] in ('open_file', 'PdfPages', 'open')):
            x = s.items[0].optional_vars.id
            return [ast.Assign([name(x, ast.Store())], s.items[0].context_expr),
                    ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(name(x), 'close', ast.Load()), [], []))])]
        return s


class Ternary(Blocks):
    """x = a if c else b -> if"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return s


class ToTernary(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and isinstance(a.targets[0], ast.Name) and len(a.targets) == 1 and ast.unparse(a.targets[0]) == ast.unparse(b.targets[0]):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
        return s


class TupleSplit(Blocks):
    """a, b = x, y -> t = x; u = y; a = t; b = u"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts):
            ts = [self.tmp() for _ in s.value.elts]
            return [ast.Assign([name(t, ast.Store())], v) for t, v in zip(ts, s.value.elts)] + [ast.Assign([g], name(t)) for g, t in zip(s.targets[0].elts, ts)]
        return s


class TupleJoin(Blocks):
    """a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
            t = self.tmp()
            return [ast.Assign([name(t, ast.Store())], s.value)] + [ast.Assign([g], ast.Subscript(name(t), ast.Constant(i), ast.Load())) for i, g in enumerate(s.targets[0].elts)]
        return s


class Chain(Blocks):
    """a < b < c -> a < b and b < c; range(0, n) -> range(n)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.fn is not None and len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Constant, ast.Subscript)):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n


class Format(ast.NodeTransformer):
    """'a%s' % x -> 'a{}'.format(x) for plain %s and %d"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            t = n.left.value
            import re
            if re.sub(r'%[sd]', '', t).count('%') == 0 and '{' not in t and '}' not in t:
                a = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if len(re.findall(r'%[sd]', t)) == len(a):
                    return ast.Call(ast.Attribute(ast.Constant(re.sub(r'%[sd]', '{}', t)), 'format', ast.Load()), list(a), [])
        return n


class FString(Format):
    def visit_BinOp(self, n):
        r = super().visit_BinOp(n)
        if isinstance(r, ast.Call):
            parts = r.func.value.value.split('{}')
            v = []
            for i, p in enumerate(parts):
                if p:
                    v.append(ast.Constant(p))
                if i < len(r.args):
                    v.append(ast.FormattedValue(r.args[i], -1, None))
            return ast.JoinedStr(v)
        return r


class Rename(ast.NodeTransformer):
    """local variables of every function get another name"""
    def visit_FunctionDef(self, n):
        params, stores, glob = set(), set(), set()
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                params.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                glob.add(x.name)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n:
                glob.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                glob |= {(a.asname or a.name).split('.')[0] for a in x.names}
            elif isinstance(x, ast.Name) and x.id == 'locals':
                return n
        m = stores - params - glob
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = x.id + '_v'
        return n


class Swap(Blocks):
    """neighbouring assignments that do not depend on each other and do not call anything are swapped"""
    def simple(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and all(
            not isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.Yield, ast.NamedExpr)) or (isinstance(x, ast.Call) and ast.unparse(x.func) in ('np.zeros', 'np.array', 'np.full', 'len', 'range', 'np.arange', 'np.zeros_like', 'np.isnan', 'np.logical_and'))
            or isinstance(x, ast.Attribute) and ast.unparse(x).startswith('np.') for x in ast.walk(s.value))

    def block(self, b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if self.simple(x) and self.simple(y):
                rx = {n.id for n in ast.walk(x.value) if isinstance(n, ast.Name)}
                ry = {n.id for n in ast.walk(y.value) if isinstance(n, ast.Name)}
                wx, wy = x.targets[0].id, y.targets[0].id
                if wx != wy and wx not in ry and wy not in rx:
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b


class KwArgs(ast.NodeTransformer):
    """keyword arguments of calls are given in reverse order"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords) and sum(not isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript)) for k in n.keywords) <= 1:
            n.keywords = n.keywords[::-1]
        return n


class AugPlain(Blocks):
    """i += 1 -> i = i + 1 (constants only)"""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
            return ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))
        return s


class PosKw(ast.NodeTransformer):
    """positional arguments of calls of functions of the module become keyword arguments"""
    def visit_Module(self, n):
        self.defs = {f.name: [a.arg for a in f.args.args] for f in n.body if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.decorator_list}
        return self.generic_visit(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.defs and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            d = self.defs[n.func.id]
            if len(n.args) <= len(d):
                n.keywords = [ast.keyword(d[i], a) for i, a in enumerate(n.args)] + n.keywords
                n.args = []
        return n


class InlineTemp(Blocks):
    """x = e; S using x once (x used nowhere else) -> S with e"""
    def block(self, b):
        uses = {}
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Name):
                uses[x.id] = uses.get(x.id, 0) + 1
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if (i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and uses.get(s.targets[0].id) == 2
                    and isinstance(b[i + 1], (ast.Assign, ast.Expr, ast.Return)) and not is_doc(b[i + 1]) and b[i + 1].value is not None):
                t = s.targets[0].id
                nx = b[i + 1]
                # the first thing evaluated
                hit = [x for x in ast.walk(nx.value) if isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Load)]
                inner = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) for x in ast.walk(nx.value))
                first = next((x for x in ordered(nx.value) if not isinstance(x, ast.Constant)), None)
                if len(hit) == 1 and not inner and first is hit[0]:
                    class R(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return s.value if n is hit[0] else n
                    nx.value = R().visit(nx.value)
                    out.append(nx)
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


def ordered(e):
    """leaves that are evaluated, in order (module names such as np are skipped)"""
    for c in ast.iter_child_nodes(e):
        yield from ordered(c)
    if isinstance(e, ast.Name) and e.id not in ('np', 'tb', 'math', 'geometry_utils', 'analysis_utils', 'logging', 'os', 'range', 'len', 'int', 'float', 'list', 'tuple'):
        yield e


class LiftDead(Blocks):
    """adds a log message to the start of every function"""
    def visit_FunctionDef(self, n):
        n = super().visit_FunctionDef(n)
        if any('jit' in ast.unparse(d) for d in n.decorator_list) or self.fn is not None:
            return n
        k = 1 if is_doc(n.body[0]) else 0
        n.body.insert(k, ast.parse("_unused = None").body[0])
        return n


# ---------------------------------------------------------------- helpers from runs of statements
def reads_writes(nodes):
    r, w = set(), set()
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                (r if isinstance(x.ctx, ast.Load) else w).add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                r.add(x.target.id)
    return r, w


class Extract(Blocks):
    def __init__(self, seed, p=0.3):
        super().__init__()
        self.r = random.Random(seed)
        self.p = p
        self.new = []

    def definitely(self, run):
        """names assigned on the straight line of the run"""
        w = set()
        for s in run:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    w |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return w

    def visit_Module(self, n):
        self.modnames = {t.id for s in n.body for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and isinstance(s, ast.Assign)}
        body = []
        self.outer = [f for s in n.body for f in ([s] if isinstance(s, ast.FunctionDef) else s.body if isinstance(s, ast.ClassDef) else []) if isinstance(f, ast.FunctionDef)
                      and not any('jit' in ast.unparse(d) for d in f.decorator_list)]
        for s in n.body:
            self.top = s
            k = len(self.new)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = self.visit(s)
            body += self.new[k:] + [s]
        n.body = body
        return n

    def block(self, b):
        fn = self.fn
        if fn is None or fn not in self.outer or len(b) < 4 or self.r.random() > self.p:
            return b
        # only functions at the top of the module or methods
        k = self.r.randint(2, min(6, len(b) - 1))
        i = self.r.randint(0, len(b) - k)
        run = b[i:i + k]
        if any(is_doc(s) for s in run):
            return b
        for s in run:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Raise, ast.NamedExpr, ast.Delete, ast.Import, ast.ImportFrom)):
                    return b
                if isinstance(x, ast.Name) and x.id in ('locals', 'super'):
                    return b
        locs = {a.arg for x in [fn] for a in x.args.args + x.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
        _, w_all = reads_writes(fn.body)
        locs |= w_all
        inner = {f.name for f in ast.walk(fn) if isinstance(f, ast.FunctionDef) and f is not fn}
        inner |= {(a.asname or a.name).split('.')[0] for f in ast.walk(fn) if isinstance(f, (ast.Import, ast.ImportFrom)) for a in f.names}
        if inner & {x.id for s in run for x in ast.walk(s) if isinstance(x, ast.Name)}:
            return b
        comp = set()
        for s in run:
            for x in ast.walk(s):
                if isinstance(x, ast.comprehension):
                    comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                if isinstance(x, ast.ExceptHandler) and x.name:
                    comp.add(x.name)
        r, w = reads_writes(run)
        w -= comp
        d = self.definitely(run)
        # names read elsewhere in the function
        out_of = copy.deepcopy
        others = set()
        ids = {id(x) for s in run for x in ast.walk(s)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in ids:
                others.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and id(x) not in ids:
                others.add(x.target.id)
        rets = sorted(w & others)
        # every variable returned must be given a value on the straight line, unless it comes in
        sure = self.known(fn, b, i)
        inout = {v for v in rets if v not in d}
        if inout - sure:
            return b
        # variables read in the run: must be there before, or be set inside first
        first_set, need = set(), set()
        for s in run:
            rr, ww = reads_writes([s])
            need |= {v for v in rr if v in locs and v not in first_set} - comp
            first_set |= self.definitely([s])
        need = {v for v in need if v in sure or v not in w}
        if any(v not in sure for v in need):
            return b
        params = sorted(need | (inout & sure))
        if not set(params) <= sure:
            return b
        self.n += 1
        h = '_%s_part_%d' % (fn.name.strip('_'), self.n)
        body = [copy.deepcopy(s) for s in run]
        call = ast.Call(name(h), [name(p) for p in params], [])
        if rets:
            body.append(ast.Return(name(rets[0]) if len(rets) == 1 else ast.Tuple([name(v) for v in rets], ast.Load())))
            rep = ast.Assign([name(rets[0], ast.Store()) if len(rets) == 1 else ast.Tuple([name(v, ast.Store()) for v in rets], ast.Store())], call)
        else:
            rep = ast.Expr(call)
        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body, [], None))
        return b[:i] + [rep] + b[i + k:]

    def known(self, fn, b, i):
        """names that have a value before statement i of block b, on the straight line from the start of the function"""
        sure = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())

        def down(blk):
            """list of statements before b on the path, or None"""
            acc = set()
            if blk is b:
                for s in b[:i]:
                    acc |= self.definitely([s])
                    if isinstance(s, ast.If):
                        acc |= self.definitely(s.body) & self.definitely(s.orelse)
                    if isinstance(s, ast.With):
                        acc |= self.definitely(s.body) | {x.id for it in s.items if it.optional_vars is not None for x in ast.walk(it.optional_vars) if isinstance(x, ast.Name)}
                return acc
            for s in blk:
                for f in ('body', 'orelse', 'finalbody'):
                    c = getattr(s, f, None)
                    if isinstance(c, list) and c and isinstance(c[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        r = down(c)
                        if r is not None:
                            r = r | acc
                            if isinstance(s, ast.For) and f == 'body':
                                r |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                            if isinstance(s, ast.With):
                                r |= {x.id for it in s.items if it.optional_vars is not None for x in ast.walk(it.optional_vars) if isinstance(x, ast.Name)}
                            return r
                for h in getattr(s, 'handlers', []):
                    r = down(h.body)
                    if r is not None:
                        return r | acc
                acc |= self.definitely([s])
                if isinstance(s, ast.If):
                    acc |= self.definitely(s.body) & self.definitely(s.orelse)
                if isinstance(s, ast.With):
                    acc |= self.definitely(s.body)
            return None
        r = down(fn.body)
        return sure | (r or set())


class Exprs(ast.NodeTransformer):
    """random expressions become helper functions of the module"""
    def __init__(self, seed, p=0.06):
        self.r, self.p, self.new, self.n, self.fns = random.Random(seed), p, [], 0, []

    def visit_Module(self, n):
        self.mod = {t.id for s in n.body for t in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and isinstance(t, ast.Name)} | {s.name for s in n.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        body = []
        for s in n.body:
            k = len(self.new)
            s = self.visit(s)
            body += self.new[k:] + [s]
        n.body = body
        return n

    def visit_FunctionDef(self, n):
        if any('jit' in ast.unparse(d) for d in n.decorator_list):
            return n
        self.fns.append(n)
        a = n.args
        loc = {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        old = getattr(self, 'loc', None)
        self.loc = loc | (old or set())
        n.body = [self.visit(s) for s in n.body]
        self.loc = old
        self.fns.pop()
        return n

    def visit_Lambda(self, n):
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Global = visit_Nonlocal = visit_Lambda

    def visit(self, n):
        if self.fns and isinstance(n, (ast.BinOp, ast.Compare, ast.BoolOp, ast.Call, ast.Subscript)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and self.r.random() < self.p:
            ok = not any(isinstance(x, (ast.Lambda, ast.comprehension, ast.Yield, ast.NamedExpr, ast.Await, ast.Starred)) for x in ast.walk(n))
            ns = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            inner = {f.name for g in self.fns for f in ast.walk(g) if isinstance(f, ast.FunctionDef)}
            inner |= {(a.asname or a.name).split('.')[0] for g in self.fns for f in ast.walk(g) if isinstance(f, (ast.Import, ast.ImportFrom)) for a in f.names}
            inner |= {h.name for g in self.fns for h in ast.walk(g) if isinstance(h, ast.ExceptHandler) and h.name}
            if ok and 'super' not in ns and 'locals' not in ns and not ns & inner and ns & self.loc and len(list(ast.walk(n))) > 8:
                params = sorted(ns & self.loc)
                self.n += 1
                h = '_%s_value_%d' % (self.fns[-1].name.strip('_'), self.n)
                self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(q) for q in params], None, [], [], None, []), [ast.Return(copy.deepcopy(n))], [], None))
                return ast.Call(ast.Name(h, ast.Load()), [ast.Name(q, ast.Load()) for q in params], [])
        return super().visit(n)


T = {c.__name__: c for c in (Nop, ReturnTemp, InvertIf, SplitAnd, NestIf, Guard, EarlyReturn, Flip, DeMorgan, Hoist, HoistIndex, TestTemp, Comp, Enum, WithSplit, WithTry, Ternary, ToTernary,
                             TupleSplit, TupleJoin, Chain, Format, FString, Rename, Swap, KwArgs, AugPlain, PosKw, InlineTemp, LiftDead)}


def rewrite(what, dst):
    changed = 0
    for root, dirs, files in os.walk(dst):
        dirs[:] = [d for d in dirs if d not in SKIP and d != '__pycache__']
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            src = open(p).read()
            t = ast.parse(src)
            for w in what.split(','):
                if w.startswith('exprs:'):
                    t = Exprs(w + f).visit(t)
                elif w.startswith('extract:'):
                    t = Extract(w + f).visit(t)
                else:
                    t = T[w]().visit(t)
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            compile(new, p, 'exec')
            changed += new != ast.unparse(ast.parse(src))
            open(p, 'w').write(new + '\n')
    return changed


def one(what, ids, keep=False):
    d = '/tmp/refw/' + what.replace(':', '_').replace(',', '+')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(SRC, d + '/beam_telescope_analysis', ignore=shutil.ignore_patterns('tests', '*.so', '__pycache__'))
    n = rewrite(what, d + '/beam_telescope_analysis')
    out = '%s (%d files)\n' % (what, n)

    def run(i):
        r = subprocess.run(['python3', os.environ.get('VERIF', '/verif') + '/check.py', i, '--keys'], env=dict(os.environ, BTA_REPO=d, BTA_EVID=d + '/evid'), capture_output=True, text=True)
        if r.returncode:
            ks = [l[4:] for l in r.stdout.splitlines() if l.startswith('KEY')]
            return '   %s rc=%d %d: %s%s\n' % (i, r.returncode, len(ks), ' || '.join(k[:140] for k in ks[:4]), '' if r.returncode < 2 else (r.stdout + r.stderr)[-500:])
        return ''
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        out += ''.join(ex.map(run, ids))
    if not keep:
        shutil.rmtree(d)
    return out


if __name__ == '__main__':
    ws = sys.argv[1]
    ids = sys.argv[2].split(',') if len(sys.argv) > 2 else IDS
    for w in (list(T) if ws == 'all' else ws.split(' ')):
        print(one(w, ids, 'KEEP' in os.environ), end='', flush=True)
