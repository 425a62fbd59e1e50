"""Definite assignment on every path (flow.Flow client)."""
import ast

from .flow import Flow, atom
from .loader import walk_local, dotted


def locals_of(fn):
    """Names local to the function body (assigned somewhere in it), without parameters."""
    if not hasattr(fn.node, 'body') or isinstance(fn.node, ast.Lambda):
        return set()
    glob = set()
    out = set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                targets(t)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not fn.node:
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in fn.node.body:
        visit(s)
    return (out - glob) - set(fn.all_params) - {fn.vararg, fn.kwarg}


def check_fn(fn, report, entry=None, nonempty=None):
    """Report (name, node, facts) for reads of possibly unassigned locals; returns the number of reads checked."""
    cand = {}
    loc = locals_of(fn)

    class Coarse(Assigned):
        def assume(self, t, pol, f):
            return [f]

        def norm(self, states):
            if not states:
                return states
            d = states[0][1]
            for s in states[1:]:
                d = d | s[1]
            return [(states[0][0], d)]
    c = Coarse(fn, lambda n, node, f: cand.setdefault(n, node), loc, nonempty)
    c.run()
    for v in sorted(cand):
        a = Assigned(fn, report, {v}, nonempty)
        a.entry_facts = entry
        a.run()
    return c.reads


class Assigned(Flow):
    def __init__(self, fn, report, names, nonempty=None):
        self.report = report
        self.locals = names
        self.nonempty = nonempty
        self.reads = 0
        Flow.__init__(self, fn)

    def initial(self):
        return frozenset(self.locals)

    def before_stmt(self, s, states, out):
        for c in getattr(self, 'trystack', [])[-1:]:
            c.extend(states)

    def loop_runs(self, stmt, st):
        return self.nonempty(stmt) if self.nonempty else False

    def expr(self, n, st, out):
        self.walk(n, st, frozenset())
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                st = (st[0].kill({x.target.id}), st[1] - {x.target.id})
        return st

    def walk(self, n, st, bound):
        if n is None:
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in bound:
                self.reads += 1
                if n.id in st[1]:
                    self.report(n.id, n, st[0])
            return
        if isinstance(n, ast.IfExp):
            self.walk(n.test, st, bound)
            for pol, b in ((True, n.body), (False, n.orelse)):
                for f in self.assume(n.test, pol, st[0]):
                    self.walk(b, (f, st[1]), bound)
            return
        if isinstance(n, ast.BoolOp):
            fs = [st[0]]
            for v in n.values:
                for f in fs:
                    self.walk(v, (f, st[1]), bound)
                fs = [g for f in fs for g in self.assume(v, isinstance(n.op, ast.And), f)]
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            sts = [st]
            for g in n.generators:
                for s in sts:
                    self.walk(g.iter, s, frozenset(b))
                b |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    for s in sts:
                        self.walk(c, s, frozenset(b))
                    sts = [(f, s[1]) for s in sts for f in self.assume(c, True, s[0])]
            for s in sts:
                if isinstance(n, ast.DictComp):
                    self.walk(n.key, s, frozenset(b))
                    self.walk(n.value, s, frozenset(b))
                else:
                    self.walk(n.elt, s, frozenset(b))
            return
        if isinstance(n, ast.Lambda):
            return
        for c in ast.iter_child_nodes(n):
            self.walk(c, st, bound)

    def bind(self, target, value, st, out, stmt):
        f, d = st
        names = set()
        if isinstance(target, (ast.Import, ast.ImportFrom)):
            names = {(a.asname or a.name).split('.')[0] for a in target.names}
        elif isinstance(target, (ast.FunctionDef, ast.ClassDef)):
            names = {target.name}
        else:
            for x in ast.walk(target):
                if isinstance(x, ast.Name):
                    if isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                    elif isinstance(x.ctx, ast.Load):
                        self.walk(x, st, frozenset())
        return (f, d - names) if names & d else st

    def aug(self, target, st, out, s):
        if isinstance(target, ast.Name):
            if target.id in self.locals:
                self.reads += 1
                if target.id in st[1]:
                    self.report(target.id, target, st[0])
        return st

    def s_Delete(self, s, states, out):
        res = []
        for f, d in states:
            for t in s.targets:
                if isinstance(t, ast.Name):
                    f, d = f.kill({t.id}), d | {t.id}
                else:
                    self.walk(t, (f, d), frozenset())
            res.append((f, d))
        return res
