"""Behaviour-preserving normalisation of an (inlined) function body, so that rules do not depend on how it is spelled.

split   a, b = x, y            -> a = x; b = y              (when no target is used by a later value)
unroll  for t in (a, b): ..    -> the body once per element  (display of at most 8 elements, no break/continue/else)
copies  n = path; .. n ..      -> .. path ..                 (n assigned once, every use below it in the same block,
                                                              nothing the path depends on is stored in between)
"""
import ast


from .flow import path_of
from .loader import clone


def nodes(stmts):
    for s in stmts:
        for x in ast.walk(s):
            yield x


def blocks_of(node):
    for n in ast.walk(node):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, k, b


def pure(n):
    """Name, attribute chain or subscript by names and constants."""
    if isinstance(n, ast.Name):
        return True
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and (isinstance(n.slice, ast.Constant) or pure(n.slice))
    return False


class Subst(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return ast.copy_location(clone(self.value), n)
        return n


def split(node):
    for parent, k, b in list(blocks_of(node)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                    and len(s.targets[0].elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts):
                ts, vs = s.targets[0].elts, s.value.elts
                names = [{x.id for x in ast.walk(t) if isinstance(x, ast.Name)} for t in ts]
                if not any(names[i] & {x.id for x in ast.walk(vs[j]) if isinstance(x, ast.Name)} for i in range(len(ts)) for j in range(i + 1, len(vs))):
                    for t, v in zip(ts, vs):
                        out.append(ast.copy_location(ast.Assign([t], v), s))
                    continue
            out.append(s)
        setattr(parent, k, out)


def unroll(node):
    changed = False
    for parent, k, b in list(blocks_of(node)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Tuple, ast.List)) and 0 < len(s.iter.elts) <= 8 \
                    and all(pure(e) or isinstance(e, ast.Constant) or (isinstance(e, (ast.Tuple, ast.List)) and all(pure(x) or isinstance(x, ast.Constant) for x in e.elts)) for e in s.iter.elts) \
                    and not any(isinstance(x, (ast.Break, ast.Continue)) for x in nodes(s.body)):
                for e in s.iter.elts:
                    out.append(ast.copy_location(ast.Assign([clone(s.target)], clone(e)), s))
                    body = clone(s.body)
                    pairs = [(s.target, e)] if isinstance(s.target, ast.Name) else list(zip(s.target.elts, e.elts)) if isinstance(s.target, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)) and len(s.target.elts) == len(e.elts) else []
                    for t, x in pairs:
                        if isinstance(t, ast.Name) and isinstance(x, ast.Constant) and not any(isinstance(y, ast.Name) and y.id == t.id and not isinstance(y.ctx, ast.Load) for y in nodes(body)):
                            body = [Subst(t.id, x).visit(y) for y in body]
                    out += body
                changed = True
                continue
            out.append(s)
        setattr(parent, k, out)
    return changed


def dicts(node):
    """Loops over a dictionary display that is bound once, and constant subscripts of it, are written out."""
    params = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs} if hasattr(node, 'args') else set()
    cnt, vals, touched = {}, {}, set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            cnt[x.id] = cnt.get(x.id, 0) + 1
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Dict):
            vals[x.targets[0].id] = x.value
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
            touched.add(x.value.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr not in ('items', 'keys', 'values', 'get'):
            touched.add(x.func.value.id)

    def stable(e):
        return isinstance(e, ast.Constant) or isinstance(e, ast.Name) and cnt.get(e.id, 0) + (e.id in params) <= 1

    good = {n: d for n, d in vals.items() if cnt.get(n) == 1 and n not in params and n not in touched and d.keys and all(isinstance(k, ast.Constant) for k in d.keys) and all(stable(v) for v in d.values)}
    if not good:
        return False
    changed = False
    for x in ast.walk(node):
        if isinstance(x, ast.For):
            it, how = x.iter, None
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and isinstance(it.func.value, ast.Name) and it.func.value.id in good and not it.args and it.func.attr in ('items', 'keys', 'values'):
                d, how = good[it.func.value.id], it.func.attr
            elif isinstance(it, ast.Name) and it.id in good:
                d, how = good[it.id], 'keys'
            if how:
                new = [clone(k) if how == 'keys' else clone(v) if how == 'values' else ast.Tuple([clone(k), clone(v)], ast.Load()) for k, v in zip(d.keys, d.values)]
                x.iter = ast.copy_location(ast.Tuple(new, ast.Load()), it)
                changed = True

    class Fold(ast.NodeTransformer):
        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in good and isinstance(n.slice, ast.Constant):
                for k, v in zip(good[n.value.id].keys, good[n.value.id].values):
                    if k.value == n.slice.value:
                        return ast.copy_location(clone(v), n)
            return n
    Fold().visit(node)
    ast.fix_missing_locations(node)
    return changed


def stored_paths(n):
    """Paths bound or changed in place by a statement (only bindings and subscript stores)."""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            p = path_of(x)
            if p:
                out.add(p)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def sub_stores(n):
    """Unparsed subscript expressions that are stored to."""
    return {ast.unparse(x) for x in ast.walk(n) if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del))}


def copies(node, keep=()):
    """One round of copy propagation; True if something changed."""
    args = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs} if hasattr(node, 'args') else set()
    cnt = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            cnt[x.id] = cnt.get(x.id, 0) + 1
        elif isinstance(x, ast.ExceptHandler) and x.name:
            cnt[x.name] = cnt.get(x.name, 0) + 2
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            for nm in x.names:
                cnt[nm] = cnt.get(nm, 0) + 2
    for parent, k, b in blocks_of(node):
        for i, s in enumerate(b):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            nm, v = s.targets[0].id, s.value
            if nm in keep or nm in args or not (pure(v)) or (isinstance(v, ast.Name) and v.id == nm):
                continue
            # uses up to the next assignment of the name in this block
            end = len(b)
            for j in range(i + 1, len(b)):
                if isinstance(b[j], ast.Assign) and isinstance(b[j].targets[0], ast.Name) and b[j].targets[0].id == nm and len(b[j].targets) == 1:
                    if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(b[j].value)):
                        end = None
                    else:
                        end = j
                    break
            if end is None:
                continue
            rest = b[i + 1:end]
            here = sum(1 for x in nodes(rest) if isinstance(x, ast.Name) and x.id == nm)
            if any(isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Load) for x in nodes(rest)):
                continue
            total = sum(1 for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load))
            if cnt.get(nm, 0) == 1:
                if total != here:
                    continue
            else:
                # several assignments: every use must belong to exactly one of these regions
                if not regions(node, nm):
                    continue
            deps = {path_of(x) for x in ast.walk(v) if isinstance(x, (ast.Name, ast.Attribute)) and path_of(x)}
            st, sub = set(), set()
            for r in rest:
                st |= stored_paths(r)
                sub |= sub_stores(r)
            if any(d == p or d.startswith(p + '.') for d in deps for p in st) or ast.unparse(v) in sub:
                continue
            if isinstance(v, ast.Subscript) and any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in nodes(rest)):
                continue
            sb = Subst(nm, v)
            for j in range(i + 1, end):
                b[j] = sb.visit(b[j])
            del b[i]
            if not b:
                b.append(ast.copy_location(ast.Pass(), s))
            return True
    return False


def regions(node, nm):
    """Every load of the name lies below an assignment of it in the block of that assignment (so values never meet)."""
    covered = set()
    for parent, k, b in blocks_of(node):
        cur = False
        for s in b:
            own = isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == nm
            if own:
                if cur:
                    covered |= {id(x) for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id == nm}
                cur = True
            elif cur:
                if any(isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Load) for x in ast.walk(s)):
                    return False
                covered |= {id(x) for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == nm}
    loads = {id(x) for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)}
    return loads <= covered


def normalise(view, keep=(), unroll_loops=True):
    """Normalise a View in place (its node is a private copy)."""
    split(view.node)
    if unroll_loops:
        dicts(view.node)
        for _ in range(3):
            if not unroll(view.node):
                break
            split(view.node)
    for _ in range(400):
        if not copies(view.node, keep):
            break
    if unroll_loops:
        dicts(view.node)
    ast.fix_missing_locations(view.node)
    m = view.fn.module
    for n in ast.walk(view.node):
        n._module = m
        for c in ast.iter_child_nodes(n):
            c._parent = n
    return view
