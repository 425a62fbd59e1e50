"""Calls between functions of the package: who is called, and which argument each parameter gets."""
import ast

from .loader import dotted


def callee(prog, fn, f):
    d = dotted(f)
    if d is None:
        return None, 0
    if d.startswith('self.') and fn.cls is not None and d.count('.') == 1:
        m = prog.find_method(fn.cls, d[5:])
        return (m, 1) if m is not None else (None, 0)
    r = prog.resolve_in_module(fn.module, d)
    if r is not None and r[0] == 'cls':
        m = prog.find_method(r[1], '__init__')
        return (m, 1) if m is not None else (None, 0)
    if r is not None and r[0] == 'fn':
        return r[1], 0
    return None, 0


def bound(g, skip, call):
    """parameter -> argument expression; None if arguments are spread."""
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args][skip:]
    got = {}
    for k, e in enumerate(call.args):
        if isinstance(e, ast.Starred):
            return None
        if k < len(names):
            got[names[k]] = e
    for k in call.keywords:
        if k.arg is None:
            return None
        got[k.arg] = k.value
    return got


def handed(prog, fn, call):
    """Calls through another call: the function and the dictionary of its arguments."""
    kw = {k.arg: k.value for k in call.keywords if k.arg}
    pairs = [(kw.get(f), kw.get(a)) for f, a in (('func', 'func_kwargs'), ('target', 'kwargs'), ('func', 'kwds'))]
    if call.args and (dotted(call.func) or '').split('.')[-1] in ('apply_async', 'apply'):
        pairs.append((call.args[0], kw.get('kwds')))
    for f, a in pairs:
        if f is not None and isinstance(a, ast.Dict) and all(isinstance(k, ast.Constant) for k in a.keys):
            g, skip = callee(prog, fn, f)
            if g is not None:
                yield g, {k.value: v for k, v in zip(a.keys, a.values)}
