"""Names and keyword parameters of installed third-party modules, read from their stubs/sources (parsed, not imported)."""
import ast
import glob
import os
import sys

SITE = [p for p in glob.glob('/opt/venv/lib/python3*/site-packages')] + [p for p in ('/usr/lib/python3.12',) if os.path.isdir(p)]


class Api(object):
    def __init__(self):
        self.cache = {}
        self.kw = {}

    def locate(self, mod):
        parts = mod.split('.')
        for base in SITE:
            p = os.path.join(base, *parts)
            for c in (os.path.join(p, '__init__.pyi'), p + '.pyi', os.path.join(p, '__init__.py'), p + '.py'):
                if os.path.exists(c):
                    return c
        return None

    def tree(self, mod):
        if mod in self.cache:
            return self.cache[mod]
        p = self.locate(mod)
        t = None
        if p:
            try:
                with open(p, encoding='utf-8') as fh:
                    t = ast.parse(fh.read())
                t._path = p
            except (SyntaxError, UnicodeDecodeError):
                t = None
        self.cache[mod] = t
        return t

    def members(self, mod, seen=()):
        """All names bound at the top level of a module, or None when they cannot be determined."""
        key = ('m', mod)
        if key in self.cache:
            return self.cache[key]
        if mod.split('.')[0] in sys.stdlib_module_names:
            try:
                import importlib
                self.cache[key] = set(dir(importlib.import_module(mod)))
            except ImportError:
                self.cache[key] = None
            return self.cache[key]
        t = self.tree(mod)
        if t is None or mod in seen:
            return None
        out = {'__name__', '__file__', '__doc__', '__version__', '__path__', '__all__', '__dict__'}
        pkg = os.path.basename(t._path).startswith('__init__')
        unknown = False
        todo = list(t.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    todo += getattr(n, f, []) or []
                for h in getattr(n, 'handlers', []) or []:
                    todo += h.body
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
                if n.name == '__getattr__' and not t._path.endswith('.pyi'):
                    unknown = True
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = mod.split('.')
                    if not pkg:
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        s = self.members(base, seen + (mod,))
                        if s is None:
                            unknown = True
                        else:
                            out |= {x for x in s if not x.startswith('_')}
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(tg):
                        if isinstance(x, ast.Name):
                            out.add(x.id)
            elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
                # e.g. globals().update(...)
                if 'globals' in ast.dump(n):
                    unknown = True
        if pkg:
            d = os.path.dirname(t._path)
            for f in os.listdir(d):
                b = f.split('.')[0]
                if f.endswith(('.py', '.pyi', '.so')) or os.path.isdir(os.path.join(d, f)):
                    out.add(b)
        res = None if unknown else out
        self.cache[key] = res
        return res

    def is_module(self, mod):
        return self.tree(mod) is not None

    def function(self, mod, name):
        """All definitions (overloads) of a function at the top level, following one level of re-export."""
        key = ('f', mod, name)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = None
        t = self.tree(mod)
        res = None
        if t is not None:
            defs = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.name == name and n in t.body]
            if defs:
                res = defs
            else:
                pkg = os.path.basename(t._path).startswith('__init__')
                for n in ast.walk(t):
                    if isinstance(n, ast.ImportFrom):
                        for a in n.names:
                            if (a.asname or a.name) == name:
                                base = n.module or ''
                                if n.level:
                                    pk = mod.split('.')
                                    if not pkg:
                                        pk = pk[:-1]
                                    pk = pk[:len(pk) - (n.level - 1)]
                                    base = '.'.join(pk + ([n.module] if n.module else []))
                                res = self.function(base, a.name)
                                break
                    if res:
                        break
        self.cache[key] = res
        return res

    def bad_keywords(self, mod, name, kws, npos):
        """Keywords no overload accepts."""
        defs = self.function(mod, name)
        if not defs:
            return None
        names = set()
        maxpos = 0
        for d in defs:
            a = d.args
            if a.kwarg or a.vararg:
                return None
            if d.decorator_list and not all(isinstance(x, (ast.Name, ast.Attribute)) and 'overload' in ast.dump(x) for x in d.decorator_list):
                # array_function_dispatch etc. keep the signature
                pass
            names |= {p.arg for p in a.args + a.kwonlyargs}
            maxpos = max(maxpos, len(a.args) + len(a.posonlyargs))
        bad = [k for k in kws if k is not None and k not in names]
        if npos > maxpos:
            bad.append('%d positional arguments' % npos)
        return bad
