"""Program model: parses every module of the package and resolves imports, functions and classes."""
import ast
import hashlib
import os
import warnings

from .canon import canonical, clone
from .helpers import put_back

REPO = os.environ.get('BTA_REPO', '/repo')
PKG = 'beam_telescope_analysis'


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (error exit, neither 0 nor 1)."""


class Fn(object):
    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module, self.node, self.qual, self.cls, self.parent = module, node, qual, cls, parent
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        a = node.args
        self.posonly = [p.arg for p in a.posonlyargs]
        self.params = self.posonly + [p.arg for p in a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, 'decorator_list', [])]
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_property = 'property' in self.decorators
        body = node.body if isinstance(node.body, list) else []
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(node))

    @property
    def all_params(self):
        return self.params + self.kwonly

    def is_public(self):
        return self.cls is None and self.parent is None and not self.name.startswith('_')

    def __repr__(self):
        return '<Fn %s>' % self.qual


class Cls(object):
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual, self.name = module, node, qual, node.name
        self.methods = {}
        self.props = {}      # name -> {'get': Fn, 'set': Fn}
        self.attrs = {}      # class-level assignments name -> expr
        self.bases = [dotted(b) for b in node.bases]

    def __repr__(self):
        return '<Cls %s>' % self.qual


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.rel = os.path.relpath(path, REPO)
        self.imports = {}    # local name -> dotted target
        self.functions = {}
        self.classes = {}
        self.globals = {}    # name -> last assigned expr
        self.global_names = set()


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else None
    return None


def walk_local(fn_node):
    """Nodes of a function body without those of nested functions and classes (lambdas and comprehensions included)."""
    body = fn_node.body if isinstance(fn_node.body, list) else [fn_node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # defaults and decorators are evaluated here
            stack.extend(n.args.defaults + [d for d in n.args.kw_defaults if d is not None] + n.decorator_list)
        elif not isinstance(n, ast.ClassDef):
            stack.extend(ast.iter_child_nodes(n))


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.fns = {}
        self.classes = {}
        self._load()

    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError('package directory %s not found' % root)
        digest = hashlib.sha256()
        trees = {}
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'testing', 'external', 'build', 'examples'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                with open(path, 'rb') as fh:
                    raw = fh.read()
                digest.update(path.encode() + b'\0' + raw)
                src = raw.decode('utf-8')
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
                name = rel[:-9] if rel.endswith('.__init__') else rel
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (path, e))
                trees[name] = (path, tree, src)
        if os.sep + 'fixtures' + os.sep not in root:
            put_back({n: t[1] for n, t in trees.items()}, PKG)
        for name, (path, tree, src) in trees.items():
            self.modules[name] = Module(name, path, canonical(tree), src)
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            self._index(m)

    def _index(self, m):
        is_pkg = os.path.basename(m.path) == '__init__.py'
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
            n._module = m
        def do_import(n, table):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        table[a.asname] = a.name
                    else:
                        table[a.name.split('.')[0]] = a.name.split('.')[0]
            else:
                base = n.module or ''
                if n.level:
                    pk = m.name.split('.')
                    if not is_pkg:
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    table[a.asname or a.name] = base + '.' + a.name
        self._do_import = do_import
        def visit(stmts):
            for n in stmts:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    do_import(n, m.imports)
                    for a in n.names:
                        m.global_names.add((a.asname or a.name).split('.')[0])
                elif isinstance(n, ast.FunctionDef):
                    f = Fn(m, n, m.name + '.' + n.name)
                    m.functions[n.name] = f
                    m.global_names.add(n.name)
                    self.fns[f.qual] = f
                    self._nested(f)
                elif isinstance(n, ast.ClassDef):
                    c = Cls(m, n, m.name + '.' + n.name)
                    m.classes[n.name] = c
                    m.global_names.add(n.name)
                    self.classes[c.qual] = c
                    self._index_class(c)
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(n, fld, []) or [])
                    for h in getattr(n, 'handlers', []) or []:
                        visit(h.body)
                    if isinstance(n, ast.For):
                        for t in ast.walk(n.target):
                            if isinstance(t, ast.Name):
                                m.global_names.add(t.id)
                elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                m.global_names.add(x.id)
                                m.globals[x.id] = n.value if isinstance(t, ast.Name) else None
        visit(m.tree.body)

    def _nested(self, f):
        f.nested = {}
        f.local_imports = {}
        for n in walk_local(f.node):
            if isinstance(n, ast.FunctionDef):
                g = Fn(f.module, n, f.qual + '.<locals>.' + n.name, parent=f)
                f.nested[n.name] = g
                self.fns[g.qual] = g
                self._nested(g)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self._do_import(n, f.local_imports)

    def _index_class(self, c):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef):
                f = Fn(c.module, n, c.qual + '.' + n.name, cls=c)
                if any(d and d.endswith('.setter') for d in f.decorators):
                    f.qual += '.setter'
                    c.props.setdefault(n.name, {})['set'] = f
                elif any(d and d.endswith('.deleter') for d in f.decorators):
                    f.qual += '.deleter'
                    c.props.setdefault(n.name, {})['del'] = f
                elif f.is_property:
                    f.qual += '.getter'
                    c.props.setdefault(n.name, {})['get'] = f
                else:
                    c.methods[n.name] = f
                self.fns[f.qual] = f
                self._nested(f)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value

    # -- resolution -------------------------------------------------------
    def resolve(self, dotted_name, seen=()):
        """Resolve an absolute dotted name to ('fn', Fn) / ('cls', Cls) / ('mod', Module) / ('global', (Module, name)) / ('ext', dotted)."""
        if dotted_name in self.modules:
            return ('mod', self.modules[dotted_name])
        parts = dotted_name.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                rest = parts[i:]
                name = rest[0]
                if name in m.functions and len(rest) == 1:
                    return ('fn', m.functions[name])
                if name in m.classes:
                    if len(rest) == 1:
                        return ('cls', m.classes[name])
                    meth = self.find_method(m.classes[name], rest[1])
                    if meth and len(rest) == 2:
                        return ('fn', meth)
                if name in m.imports and (dotted_name not in seen):
                    return self.resolve('.'.join([m.imports[name]] + rest[1:]), seen + (dotted_name,))
                if name in m.global_names and len(rest) == 1:
                    return ('global', (m, name))
                return ('missing', dotted_name)
        if parts[0] == PKG:
            return ('missing', dotted_name) if len(parts) > 1 else ('ext', dotted_name)
        return ('ext', dotted_name)

    def mro(self, c, seen=()):
        out = [c]
        for b in c.bases:
            if b is None:
                continue
            r = self.resolve_in_module(c.module, b)
            if r and r[0] == 'cls' and r[1] not in seen:
                for x in self.mro(r[1], seen + (c,)):
                    if x not in out:
                        out.append(x)
        return out

    def resolve_in_module(self, m, name):
        head = name.split('.')[0]
        rest = name.split('.')[1:]
        if head in m.classes:
            return self.resolve('.'.join([m.classes[head].qual] + rest))
        if head in m.functions:
            return self.resolve('.'.join([m.functions[head].qual] + rest)) if not rest else None
        if head in m.imports:
            return self.resolve('.'.join([m.imports[head]] + rest))
        return None

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_prop(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return k.props[name]
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    def fn(self, short):
        """Look up a function by 'module.function' below the package; a vanished anchor is an analysis error."""
        q = PKG + '.' + short
        if q in self.fns:
            return self.fns[q]
        r = self.resolve(q)
        if r[0] == 'fn':
            return r[1]
        raise AnalysisError('anchor vanished: function %s not found' % q)

    def cls(self, short):
        q = PKG + '.' + short
        if q not in self.classes:
            r = self.resolve(q)
            if r[0] == 'cls':
                return r[1]
            raise AnalysisError('anchor vanished: class %s not found' % q)
        return self.classes[q]


PIPELINE_MODULES = ['hit_analysis', 'dut_alignment', 'track_analysis', 'result_analysis',
                    'tools.data_selection', 'converter.pybar_fei4_converter', 'converter.pymosa_converter']


def pipeline_fns(prog, extra=()):
    out = []
    for m in PIPELINE_MODULES + list(extra):
        mod = prog.modules.get(PKG + '.' + m)
        if mod is None:
            raise AnalysisError('anchor vanished: module %s' % m)
        out.extend(mod.functions.values())
    return out


def pos(node):
    m = getattr(node, '_module', None)
    return '%s:%s' % (m.rel if m else '?', getattr(node, '_line', getattr(node, 'lineno', '?')))
