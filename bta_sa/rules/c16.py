"""C16: no combination of options runs into an undefined name or a wrong call.

R1 unbound    - on every path through a function each local variable is assigned before it is read
R2 undefined  - every global name, package-module member and third-party module member exists
R3 attribute  - every attribute used on an instance of a package class is defined by the class or a subclass
R4 call       - every call of a package function/class/method passes arguments its signature accepts
R5 format     - the number of values of a % format agrees with its placeholders
R6 keyword    - keywords passed to third-party functions exist in every installed signature
R7 ragged     - lists of lists of different lengths (the regions of a Voronoi diagram) are not made into a numeric array, and a rectangle to be drawn is not given arrays (differences of arrays) as its size
"""
import ast
import builtins
import os
import re

from ..loader import Program, walk_local, dotted, pos, PKG, AnalysisError
from ..assigned import check_fn, locals_of
from ..flow import entry_facts
from ..interp import Interp, Plugin
from ..model import Model
from ..extapi import Api

ID = 'C16'
TECHNIQUE = ('path-sensitive definite-assignment dataflow (property simulation), name/attribute resolution against the parsed package and the '
             'stubs of installed libraries, and signature checking of resolved calls')
MINIMUM = {'functions': 260, 'variable_reads': 18000, 'calls_checked': 400, 'external_members': 2400, 'instance_attributes': 1500, 'formats': 60}

# one named symbol with a reason per exception
EXCEPT = {
    'unbound|tools.analysis_utils.correlate_hits_on_event_range:corr_start_index':
        'event numbers are non-negative and last_event_number starts at -1, so the first hit always sets the start index',
    'unbound|tools.plot_utils.plot_fit_tracks_statistics:factor':
        'the values are shares between 0 and 1, so the search over 10**-i always succeeds at i == 0',
    'unbound|tools.plot_utils.plot_fit_tracks_statistics:label_extent':
        'the values are shares between 0 and 1, so the search over 10**-i always succeeds at i == 0',
}

SKIP_MODULES = ('.tools.test_tools',)


def nonempty_for(fn, assigned):
    """Loops taken to run at least once: over the chunks of a (non-empty) input table, over a telescope and over
    sequences handed in by the caller, and over literal number ranges (also through local variables)."""
    def nonempty(it, seen):
        if isinstance(it, ast.Call) and (dotted(it.func) or '').split('.')[-1] == 'data_aligned_at_events':
            return True
        if isinstance(it, ast.Constant) and isinstance(it.value, int):
            return it.value > 0
        if isinstance(it, ast.Call) and (dotted(it.func) or '') in ('np.linspace', 'numpy.linspace', 'np.arange') and any(isinstance(a, ast.Constant) and isinstance(a.value, int) and a.value > 0 for a in it.args[2:]):
            return True
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'zip', 'list', 'tuple', 'sorted', 'reversed', 'tqdm', 'len', 'range', 'iter', 'set') and it.args:
            if it.func.id == 'range' and all(isinstance(a, ast.Constant) for a in it.args):
                try:
                    return len(range(*[a.value for a in it.args])) > 0
                except TypeError:
                    return False
            return nonempty(it.args[-1] if it.func.id == 'range' and len(it.args) < 3 else it.args[0], seen)
        if isinstance(it, (ast.Subscript, ast.Attribute)):
            return nonempty(it.value, seen)
        if isinstance(it, (ast.List, ast.Tuple)):
            return bool(it.elts)
        if isinstance(it, ast.IfExp):
            return nonempty(it.body, seen) and nonempty(it.orelse, seen)
        if isinstance(it, ast.Name):
            if it.id in fn.all_params or it.id == 'telescope':
                return True
            vals = assigned.get(it.id)
            if vals and it.id not in seen:
                return all(v is not None and nonempty(v, seen | {it.id}) for v in vals)
        return False
    return lambda s: nonempty(s.iter, frozenset())


def name_assignments(fn):
    """Name -> list of the values assigned to it (None for a value that is not a plain assignment)."""
    d = {}
    plain = set()
    for n in walk_local(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            d.setdefault(n.targets[0].id, []).append(n.value)
            plain.add(n.targets[0])
    for n in walk_local(fn.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n not in plain:
            d.setdefault(n.id, []).append(None)
    return d


class Calls(Plugin):
    name = 'calls'

    def __init__(self, res, prog, attrs):
        self.res, self.prog, self.attrs = res, prog, attrs
        self.ncalls = 0
        self.nattr = 0
        self.sites = set()

    def precall(self, it, fr, env, callee, args, kwargs, n):
        if not isinstance(n, ast.Call) or fr.depth:
            return None
        fn, extra = None, 0
        if callee[0] == 'fn':
            fn = self.prog.fns[callee[1]]
        elif callee[0] == 'bound':
            fn, extra = self.prog.fns[callee[1]], 1
        elif callee[0] == 'clos':
            fn = callee[1]
        elif callee[0] == 'cls':
            c = self.prog.classes[callee[1]]
            fn, extra = self.prog.find_method(c, '__init__'), 1
            if fn is None:
                if (args or kwargs) and all(self.internal(k) for k in self.prog.mro(c)) and '__new__' not in c.methods:
                    self.res.add('call', '%s->%s' % (short(fr.fn), c.name), pos(n), '%s takes no arguments' % c.name)
                return None
        if fn is None:
            return None
        if fn.is_static or fn.is_classmethod:
            extra = 0 if fn.is_static else 1
            if callee[0] == 'bound' and fn.is_static:
                extra = 0
            elif callee[0] == 'fn' and fn.is_classmethod:
                extra = 1
        self.ncalls += 1
        self.sites.add(pos(n))
        if callee[0] == 'bound' and fn.cls is not None and ('tel',) in {o[2] for o in callee[2].obj if o[0] == 'inst'}:
            # a DUT of unknown type: one of the overriding methods has to accept the call
            alts = []
            for c in self.prog.subclasses(fn.cls):
                m = c.methods.get(fn.name)
                if m is not None and m not in alts:
                    alts.append(m)
            if any(self.accepts(m, len(args) + 1, kwargs) for m in alts):
                return None
        if '*' in kwargs or '**' in kwargs:
            kws = [k for k in kwargs if k not in ('*', '**')]
            partial = True
        else:
            kws, partial = list(kwargs), False
        params = fn.params
        npos = len(args) + extra
        where, con = pos(n), '%s->%s' % (short(fr.fn), fn.name)
        if npos > len(params) and not fn.vararg:
            self.res.add('call', con, where, 'passes %d positional arguments, %s takes %d' % (npos - extra, fn.name, len(params) - extra))
            return None
        given = set(params[:npos])
        for k in kws:
            if k in given or (k in fn.posonly):
                self.res.add('call', con + ':' + k, where, 'argument %r of %s given twice' % (k, fn.name))
            elif k not in fn.all_params and not fn.kwarg:
                self.res.add('call', con + ':' + k, where, '%s has no parameter %r' % (fn.name, k))
        if not partial:
            missing = [p for p in fn.all_params if p not in given and p not in kws and p not in fn.defaults]
            if missing:
                self.res.add('call', con + ':missing', where, 'call of %s lacks %s' % (fn.name, ', '.join(missing)))
        return None

    @staticmethod
    def accepts(fn, npos, kwargs):
        if '*' in kwargs or '**' in kwargs:
            return True
        if npos > len(fn.params) and not fn.vararg:
            return False
        given = set(fn.params[:npos])
        if any(k in given or (k not in fn.all_params and not fn.kwarg) for k in kwargs):
            return False
        return all(p in given or p in kwargs or p in fn.defaults for p in fn.all_params)

    def internal(self, c):
        return all(b is None or b == 'object' or (self.prog.resolve_in_module(c.module, b) or (None,))[0] == 'cls' for b in c.bases)

    def known(self, cq, attr):
        c = self.prog.classes.get(cq)
        if c is None:
            return True
        if cq not in self.attrs:
            ok = set(dir(object)) | {'__dict__', '__class__', '__name__', '__module__', '__slots__', '__weakref__'}
            ext = False
            for k in {x for s in self.prog.subclasses(c) for x in self.prog.mro(s)}:
                if not self.internal(k):
                    ext = True
                ok |= set(k.methods) | set(k.props) | set(k.attrs)
                for m in list(k.methods.values()) + [p for pr in k.props.values() for p in pr.values()]:
                    for x in ast.walk(m.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and m.params and x.value.id == m.params[0]:
                            ok.add(x.attr)
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3 and isinstance(x.args[0], ast.Name) and m.params and x.args[0].id == m.params[0] and isinstance(x.args[1], ast.Constant):
                            ok.add(x.args[1].value)
                if '__getattr__' in k.methods:
                    ext = True
            self.attrs[cq] = None if ext else ok
        ok = self.attrs[cq]
        return ok is None or attr in ok

    def attr_load(self, it, fr, env, base, attr, val, node):
        self.attr(fr, base, attr, node)
        return val

    def sub_load(self, it, fr, env, base, idx, val, node):
        if not fr.depth and base.obj and all((o[0] == 'mod') or (o[0] == 'ext' and self.api.is_module(o[1])) for o in base.obj):
            self.res.add('call', '%s:%s[]' % (short(fr.fn), ast.unparse(node.value)), pos(node), 'module %s is subscripted' % ast.unparse(node.value))
        return val

    def attr_store(self, it, fr, env, base, attr, val, node):
        # a class with a __setattr__ of its own restricts the attributes that can be set
        for o in base.obj:
            if o[0] == 'inst':
                c = self.prog.classes.get(o[1])
                if c is not None and self.prog.find_method(c, '__setattr__'):
                    self.attr(fr, base, attr, node)

    def attr(self, fr, base, attr, node):
        if fr.depth:
            return
        insts = [o for o in base.obj if o[0] == 'inst']
        if not insts or len(insts) != len(base.obj):
            return
        self.nattr += 1
        if not any(self.known(o[1], attr) for o in insts):
            names = ','.join(sorted({o[1].split('.')[-1] for o in insts}))
            self.res.add('attribute', '%s:%s.%s' % (short(fr.fn), names, attr), pos(node), 'no attribute %r in class %s or its subclasses' % (attr, names))


def short(fn):
    q = fn.qual
    return q[len(PKG) + 1:] if q.startswith(PKG + '.') else q


def scope_names(fn):
    """Names visible inside fn from enclosing functions (parameters and locals)."""
    out = set()
    f = fn
    while f is not None and hasattr(f, 'all_params'):
        out |= set(f.all_params) | {f.vararg, f.kwarg}
        if not isinstance(f.node, ast.Lambda):
            out |= locals_of(f)
        f = f.parent
    return out


BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__'}


def comp_targets(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                out |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        elif isinstance(x, ast.Lambda):
            a = x.args
            out |= {p.arg for p in a.args + a.kwonlyargs + a.posonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
        elif isinstance(x, ast.NamedExpr):
            out.add(x.target.id)
    return out


def placeholders(fmt):
    i = n = 0
    mapping = False
    for m in re.finditer(r'%(\([^)]*\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', fmt, re.S):
        if m.group(4) == '%':
            continue
        if m.group(1):
            mapping = True
        if m.group(4) not in 'diouxXeEfFgGcrsa':
            return None, mapping
        n += 1 + (m.group(2) == '*') + (m.group(3) == '*')
    return n, mapping


def const_str(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = const_str(n.left), const_str(n.right)
        if a is not None and b is not None:
            return a + b
    return None


def run(prog, res, tier, min_ext=True):
    for r, t in (('unbound', 'each local variable is assigned on every path before it is read'), ('undefined', 'global names and module members exist'),
                 ('attribute', 'attributes of package objects exist'), ('call', 'arguments agree with the signature of the resolved callee'),
                 ('format', '% formats have as many values as placeholders'), ('keyword', 'keywords of third-party functions exist')):
        res.rule(r, t)
    res.assumptions += ['input tables hold at least one event and per-DUT sequences handed in are not empty (loops over them run at least once)',
                        'names bound by exec/eval/setattr with computed names are not seen']
    api = Api()
    compiled = pyx_members(prog)
    prog.compiled = compiled
    fns = [f for q, f in sorted(prog.fns.items()) if not any(s in q for s in SKIP_MODULES)]
    res.cover('functions', len(fns))
    # R1
    ef = entry_facts(prog)
    spare = {}

    def renamed(f, name):
        """a variable listed in EXCEPT that the function does not have any more has got this name"""
        if short(f) not in spare:
            listed = {k.split(':')[1] for k in EXCEPT if k.split('|')[1].split(':')[0] == short(f)}
            spare[short(f)] = [len(listed - {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}), set()]
        n, used = spare[short(f)]
        if name not in used and len(used) < n:
            used.add(name)
        return name in used
    reads = 0
    for f in fns:
        if isinstance(f.node, ast.Lambda):
            continue

        def rep(name, node, facts, f=f):
            con = '%s:%s' % (short(f), name)
            if 'unbound|' + con in EXCEPT or renamed(f, name):
                return
            path = ', '.join('%s is %s' % (' '.join(k), v[0]) for k, v in sorted(facts.d.items(), key=repr) if k[0] != 'or')
            res.add('unbound', con, pos(node), 'variable %r may be read before it is assigned%s' % (name, ' when ' + path if path else ''))
        reads += check_fn(f, rep, ef.get(f.qual), nonempty_for(f, name_assignments(f)))
    res.cover('variable_reads', reads)
    # R2
    nglob = next_ = nkw = 0
    for f in fns:
        vis = scope_names(f) | comp_targets(f.node) | BUILTINS | f.module.global_names
        imports = dict(f.module.imports)
        g = f
        while g is not None:
            imports.update(getattr(g, 'local_imports', {}))
            vis |= set(getattr(g, 'local_imports', {}))
            g = g.parent
        if any(isinstance(d, str) and d for d in ()):
            pass
        shadow = (scope_names(f) | comp_targets(f.node)) - set(getattr(f, 'local_imports', {}))
        for n in walk_local(f.node):
            check_node(n, f, vis, shadow, imports, res, prog, api, short(f))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                nglob += 1
            if isinstance(n, ast.Attribute):
                next_ += 1
    for m in prog.modules.values():
        if any(s in '.' + m.name for s in SKIP_MODULES):
            continue
        con = m.name[len(PKG) + 1:] or 'package'
        todo = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef))]
        for c in m.tree.body:
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                todo += c.decorator_list
        for top in todo:
            for n in ast.walk(top):
                check_node(n, None, BUILTINS | m.global_names | comp_targets(top), comp_targets(top), m.imports, res, prog, api, con, m)
                if isinstance(n, ast.ImportFrom) or isinstance(n, ast.Import):
                    check_import(n, m, res, prog, api, con)
    res.cover('global_name_reads', nglob)
    res.cover('external_members', api.__dict__.get('checked', 0))
    # R3/R4
    attrs = {}
    ncalls = nattr = 0
    sites = set()
    for f in fns:
        if isinstance(f.node, ast.Lambda):
            continue
        pl = Calls(res, prog, attrs)
        pl.api = api
        it = Interp(prog, [Model(), pl], maxdepth=0)
        try:
            it.analyse_entry(f)
        except RecursionError:
            raise AnalysisError('recursion limit in %s' % f.qual)
        ncalls += pl.ncalls
        nattr += pl.nattr
        sites |= pl.sites
    res.cover('calls_checked', len(sites))
    res.cover('instance_attributes', nattr)
    # R7
    for f in fns:
        diagrams = {t.id for n in walk_local(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'Voronoi'
                    for t in n.targets if isinstance(t, ast.Name)}
        for n in walk_local(f.node):
            if diagrams and isinstance(n, ast.Call) and dotted(n.func) in ('np.array', 'np.asarray', 'numpy.array', 'numpy.asarray') and len(n.args) == 1 and not n.keywords \
                    and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == 'regions' and dotted(n.args[0].value) in diagrams:
                res.add('ragged', '%s:regions' % short(f), pos(n), 'the regions of a Voronoi diagram have different numbers of vertices, numpy does not make an array of them')
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'Rectangle':
                for e in n.args[1:3] + [k.value for k in n.keywords if k.arg in ('width', 'height')]:
                    while isinstance(e, ast.Call) and dotted(e.func) in ('np.abs', 'numpy.abs', 'abs', 'np.absolute') and len(e.args) == 1:
                        e = e.args[0]
                    if isinstance(e, ast.Call) and dotted(e.func) in ('np.diff', 'numpy.diff'):
                        res.add('ragged', '%s:rectangle' % short(f), pos(n), 'the size of the rectangle is an array of one number, which matplotlib does not draw')
    # R5
    nfmt = 0
    for m in prog.modules.values():
        if any(s in '.' + m.name for s in SKIP_MODULES):
            continue
        for n in ast.walk(m.tree):
            fmt = args = None
            what = None
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                fmt = const_str(n.left)
                if fmt is None:
                    continue
                k, mapping = placeholders(fmt)
                nfmt += 1
                if mapping or k is None:
                    continue
                if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                    have = len(n.right.elts)
                elif isinstance(n.right, (ast.Constant, ast.BinOp, ast.JoinedStr, ast.Compare, ast.List, ast.ListComp)) or (isinstance(n.right, ast.Call) and dotted(n.right.func) in ('len', 'str', 'int', 'float', 'repr', 'max', 'min')):
                    have = 1
                else:
                    if k == 0:
                        have = 1
                    else:
                        continue
                what = 'format'
            elif isinstance(n, ast.Call) and dotted(n.func) in ('logging.info', 'logging.warning', 'logging.error', 'logging.debug', 'logging.critical') and n.args:
                fmt = const_str(n.args[0])
                if fmt is None or any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                k, mapping = placeholders(fmt)
                nfmt += 1
                if mapping or k is None:
                    continue
                if len(n.args) == 1:
                    continue        # no arguments: the text is not formatted
                have = len(n.args) - 1
                what = 'logging'
            else:
                continue
            if have != k:
                f = enclosing(n)
                res.add('format', '%s:%s' % (f, fmt.strip()[:40].replace('\n', ' ')), pos(n), '%s string has %d placeholders for %d values' % (what, k, have))
    res.cover('formats', nfmt)


def pyx_members(prog):
    """{dotted module: names} of the compiled extension modules, from their Cython sources."""
    d = os.path.join(prog.repo, PKG, 'cpp')
    out = {}
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.endswith('.pyx'):
                with open(os.path.join(d, f)) as fh:
                    out[PKG + '.' + f[:-4]] = set(re.findall(r'^(?:cp)?def\s+(?:\w+\s+)?(\w+)\s*\(', fh.read(), re.M))
    return out


def enclosing(n):
    names = []
    p = n
    m = getattr(n, '_module', None)
    while getattr(p, '_parent', None) is not None:
        p = p._parent
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            names.append(p.name)
    return '.'.join([m.name[len(PKG) + 1:] if m else ''] + names[::-1])


def check_node(n, f, vis, shadow, imports, res, prog, api, con, m=None):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        if n.id not in vis:
            res.add('undefined', '%s:%s' % (con, n.id), pos(n), 'name %r is not defined' % n.id)
    elif isinstance(n, ast.Attribute):
        d = dotted(n)
        if d is None:
            return
        root = d.split('.')[0]
        if root in shadow or root not in imports:
            return
        full = imports[root] + d[len(root):]
        r = prog.resolve(full)
        mod, _, name = full.rpartition('.')
        if full in prog.compiled or name in prog.compiled.get(mod, ()):
            return
        if r[0] == 'missing':
            res.add('undefined', '%s:%s' % (con, d), pos(n), '%r does not exist in the package' % full)
        elif r[0] == 'ext':
            mod, _, name = full.rpartition('.')
            if full.startswith(PKG):
                return
            if api.is_module(mod) or mod.split('.')[0] in __import__('sys').stdlib_module_names:
                mem = api.members(mod)
                if mem is not None:
                    api.checked = getattr(api, 'checked', 0) + 1
                    if name not in mem and not api.is_module(full):
                        res.add('undefined', '%s:%s' % (con, d), pos(n), '%r is not a member of the installed module %s' % (name, mod))
    elif isinstance(n, ast.Call):
        d = dotted(n.func)
        if d is None or '.' not in d:
            return
        root = d.split('.')[0]
        if root in shadow or root not in imports:
            return
        full = imports[root] + d[len(root):]
        mod, _, name = full.rpartition('.')
        if full.startswith(PKG) or not mod.startswith('numpy'):
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        bad = api.bad_keywords(mod, name, [k.arg for k in n.keywords], len(n.args))
        if bad:
            res.add('keyword', '%s:%s(%s)' % (con, d, ','.join(bad)), pos(n), '%s does not accept %s' % (full, ', '.join(bad)))


def check_import(n, m, res, prog, api, con):
    table = {}
    prog_do_import = prog._do_import
    items = []
    if isinstance(n, ast.ImportFrom) and n.level == 0:
        items = [(n.module, a.name) for a in n.names]
    for mod, name in items:
        if mod.startswith(PKG):
            r = prog.resolve(mod + '.' + name)
            if r[0] == 'missing' and mod in prog.modules and mod + '.' + name not in prog.compiled:
                res.add('undefined', '%s:from %s import %s' % (con, mod, name), pos(n), '%s has no member %r' % (mod, name))
        else:
            mem = api.members(mod)
            if mem is not None and name != '*' and not mod.startswith('matplotlib.backends'):    # backends export names dynamically
                api.checked = getattr(api, 'checked', 0) + 1
                if name not in mem:
                    res.add('undefined', '%s:from %s import %s' % (con, mod, name), pos(n), '%s has no member %r' % (mod, name))
