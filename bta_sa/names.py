"""Names of nodes, columns and attributes of data files: string templates, the columns of tables and arrays, reads and writes.

A template is a string in which INT stands for any number and ANY for any text.
"""
import ast
import itertools
import re

from .calls import bound, callee
from .defs import Defs
from .loader import dotted, walk_local

INT, ANY = '\x01', '\x02'
LIMIT = 64
CREATE = {'create_table', 'create_earray', 'create_carray', 'create_array', 'create_vlarray', 'create_group'}
FUNCS = (ast.FunctionDef, ast.Lambda)


def show(t):
    return t.replace(INT, '%d').replace(ANY, '%s')


def rx(t):
    out = ''
    for c in t:
        out += '(?:\x01|[0-9]+)' if c == INT else '(?:.+)' if c == ANY else re.escape(c)
    return out


def unify(a, b):
    return re.fullmatch(rx(a), b) is not None or re.fullmatch(rx(b), a) is not None


class Scope(object):
    """A function (or lambda, or module) with the functions it is nested in."""

    def __init__(self, module, node, up, fn):
        self.module, self.node, self.up, self.fn = module, node, up, fn
        self.defs = Defs(node) if isinstance(node, ast.FunctionDef) else None


class Names(object):
    def __init__(self, prog, modules):
        self.prog = prog
        self.scopes = {}          # function node -> Scope
        self.byfn = {f.node: f for f in prog.fns.values()}
        for c in prog.classes.values():
            for m in c.methods.values():
                self.byfn[m.node] = m
        self.modules = [m for n, m in sorted(prog.modules.items()) if modules is None or any(n.endswith('.' + x) for x in modules)]
        for m in prog.modules.values():
            self._scan(m, m.tree, None)
        self.callers = {}
        for s in list(self.scopes.values()):
            if s.fn is None:
                continue
            for n in walk_local(s.node):
                if isinstance(n, ast.Call):
                    g, skip = callee(prog, s.fn, n.func)
                    if g is not None:
                        self.callers.setdefault(g.node, []).append((s, n, g, skip))
                        continue
                    # functions handed to a call that are nested here: arguments unknown
        self._str = {}
        self._cols = {}
        self._busy = set()
        self.writers = []         # (templates, scope, node, description expression or None)
        for s in self.scopes.values():
            self._writes(s)

    def _scan(self, m, node, up):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef):
                s = Scope(m, c, up, self.byfn.get(c))
                if s.fn is None and up is not None:
                    s.fn = up.fn
                self.scopes[c] = s
                self._scan(m, c, s)
            else:
                self._scan(m, c, up)

    def fn_scope(self, n):
        """Innermost function around a node."""
        p = getattr(n, '_parent', None)
        while p is not None and p not in self.scopes:
            p = getattr(p, '_parent', None)
        return self.scopes.get(p)

    # -- strings ------------------------------------------------------------------------------------------------

    def strings(self, e, s, seen=()):
        """Templates the string expression may give (ANY if unknown)."""
        key = (id(e), id(s))
        if key in seen or len(seen) > 12:
            return {ANY}
        if key not in self._str:
            out = self._strings(e, s, seen + (key,))
            out = {re.sub('%s+' % ANY, ANY, x) for x in out}
            if len(out) > LIMIT:
                out = {ANY}
            if seen:
                return out
            self._str[key] = out
        return self._str[key]

    def _strings(self, e, s, seen):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                return {e.value}
            if isinstance(e.value, int):
                return {str(e.value)}
            return set() if e.value is None else {ANY}
        if isinstance(e, ast.IfExp):
            return self.strings(e.body, s, seen) | self.strings(e.orelse, s, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.strings(v, s, seen) for v in e.values])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return {a + b for a in self.strings(e.left, s, seen) for b in self.strings(e.right, s, seen)}
        ps = self.parts(e, s, seen)
        if ps is not None:
            out = set()
            for lits, vals in ps:
                for combo in itertools.islice(itertools.product(*vals), LIMIT + 1):
                    out.add(''.join(x + y for x, y in zip(lits, list(combo) + [''])))
            return out or {ANY}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            m = e.func.attr
            if m in ('title', 'lower', 'upper', 'strip', 'capitalize') and not e.args:
                return {x if x == ANY else getattr(x, m)() for x in self.strings(e.func.value, s, seen)}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
            return self.strings(e.args[0], s, seen)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(*[self.strings(x, s, seen) for x in e.elts]) if e.elts else set()
        if isinstance(e, ast.Subscript):
            b = e.value
            if isinstance(b, (ast.List, ast.Tuple)):
                return self.strings(b, s, seen)
            if isinstance(b, ast.Dict):
                return set().union(*[self.strings(x, s, seen) for x in b.values]) if b.values else {ANY}
            if isinstance(b, ast.Name):
                ds = [d for d in self._defs(b.id, s)]
                if ds and all(d.kind == 'expr' and isinstance(d.value, (ast.List, ast.Tuple, ast.Dict)) for d, _ in ds):
                    out = set()
                    for d, sc in ds:
                        for x in (d.value.values if isinstance(d.value, ast.Dict) else d.value.elts):
                            out |= self.strings(x, sc, seen)
                    return out
            return {ANY}
        if isinstance(e, ast.Name):
            return self._name(e, s, seen)
        return {ANY}

    def parts(self, e, s, seen=()):
        """A formatted string: [(literal pieces, what may stand between them)]; None if the expression is no formatting."""
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            out = []
            for f in sorted(self.strings(e.left, s, seen)):
                ps = re.split(r'%[-+ #0]*[0-9]*(?:\.[0-9]+)?([disrfgex%])', f)
                vals = []
                k = 0
                for c in ps[1::2]:
                    if c == '%':
                        vals.append(['%'])
                        continue
                    a = args[k] if k < len(args) else None
                    k += 1
                    if c in 'di':
                        v = {str(a.value)} if isinstance(a, ast.Constant) and isinstance(a.value, int) else {INT}
                    else:
                        v = self.strings(a, s, seen) if a is not None else {ANY}
                    vals.append(sorted(v))
                out.append((ps[0::2], vals))
            return out
        if isinstance(e, ast.JoinedStr):
            lits, vals = [''], []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    lits[-1] += v.value
                else:
                    fs = ''.join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant)) if v.format_spec else ''
                    vals.append(sorted({INT if fs.endswith('d') and not y.isdigit() else y for y in self.strings(v.value, s, seen)}))
                    lits.append('')
            return [(lits, vals)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            kw = {k.arg: k.value for k in e.keywords if k.arg}
            out = []
            for f in sorted(self.strings(e.func.value, s, seen)):
                ps = re.split(r'\{([A-Za-z0-9_]*)(?::([^}]*))?\}', f)
                vals = []
                auto = 0
                for nm, spec in zip(ps[1::3], ps[2::3]):
                    if nm == '' or nm.isdigit():
                        i = int(nm) if nm else auto
                        auto += 1
                        v = e.args[i] if i < len(e.args) else None
                    else:
                        v = kw.get(nm)
                    x = self.strings(v, s, seen) if v is not None else {ANY}
                    if spec and spec.endswith('d'):
                        x = {y if y.isdigit() else INT for y in x}
                    vals.append(sorted(x))
                out.append((ps[0::3], vals))
            return out
        return None

    def readings(self, e, s):
        """Groups of templates; of every group one has to exist: one group for every value of every part of the name."""
        if isinstance(e, ast.Name):
            ds = self._defs(e.id, s)
            if len(ds) == 1 and ds[0][0].kind == 'expr':
                return self.readings(ds[0][0].value, ds[0][1])
        ps = self.parts(e, s)
        if ps is None:
            return [{t} for t in self.strings(e, s)]
        out = []
        for lits, vals in ps:
            for i in range(len(vals)):
                for c in vals[i]:
                    g = set()
                    for combo in itertools.islice(itertools.product(*[vals[j] if j != i else [c] for j in range(len(vals))]), LIMIT):
                        g.add(''.join(x + y for x, y in zip(lits, list(combo) + [''])))
                    out.append(g)
            if not vals:
                out.append({lits[0]})
        return out

    def _defs(self, name, s):
        """[(Def, Scope)] of a name as seen in a scope."""
        while s is not None:
            ds = s.defs.of(name) if s.defs is not None else []
            if ds:
                return [(d, s) for d in ds]
            s = s.up
        return []

    def _inner(self, e):
        """The loop or comprehension around the name that gives it its value."""
        n, c = getattr(e, '_parent', None), e
        while n is not None and not isinstance(n, FUNCS):
            if isinstance(n, ast.For) and c is not n.iter and any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(n.target)):
                return n
            for g in getattr(n, 'generators', ()):
                if any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(g.target)):
                    return g
            n, c = getattr(n, '_parent', None), n
        return None

    def _name(self, e, s, seen):
        name = e.id
        ds = self._defs(name, s)
        loop = self._inner(e)
        if loop is not None and sum(d.kind == 'expr' and any(x is d.stmt for x in ast.walk(loop)) for d, _ in ds) == 0:
            ds = [(d, sc) for d, sc in ds if d.stmt is loop] or ds
        if not ds:
            v = s.module.globals.get(name) if s is not None else None
            return self.strings(v, s, seen) if v is not None else {ANY}
        out = set()
        for d, sc in ds:
            if d.kind == 'expr':
                out |= self.strings(d.value, sc, seen)
            elif d.kind == 'iter' and isinstance(d.value, (ast.List, ast.Tuple, ast.Set)):
                for x in d.value.elts:
                    for i in d.path:
                        x = x.elts[i] if isinstance(x, (ast.List, ast.Tuple)) and i < len(x.elts) else None
                    out |= self.strings(x, sc, seen) if x is not None else {ANY}
            elif d.kind == 'iter' and isinstance(d.value, ast.Name) and not d.path:
                for d2, sc2 in self._defs(d.value.id, sc):
                    if d2.kind == 'expr' and isinstance(d2.value, (ast.List, ast.Tuple)):
                        out |= self.strings(d2.value, sc2, seen)
                    else:
                        out.add(ANY)
            elif d.kind == 'iter' and isinstance(d.value, ast.Call) and dotted(d.value.func) in ('range', 'enumerate') and d.path in ((), (0,)):
                if dotted(d.value.func) == 'range' or d.path == (0,):
                    out.add(INT)
                elif isinstance(d.value.args[0], (ast.List, ast.Tuple)):
                    out |= self.strings(d.value.args[0], sc, seen)
                else:
                    out.add(ANY)
            elif d.kind == 'param':
                out |= self._param(name, sc, seen)
            else:
                out.add(ANY)
        return out or {ANY}

    def _param(self, name, s, seen):
        out = set()
        if s.node in self.byfn:
            f = self.byfn[s.node]
            if name in f.defaults:
                out |= self.strings(f.defaults[name], s, seen)
            for cs, call, g, skip in self.callers.get(s.node, ()):
                b = bound(g, skip, call)
                if b is None or name not in b:
                    continue
                out |= self.strings(b[name], cs, seen)
            return out or {ANY}
        return {ANY}

    # -- writers ------------------------------------------------------------------------------------------------

    def _writes(self, s):
        for n in walk_local(s.node):
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in CREATE:
                kw = {k.arg: k.value for k in n.keywords}
                nm = kw.get('name', n.args[1] if len(n.args) > 1 else None)
                if nm is None:
                    continue
                desc = kw.get('description', n.args[2] if len(n.args) > 2 and n.func.attr == 'create_table' else None)
                if isinstance(nm, ast.Attribute) and nm.attr in ('name', '_v_name'):
                    continue                # copies keep their name
                self.writers.append((self.strings(nm, s), s, n, desc, nm))
            d = dotted(n.func) or ''
            if d.split('.')[-1] == 'SMC':
                kw = {k.arg: k.value for k in n.keywords}
                descs = kw.get('node_desc')
                if isinstance(descs, ast.Name):
                    ds = self._defs(descs.id, s)
                    descs = ds[0][0].value if len(ds) == 1 and ds[0][0].kind == 'expr' else None
                descs = descs.elts if isinstance(descs, (ast.List, ast.Tuple)) else [descs]
                for i, x in enumerate(descs):
                    if isinstance(x, ast.Dict):
                        for k, v in zip(x.keys, x.values):
                            if isinstance(k, ast.Constant) and k.value == 'name':
                                self.writers.append((self.strings(v, s), s, n, ('smc', kw.get('func'), i), v))

    def written(self, t):
        """Writers of nodes of the template."""
        return [w for w in self.writers if any(unify(x, t) for x in w[0])]

    # -- columns ------------------------------------------------------------------------------------------------

    def columns(self, e, s, seen=()):
        """Templates of the columns of a table, array, record description or data type; None if unknown."""
        key = (id(e), id(s))
        if key in seen or len(seen) > 40:
            return set()              # recursion adds nothing
        if key in self._cols:
            return self._cols[key]
        out = self._columns(e, s, seen + (key,))
        if not seen and not self._busy:
            self._cols[key] = out
        return out

    def _union(self, xs):
        out = set()
        for x in xs:
            if x is None:
                return None
            out |= x
        return out or None

    def _field(self, e, s, seen):
        """Column named by one entry (name, type) of a record description."""
        if isinstance(e, ast.Tuple) and len(e.elts) in (2, 3):
            nm = e.elts[0]
            if isinstance(nm, ast.Name):
                ds = self._defs(nm.id, s)
                if ds and all(d.kind == 'iter' and d.path == (0,) for d, _ in ds):
                    # for name, dtype in X.descr
                    return self._union([self.columns(d.value, sc, seen) for d, sc in ds])
            return self.strings(nm, s)
        return self.columns(e, s, seen) if not isinstance(e, ast.Starred) else self.columns(e.value, s, seen)

    def _columns(self, e, s, seen):
        if e is None:
            return None
        if isinstance(e, (ast.List, ast.Tuple)):
            if isinstance(e, ast.List) or all(isinstance(x, ast.Tuple) for x in e.elts):
                if not e.elts:
                    return set()
                if all(isinstance(x, (ast.Tuple, ast.Starred)) for x in e.elts):
                    return self._union([self._field(x, s, seen) for x in e.elts])
                return None
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self._field(e.elt, s, seen) if isinstance(e.elt, ast.Tuple) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.columns(e.left, s, seen), self.columns(e.right, s, seen)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.IfExp):
            a, b = self.columns(e.body, s, seen), self.columns(e.orelse, s, seen)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Attribute):
            if e.attr in ('dtype', 'descr', 'description'):
                return self.columns(e.value, s, seen)
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'root':
                return self.node(e.attr, seen)
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and s.fn is not None and s.fn.cls is not None:
                vs = [(n.value, nm) for m in s.fn.cls.methods.values() for n in walk_local(m.node) for nm in [self.scopes.get(m.node)]
                      if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and dotted(t) == 'self.' + e.attr for t in n.targets)]
                return self._union([self.columns(v, sc, seen) for v, sc in vs]) if vs and all(sc for _, sc in vs) else None
            return None
        if isinstance(e, ast.Subscript):
            if self.is_name_index(e.slice, s):
                return None
            return self.columns(e.value, s, seen)
        if isinstance(e, ast.Call):
            return self._call(e, s, seen)
        if isinstance(e, ast.Name):
            return self._name_columns(e.id, s, seen)
        return None

    def _name_columns(self, name, s, seen):
        ds = self._defs(name, s)
        if not ds:
            if s is None:
                return None
            v = s.module.globals.get(name)
            if v is not None and not isinstance(v, ast.AST):
                v = None
            if v is not None:
                return self.columns(v, Scope(s.module, s.module.tree, None, None), seen)
            tgt = s.module.imports.get(name)
            if tgt and '.' in tgt:
                m = self.prog.modules.get(tgt.rsplit('.', 1)[0])
                if m is not None and m.globals.get(tgt.rsplit('.', 1)[1]) is not None:
                    return self.columns(m.globals[tgt.rsplit('.', 1)[1]], Scope(m, m.tree, None, None), seen)
            return None
        out = set()
        for d, sc in ds:
            if d.kind == 'expr':
                c = self.columns(d.value, sc, seen)
            elif d.kind == 'iter':
                c = self._iterated(d, sc, seen)
            elif d.kind == 'elem':
                c = self._element(d.value, d.path, sc, seen)
            elif d.kind == 'param':
                c = self._param_columns(name, sc, seen)
            elif d.kind == 'aug':
                c = self.columns(d.value, sc, seen)
            else:
                c = None
            if c is None:
                return None
            out |= c
        sc = ds[0][1]
        for n in walk_local(sc.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                    and len(n.args) >= 1:
                if n.func.attr == 'append' and isinstance(n.args[0], ast.Tuple):
                    c = self._field(n.args[0], sc, seen)
                elif n.func.attr == 'extend':
                    c = self.columns(n.args[0], sc, seen)
                elif n.func.attr == 'insert' and len(n.args) > 1:
                    c = self._field(n.args[1], sc, seen)
                else:
                    continue
                if c is None:
                    return None
                out |= c
        return out or None

    def _iterated(self, d, s, seen):
        v = d.value
        if isinstance(v, ast.Call):
            f = (dotted(v.func) or '').split('.')[-1]
            if f == 'data_aligned_at_events' and d.path == (0,) and v.args:
                return self.columns(v.args[0], s, seen)
            if f == 'enumerate' and d.path[:1] == (1,) and v.args:
                if len(d.path) == 1:
                    return self.columns(v.args[0], s, seen)
                if isinstance(v.args[0], ast.Call) and (dotted(v.args[0].func) or '').split('.')[-1] == 'data_aligned_at_events' and d.path == (1, 0):
                    return self.columns(v.args[0].args[0], s, seen)
            return None
        if d.path:
            return None
        return self.columns(v, s, seen) if isinstance(v, ast.Name) else None

    def _element(self, v, path, s, seen):
        if isinstance(v, ast.Call):
            f = (dotted(v.func) or '').split('.')[-1]
            if f == 'next' and v.args:
                a = v.args[0]
                if isinstance(a, ast.Name):
                    for d, sc in self._defs(a.id, s):
                        if d.kind == 'expr' and isinstance(d.value, ast.Call) and (dotted(d.value.func) or '').split('.')[-1] == 'data_aligned_at_events' \
                                and path == (0,):
                            return self.columns(d.value.args[0], sc, seen)
                return None
            if f == 'cluster_hits' and isinstance(v.func, ast.Attribute):
                return self._clusterizer(v.func.value, path, s, seen)
            if s.fn is not None:
                g, _ = callee(self.prog, s.fn, v.func)
                if g is not None and len(path) == 1 and g.node in self.scopes:
                    gs = self.scopes[g.node]
                    rets = [n.value for n in walk_local(g.node) if isinstance(n, ast.Return) and n.value is not None]
                    if rets and all(isinstance(r, ast.Tuple) and len(r.elts) > path[0] for r in rets):
                        return self._union([self.columns(r.elts[path[0]], gs, seen) for r in rets])
        return None

    def _param_columns(self, name, s, seen):
        w = self._worker(name, s, seen)
        if w is not None or s.node not in self.byfn:
            return w
        out = set()
        found = False
        for cs, call, g, skip in self.callers.get(s.node, ()):
            b = bound(g, skip, call)
            if b is None:
                return None
            if name in b:
                found = True
                c = self.columns(b[name], cs, seen)
                if c is None:
                    return None
                out |= c
        return out if found else None

    def _worker(self, name, s, seen):
        """First parameter of a function handed to SMC: rows of the table it processes."""
        if s.up is None or s.node.args.args[:1] == [] or s.node.args.args[0].arg != name:
            return None
        out = None
        for n in walk_local(s.up.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'SMC':
                kw = {k.arg: k.value for k in n.keywords}
                if isinstance(kw.get('func'), ast.Name) and kw['func'].id == s.node.name and kw.get('table') is not None:
                    for t in self.strings(kw['table'], s.up):
                        c = self.node(t, seen)
                        if c is None:
                            return None
                        out = (out or set()) | c
        return out

    def _clusterizer(self, obj, path, s, seen):
        """Columns of the two results of HitClusterizer.cluster_hits: hits and clusters."""
        if not isinstance(obj, ast.Name) or len(path) != 1:
            return None
        top = s
        while top.up is not None:
            top = top.up
        out = None
        for n in walk_local(top.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'HitClusterizer':
                kw = {k.arg: k.value for k in n.keywords}
                d = kw.get('hit_dtype' if path[0] == 0 else 'cluster_dtype')
                c = self.columns(d, top, seen) if d is not None else None
                if c is None:
                    return None
                out = (out or set()) | c
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == ('add_hit_field' if path[0] == 0 else 'add_cluster_field'):
                a = n.args[0] if n.args else {k.arg: k.value for k in n.keywords}.get('description')
                c = self._field(a, top, seen)
                if c is None:
                    return None
                out = (out or set()) | c
        return out

    def _call(self, e, s, seen):
        d = dotted(e.func) or ''
        f = d.split('.')[-1]
        kw = {k.arg: k.value for k in e.keywords}
        if d in ('np.dtype', 'numpy.dtype') and e.args:
            return self.columns(e.args[0], s, seen)
        if d in ('list', 'sorted', 'tuple') and e.args:
            return self.columns(e.args[0], s, seen)
        if f in ('empty', 'zeros', 'ones', 'full', 'array', 'asarray', 'fromiter', 'rec.array', 'empty_like', 'zeros_like'):
            t = kw.get('dtype')
            if t is None and f in ('empty', 'zeros', 'ones') and len(e.args) > 1:
                t = e.args[1]
            if t is not None:
                return self.columns(t, s, seen)
            if e.args and f in ('array', 'asarray', 'empty_like', 'zeros_like'):
                return self.columns(e.args[0], s, seen)
            return None
        if f in ('append', 'concatenate', 'hstack') and d.split('.')[0] in ('np', 'numpy'):
            a = e.args[0] if e.args else kw.get('arr')
            if isinstance(a, (ast.List, ast.Tuple)):
                return self._union([self.columns(x, s, seen) for x in a.elts])
            return self.columns(a, s, seen) if a is not None else None
        if f == 'create_table':
            return self.columns(kw.get('description', e.args[2] if len(e.args) > 2 else None), s, seen)
        if f == 'get_node':
            nm = kw.get('name', e.args[1] if len(e.args) > 1 else e.args[0] if e.args else None)
            if nm is None:
                return None
            out = set()
            for t in self.strings(nm, s):
                c = self.node(t.lstrip('/'), seen)
                if c is None:
                    return None
                out |= c
            return out or None
        if isinstance(e.func, ast.Attribute) and f in ('copy', 'read', 'astype', 'view', 'where', 'read_where'):
            return self.columns(e.func.value, s, seen)
        if f in ('table_where', 'deepcopy') and (e.args or kw.get('arr') is not None):
            return self.columns(kw.get('arr', e.args[0] if e.args else None), s, seen)
        if s is not None and s.fn is not None:
            g, _ = callee(self.prog, s.fn, e.func)
            if g is not None and g.node in self.scopes:
                gs = self.scopes[g.node]
                rets = [n.value for n in walk_local(g.node) if isinstance(n, ast.Return) and n.value is not None]
                if rets:
                    return self._union([self.columns(r, gs, seen) for r in rets])
        return None

    def node(self, t, seen=()):
        """Columns of the tables stored under a template."""
        key = ('node', t)
        if key in self._cols:
            return self._cols[key]
        if key in self._busy:
            return set()              # recursion adds nothing
        self._busy.add(key)
        seen = ()
        out = set()
        for tmpl, s, n, desc, _ in self.writers:
            if not any(x != ANY and unify(x, t) for x in tmpl):
                continue
            if isinstance(desc, tuple):
                c = self._returned(desc[1], desc[2], s, seen)
            elif desc is not None:
                c = self.columns(desc, s, seen)
            else:
                c = None
            if c is None:
                out = None
                break
            out |= c
        if out is not None:
            out |= self.extra.get(t, set())
        out = out or None
        self._busy.discard(key)
        if not self._busy:
            self._cols[key] = out
        return out

    extra = {}

    def _returned(self, func, i, s, seen):
        """Columns of the i-th result of a function nested in the scope."""
        if not isinstance(func, ast.Name):
            return None
        for c, sc in self.scopes.items():
            if sc.up is s and c.name == func.id:
                rets = [n.value for n in walk_local(c) if isinstance(n, ast.Return) and n.value is not None]
                out = set()
                for r in rets:
                    if isinstance(r, ast.Tuple):
                        if i >= len(r.elts):
                            return None
                        r = r.elts[i]
                    x = self.columns(r, sc, seen)
                    if x is None:
                        return None
                    out |= x
                return out or None
        return None

    def is_name_index(self, i, s):
        """Is the index a column name (or a list of names)?"""
        return bool(self.index_names(i, s))

    def index_names(self, i, s):
        """[(node, templates)] of the column names of an index."""
        if isinstance(i, ast.List):
            out = []
            for x in i.elts:
                r = self.index_names(x, s)
                if not r:
                    return []
                out += r
            return out
        if isinstance(i, ast.Constant):
            return [(i, {i.value})] if isinstance(i.value, str) else []
        if isinstance(i, (ast.JoinedStr,)) or (isinstance(i, ast.BinOp) and isinstance(i.op, (ast.Mod, ast.Add))) or isinstance(i, ast.Call):
            if isinstance(i, ast.Call) and not (isinstance(i.func, ast.Attribute) and i.func.attr == 'format'):
                return []
            t = self.strings(i, s)
            if all(x in (ANY, INT) or re.fullmatch('[0-9\x01\x02]+', x) for x in t):
                return []
            return [(i, t)]
        if isinstance(i, ast.Name):
            t = self.strings(i, s)
            if t and all(x not in (ANY, INT) and not re.fullmatch('[0-9\x01\x02]+', x) for x in t):
                return [(i, t)]
        return []
