"""C11: tables, columns and histograms are read under the names they are written.

Name templates (numbers and unknown text as wildcards) are resolved for every node created or read, every column used and every attribute of a node (names.py).
R1 node - every node a step reads by name (root.X, get_node, the table of SMC, a comparison with node.name) is created under that name by some step of the package; where the name holds two DUT numbers, reader and writer put the reference DUT at the same place
R2 column - every column used of a table or record array is a field of its description: of the descriptions of the very table where it can be traced, of any table of the package otherwise
R3 array - an array is stored under the name of its variable, and its shape, its type and its content come from one variable
R4 attribute - every attribute read from a node is set on a node by some step
R5 event - the field event_number is a 64-bit signed integer wherever a description has it
"""
import ast
import re
from collections import Counter

from ..calls import bound
from ..loader import dotted, walk_local, pos
from ..names import Names, Scope, unify, show, ANY, INT, CREATE

ID = 'C11'
TECHNIQUE = 'name templates of nodes, columns and attributes resolved over the call graph; producer/consumer match; dataflow from arrays to the nodes they are stored in'
MINIMUM = {'nodes_written': 30, 'nodes_read': 15, 'column_uses': 150, 'arrays': 15}
LEVEL_NOTE = 'static analysis of every node, column and attribute name in the package; which file a step is given at run time is not modelled, the fields of third-party raw data are listed'
MODULES = ['hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'tools.data_selection', 'tools.plot_utils', 'tools.analysis_utils',
           'converter.pymosa_converter', 'converter.pybar_fei4_converter', 'tools.simulate_data']
# columns of raw data written by other programs (pymosa and pyBAR)
RAW = {'plane', 'relative_BCID', 'tot'}
EXTRA_NODES = {'Hits': {'x', 'y', 'z'} | RAW}
WIDE = {'<i8', 'i8', 'int64', 'int', '>i8', '=i8'}


def run(prog, res, tier):
    for k, v in (l.strip().split(' - ', 1) for l in __doc__.splitlines() if re.match(r'R\d', l)):
        res.rule(*[k, v])
    nm = Names(prog, MODULES)
    nm.extra = EXTRA_NODES
    scopes = [s for s in nm.scopes.values() if s.module in nm.modules]
    scopes.sort(key=lambda s: (s.module.name, s.node.lineno))
    nodes(nm, scopes, res)
    columns(nm, scopes, res)
    arrays(nm, scopes, res)
    attributes(nm, scopes, res)
    events(nm, res)


def qual(s):
    out = []
    while s is not None:
        out.append(s.node.name)
        m = s.module
        s = s.up
    return m.name.split('.', 1)[-1] + '.' + '.'.join(reversed(out))


# -- R1 ---------------------------------------------------------------------------------------------------------

def reads(nm, s):
    """(node, templates, part) of every node read by name; part: only contained in the name."""
    for n in walk_local(s.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and n.value.attr == 'root' \
                and not n.attr.startswith('_'):
            par = n._parent
            if isinstance(par, ast.Call) and par.func is n:
                continue                       # method of the group
            yield n, [{n.attr}], False
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get_node', 'remove_node', '_f_get_child'):
            kw = {k.arg: k.value for k in n.keywords}
            e = kw.get('name')
            if e is None and len(n.args) > 1:
                e = n.args[1]
            if e is None and n.args:
                e = n.args[0]
            if e is None:
                continue
            yield n, [{x.split('/')[-1] for x in g} for g in nm.readings(e, s)], False
        elif isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'SMC':
            kw = {k.arg: k.value for k in n.keywords}
            if kw.get('table') is not None:
                yield n, nm.readings(kw['table'], s), False
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = n.left, n.comparators[0]
            named = [x for x in (a, b) if isinstance(x, ast.Attribute) and x.attr in ('name', '_v_name') and 'dut' not in (dotted(x) or '').lower()]
            lit = [x for x in (a, b) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            if named and lit:
                yield n, [{lit[0].value}], isinstance(n.ops[0], (ast.In, ast.NotIn))


def nodes(nm, scopes, res):
    wr = [(t, w) for w in nm.writers for t in w[0] if t != ANY]
    res.cover('nodes_written', sorted({show(t) for t, _ in wr}))
    seen = set()
    for s in scopes:
        for n, gs, part in reads(nm, s):
            for g in gs:
                if not g or any(t in (ANY, '') for t in g):
                    continue
                seen |= {show(t) for t in g}
                if not any((t in x) if part else unify(t, x) for t in g for x, _ in wr):
                    t = min(g)
                    res.add('node', '%s: %s' % (qual(s), show(t)), pos(n), 'no step of the package writes a node %s' % show(t))
    res.cover('nodes_read', sorted(seen))
    order(nm, scopes, res)


def ref_places(nm, e, s):
    """For a name with two or more DUT numbers: which of them is a reference DUT (None where it is not known)."""
    if not (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.right, ast.Tuple)):
        return None
    fs = nm.strings(e.left, s)
    if len(fs) != 1:
        return None
    kinds = re.findall(r'%[-+ #0]*[0-9]*([disr])', list(fs)[0])
    args = [a for k, a in zip(kinds, e.right.elts) if k in 'di']
    if len(args) < 2:
        return None
    return [origin(nm, a, s) for a in args]


def origin(nm, e, s, seen=()):
    """Is the DUT number the one of a reference DUT (by the name of the variable or of the one it is copied from)?"""
    if isinstance(e, ast.Name) and e.id not in seen:
        if re.search(r'(^|_)ref(erence)?(_|s?$)', e.id):
            return True
        ds = nm._defs(e.id, s)
        return bool(ds) and all(d.kind == 'expr' and isinstance(d.value, (ast.Name, ast.Subscript)) and origin(nm, d.value, sc, seen + (e.id,))
                                or d.kind == 'iter' and not d.path and isinstance(d.value, ast.Name) and origin(nm, d.value, sc, seen + (e.id,)) for d, sc in ds)
    if isinstance(e, ast.Subscript):
        return origin(nm, e.value, s, seen)
    return False


def order(nm, scopes, res):
    w = {}
    for ts, s, n, desc, e in nm.writers:
        p = ref_places(nm, e, s)
        if p:
            for t in ts:
                w.setdefault(t, []).append(p)
    for s in scopes:
        for n in walk_local(s.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get_node' and len(n.args) + len(n.keywords) > 1:
                e = {k.arg: k.value for k in n.keywords}.get('name', n.args[1] if len(n.args) > 1 else None)
                if e is None:
                    continue
                p = ref_places(nm, e, s)
                if not p or p.count(True) != 1:
                    continue
                for t in nm.strings(e, s):
                    for u, qs in w.items():
                        if unify(t, u) and any(q.count(True) == 1 and q != p for q in qs):
                            res.add('node', '%s: order in %s' % (qual(s), show(t)), pos(n),
                                    'the reference DUT is number %d of the name here, number %d where it is written' % (p.index(True) + 1, qs[0].index(True) + 1))


# -- R2 ---------------------------------------------------------------------------------------------------------

def columns(nm, scopes, res):
    known = set(RAW)
    for m in nm.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(getattr(n, 'ctx', None), ast.Load):
                s = nm.fn_scope(n) or Scope(m, m.tree, None, None)
                t = nm.strings(n.elts[0], s)
                known |= {x for x in t if x not in (ANY, INT) and ANY not in x[:1]}
    n_use = n_traced = 0
    for s in scopes:
        for n in walk_local(s.node):
            if not isinstance(n, ast.Subscript):
                continue
            ns = nm.index_names(n.slice, s)
            if not ns or dictionary(nm, n.value, s):
                continue
            cols = nm.columns(n.value, s)
            for e, ts in ns:
                n_use += 1
                if cols is not None:
                    n_traced += 1
                for t in sorted(ts):
                    have = cols if cols is not None else known
                    if not any(unify(t, c) for c in have):
                        res.add('column', '%s: %s of %s' % (qual(s), show(t), ast.unparse(n.value)[:60]), pos(n),
                                'the %s has no column %s' % ('table' if cols is not None else 'package', show(t)))
    res.cover('column_uses', n_use)
    res.cover('column_uses_traced_to_a_table', n_traced)


def dictionary(nm, e, s):
    """Is the object a dictionary (or an argument that may be one)?"""
    while isinstance(e, ast.Subscript):
        e = e.value
    if not isinstance(e, ast.Name):
        return isinstance(e, ast.Attribute) and e.attr in ('configuration', '__dict__')
    for d, sc in nm._defs(e.id, s):
        if d.kind == 'param' and sc.node.args.kwarg is not None and sc.node.args.kwarg.arg == e.id:
            return True
        if isinstance(d.value, ast.Dict) or (isinstance(d.value, ast.Call) and (dotted(d.value.func) or '').split('.')[-1] in
                                               ('dict', 'OrderedDict', 'defaultdict', 'load', 'safe_load')):
            return True
    if not nm._defs(e.id, s):
        return False
    return False


# -- R3 ---------------------------------------------------------------------------------------------------------

def base(e):
    """Array an expression is made of by indexing, an attribute or a method of it, or a conversion."""
    while True:
        if isinstance(e, ast.Subscript):
            e = e.value
        elif isinstance(e, ast.Attribute):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and dotted(e.func.value) not in ('np', 'numpy', 'np.ma', 'tb', 'tb.Atom'):
            e = e.func.value
        elif isinstance(e, ast.Call) and e.args and (dotted(e.func) or '').split('.')[-1] in \
                ('asarray', 'array', 'ascontiguousarray', 'from_dtype', 'dtype', 'copy', 'filled', 'getmaskarray', 'shape', 'tuple', 'list'):
            e = e.args[0]
        else:
            return e.id if isinstance(e, ast.Name) else None


def same(nm, a, b, s, depth=4):
    """May the two names hold the same array (one copied to the other)?"""
    def up(x, k):
        out = {x}
        if k:
            for d, sc in nm._defs(x, s):
                if d.kind == 'expr' and d.value is not None:
                    for v in ([d.value.body, d.value.orelse] if isinstance(d.value, ast.IfExp) else [d.value]):
                        y = base(v)
                        if y is not None and y != x:
                            out |= up(y, k - 1)
                elif d.kind == 'param':
                    out.add(None)
                elif d.kind == 'iter' and d.value is not None:
                    out |= {y.id for y in ast.walk(d.value) if isinstance(y, ast.Name)} or {None}
        return out
    x, y = up(a, depth), up(b, depth)
    return None in x | y or bool(x & y)


def tokens(x):
    return Counter(t for t in re.split('[_\x01\x02 ]+', x.lower()) if t and t not in ('hist', 'hists', 'dut'))


def within(a, b):
    return all(b[t] >= k for t, k in a.items())


def content(nm, s, lit, b, n, res):
    """The array stored under a literal name is the one of that name, if the function has one."""
    if not lit or s.defs is None:
        return
    local = set(s.defs.table)
    stem = re.sub('_?(DUT)?[\x01\x02]$', '', lit)
    own = [x for x in (stem, stem + '_hist', stem + '_hists') if x in local]
    if own and b in local and not any(x == b or same(nm, x, b, s) for x in own):
        res.add('array', '%s: content of %s' % (qual(s), show(lit)), pos(n), 'the content of node %s comes from %s although the step has an array %s'
                % (show(lit), b, own[0]))


def paired(nm, s, stores):
    """Stores in a loop over tuples of nodes and arrays, written out."""
    out = []
    for t, v, n in stores:
        if not isinstance(v, ast.Name):
            continue
        dt, dv = nm._defs(t, s), nm._defs(v.id, s)
        for d, _ in dt:
            if d.kind != 'iter' or len(d.path) != 1:
                continue
            js = [x.path[0] for x, _ in dv if x.kind == 'iter' and x.stmt is d.stmt and len(x.path) == 1]
            if not js:
                continue
            rows = []
            if isinstance(d.value, (ast.List, ast.Tuple)):
                rows = list(d.value.elts)
            elif isinstance(d.value, ast.Name):
                for x, _ in nm._defs(d.value.id, s):
                    if x.kind == 'expr' and isinstance(x.value, (ast.List, ast.Tuple)):
                        rows += x.value.elts
                for c in walk_local(s.node):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == d.value.id and c.args:
                        if c.func.attr == 'append':
                            rows.append(c.args[0])
                        elif c.func.attr == 'extend' and isinstance(c.args[0], (ast.List, ast.Tuple)):
                            rows += c.args[0].elts
            for r in rows:
                if isinstance(r, ast.Tuple) and len(r.elts) > max(js[0], d.path[0]) and isinstance(r.elts[d.path[0]], ast.Name):
                    out.append((r.elts[d.path[0]].id, r.elts[js[0]], r))
    return out


def arrays(nm, scopes, res):
    n_arr = 0
    for s in scopes:
        if s.defs is None:
            continue
        local = set(s.defs.table)
        made = []             # (target name, call)
        stored = []           # (node name, variable, statement)
        for n in walk_local(s.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) \
                    and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ('create_carray', 'create_array', 'create_earray'):
                made.append((n.targets[0].id, n.value, n))
        stores = []
        for n in walk_local(s.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
                stores.append((n.targets[0].value.id, n.value, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name) and n.args:
                stores.append((n.func.value.id, n.args[0], n))
        stores += paired(nm, s, stores)
        for tgt, call, stmt in made:
            kw = {k.arg: k.value for k in call.keywords}
            nxt = min([m[2].lineno for m in made if m[0] == tgt and m[2].lineno > stmt.lineno] or [1 << 30])
            vals = [(v, n) for t, v, n in stores if t == tgt and stmt.lineno <= n.lineno < nxt]
            if kw.get('obj') is not None:
                vals.append((kw['obj'], call))
            vals = [(v, n) for v, n in vals if base(v) is not None]
            parts = {p: base(kw[p]) for p in ('shape', 'atom') if kw.get(p) is not None and base(kw[p]) is not None}
            if not vals:
                continue
            n_arr += 1
            name = nm.strings(kw.get('name'), s) if kw.get('name') is not None else {ANY}
            lit = list(name)[0] if len(name) == 1 else None
            for v, n in vals:
                b = base(v)
                for p, w in parts.items():
                    if w in local and b in local and not same(nm, w, b, s):
                        res.add('array', '%s: %s of %s' % (qual(s), p, show(lit or ast.unparse(kw['name']))), pos(n),
                                'the %s of the stored array comes from %s, its content from %s' % (p, w, b))
                for x in name:
                    stored.append((x, b, n))
                content(nm, s, lit, b, n, res)
                nv = kw.get('name')
                if isinstance(nv, ast.Name) and nv.id in s.defs.params and b in s.defs.params:
                    for cs, c, g, skip in nm.callers.get(s.node, ()):
                        got = bound(g, skip, c) or {}
                        if nv.id in got and b in got and base(got[b]) is not None:
                            ls = nm.strings(got[nv.id], cs)
                            n_arr += 1
                            content(nm, cs, list(ls)[0] if len(ls) == 1 else None, base(got[b]), c, res)
        for x, a, n in stored:
            # stored under the name of another array: the words of the variable are in that name, but not in this one
            if a in local and not within(tokens(a), tokens(x)) and any(within(tokens(a), tokens(y)) for y, _, _ in stored) \
                    and any(within(tokens(b), tokens(x)) and not within(tokens(b), tokens(y)) for y, b, _ in stored if y != x):
                if not any(c != a and y == x and within(tokens(c), tokens(x)) for y, c, _ in stored):
                    res.add('array', '%s: content of %s' % (qual(s), show(x)), pos(n), 'the content of node %s comes from %s' % (show(x), a))
    res.cover('arrays', n_arr)


def is_array(nm, name, s):
    """Names of lengths and numbers (plain integers in a shape) are not arrays."""
    ds = nm._defs(name, s)
    return any(d.kind in ('expr', 'elem', 'iter', 'param') for d, _ in ds)


# -- R4 ---------------------------------------------------------------------------------------------------------

def attributes(nm, scopes, res):
    st, ld = {}, []
    for s in scopes:
        for n in walk_local(s.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr in ('attrs', '_v_attrs'):
                if isinstance(n.ctx, ast.Store):
                    st.setdefault(n.attr, []).append(n)
                elif not n.attr.startswith('_f_'):
                    ld.append((n.attr, n, s))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'getattr') and len(n.args) > 1 \
                    and isinstance(n.args[0], ast.Attribute) and n.args[0].attr in ('attrs', '_v_attrs'):
                for t in nm.strings(n.args[1], s):
                    if n.func.id == 'setattr':
                        st.setdefault(t, []).append(n)
                    elif t != ANY:
                        ld.append((t, n, s))
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr in ('attrs', '_v_attrs'):
                for t in nm.strings(n.slice, s):
                    if isinstance(n.ctx, ast.Store):
                        st.setdefault(t, []).append(n)
                    elif t != ANY:
                        ld.append((t, n, s))
    res.cover('attributes_written', sorted(st))
    res.cover('attributes_read', sorted({a for a, _, _ in ld}))
    for a, n, s in ld:
        if not any(unify(a, x) for x in st):
            res.add('attribute', '%s: %s' % (qual(s), a), pos(n), 'no step of the package sets the attribute %s of a node' % a)


# -- R5 ---------------------------------------------------------------------------------------------------------

def events(nm, res):
    k = 0
    for m in nm.prog.modules.values():
        for n in ast.walk(m.tree):
            v = None
            if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.elts[0], ast.Constant) and n.elts[0].value == 'event_number' \
                    and isinstance(n.elts[1], (ast.Constant, ast.Attribute, ast.Name)):
                v = n.elts[1]
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'event_number' \
                    and isinstance(n._parent, ast.ClassDef) and isinstance(n.value, ast.Call):
                v = n.value.func
            if v is None:
                continue
            t = str(v.value) if isinstance(v, ast.Constant) else (dotted(v) or '').split('.')[-1]
            if isinstance(v, ast.Name) and t not in WIDE:
                continue                    # type of another description
            if isinstance(v, ast.Attribute) and t == 'dtype':
                continue
            k += 1
            if t not in WIDE and t != 'Int64Col':
                s = nm.fn_scope(n)
                res.add('event', '%s: event_number' % (qual(s) if s else m.name.split('.', 1)[-1]), pos(n), 'event numbers are stored as %s, not as 64-bit integers' % t)
    res.cover('event_fields', k)
