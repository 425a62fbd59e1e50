"""C14: the compiled kernels stay inside their arrays.

The C++ functions (clang's AST), the Cython layer, its Python callers and the event matching kernels compiled with numba are interpreted over difference bounds (bounds.py).
R1 access - every index used in a C++ function is inside the array, for every content and length of the arrays, given only requirements on the lengths that are passed
R2 interface - the Cython layer meets these requirements: every array goes with its own length and an element type of at least that size, and is contiguous
R3 errors - a C++ function that throws is declared so that the error reaches the caller as a Python exception; a histogram index outside the bins given for its coordinate ends in one
R4 caller - the Python functions give arrays that are contiguous and result arrays that are large enough for every input, and the bins of each coordinate
R5 cursor - the row indices the event matching kernels keep are inside the arrays; arrays indexed by the same rows have the same rows where they are called
"""
import ast
import os

from .. import bounds as B
from .. import cpp, loader

ID = 'C14'
TECHNIQUE = 'abstract interpretation with difference bounds over the C++ AST (clang), the Cython source and the Python syntax trees, with requirements passed to callers'
MINIMUM = {'C++ functions': 3, 'accesses': 20, 'Cython functions': 3}
LEVEL_NOTE = ('static analysis of every array access of the C++ functions and of the row cursors of the event matching numba kernels; sizes are taken as exact integers (no wrap around at 2**32), '
              'histogram indices that numba kernels read from arrays of their caller are not followed')
HEADER = 'cpp/AnalysisFunctions.h'
PYX = 'cpp/analysis_functions.pyx'
KERNELS = ('tools.analysis_utils', 'track_analysis')
# kernels whose arrays have one row per track candidate of the chunk: (arrays with the same rows, parameters that are rows); that the caller builds them so is not decided
CONTRACT = {'_find_tracks_loop': (('event_numbers', 'indices', 'x', 'y', 'z'), ()),
            '_find_tracks': (('event_numbers', 'indices', 'x', 'y', 'z'), ('event_start_index', 'track_index'))}
# parameters that have one entry per row of the same table, by the documentation of the kernel
GROUPS = {'map_cluster': (('event_numbers', 'mapped_clusters'), ('clusters',)),
          'merge_on_event_number': (('data_1',), ('data_2',)),
          'correlate_position_on_event_number': (('ref_event_numbers', 'ref_x_indices', 'ref_y_indices'), ('dut_event_numbers', 'dut_x_indices', 'dut_y_indices')),
          'correlate_hits_on_event_range': (('event_numbers', 'x_indices', 'y_indices'),),
          '_find_small_distance': (('event_number_array', 'position_array_x', 'position_array_y', 'small_distance_flag_array'),)}
LEVELS = ('proved', 'required', 'assumed', 'undecided', 'violated')


def run(prog, res, tier):
    for k, v in (l.strip().split(' - ', 1) for l in __doc__.splitlines() if l[:1] == 'R' and l[1:2].isdigit()):
        res.rule(k, v)
    base = os.path.join(loader.REPO, loader.PKG)
    undecided = []
    sums, funs = cxx(os.path.join(base, HEADER), res, undecided)
    defs = cython(os.path.join(base, PYX), sums, funs, res, undecided)
    callers(prog, defs, res, undecided)
    kernels(prog, res, undecided)
    res.cover('not decided', sorted(set(undecided)))


def stat(an, name, out):
    for (line, arr, dim, t), (status, why) in sorted(an.acc.items()):
        out.append('%s:%d %s[%s] dim %d: %s' % (name, line, arr, t, dim, status))


# ---------------------------------------------------------------- C++
def supported(body):
    for s in body:
        if s[0] == 'unsupported':
            return False
        for x in s[1:]:
            if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str) and not supported([y for y in x if isinstance(y, tuple) and y and isinstance(y[0], str)]):
                return False
    return True


class Cxx(B.Analysis):
    """also keeps what holds at the end of the turns of every loop"""
    def __init__(self, *a, **k):
        B.Analysis.__init__(self, *a, **k)
        self.turns = []

    def once(self, h, cond, body, step, counter, post):
        r = B.Analysis.once(self, h, cond, body, step, counter, post)
        if self.record:
            self.turns.append((h, r[0], r[3]))
        return r


def cxx(path, res, undecided):
    """{name: Summary}, {name: Fun}; findings of R1"""
    funs, names = cpp.load(path)
    rel = loader.PKG + '/' + HEADER
    sums, seen, done = {}, [], []
    inl = {}
    for n, f in funs.items():
        if supported(f.body):
            inl[n] = B.Inline([p for p, _ in f.params], f.body)
    called = {c for f in funs.values() for c in f.calls if c in funs}
    for n, f in sorted(funs.items()):
        helper = n in called
        if not supported(f.body):
            undecided.append('%s: a statement that is not modelled' % n)
            continue
        use = {k: v for k, v in inl.items() if k != n and k in f.calls or k in reach(funs, f)}
        use.pop(n, None)
        an = Cxx(use, cpp=True)
        st = B.State()
        for p, ty in f.params:
            if '*' in ty or '[' in ty:
                st.env[p] = B.Arr(p, [B.sym('len(%s)' % p)], unsigned=cpp.unsigned(ty.replace('*', '')))
            elif elem(ty):
                st.env[p] = B.sym(p)
                if cpp.unsigned(ty):
                    st.add(-B.sym(p))
            else:
                st.env[p] = B.OPQ
        try:
            an.run(st, B.hoist(f.body, use) if use else f.body)
        except (B.Undecided, RecursionError) as e:
            undecided.append('%s: %s' % (n, e))
            continue
        if not helper:
            stat(an, n, seen)
            for (line, arr, dim, t), (status, why) in sorted(an.acc.items()):
                if status == 'violated':
                    res.add('R1 access', '%s %s[%s]' % (n, arr, t), '%s:%d' % (rel, line), '%s uses %s[%s]: %s' % (n, arr, t, why))
                elif status == 'undecided':
                    undecided.append('%s:%d %s[%s]' % (n, line, arr, t))
            done.append(n)
        reqs = [r for r in an.reqs.values() if isinstance(r, B.Req)]
        # a requirement that an argument is long for itself (a constant) must hold for empty arrays as well
        for r in reqs:
            if not helper and all(only_lengths(a) for a in r.alts):
                res.add('R1 access', '%s %s' % (n, r.what), '%s:%d' % (rel, r.line), '%s reads or writes %s also when the array is empty' % (n, r.what.split(':')[0]))
        reqs = [r for r in reqs if not all(only_lengths(a) for a in r.alts)]
        sums[n] = B.Summary([p for p, _ in f.params], reqs, name=n)
        sums[n].posts = posts(an, f)
    res.cover('C++ functions', sorted(done))
    res.cover('accesses', seen)
    return sums, funs


def reach(funs, f):
    out, todo = set(), list(f.calls)
    while todo:
        c = todo.pop()
        if c in funs and c not in out:
            out.add(c)
            todo += list(funs[c].calls)
    return out


def elem(ty):
    return cpp.elem_size(ty.replace('&', '')) is not None or cpp.unsigned(ty)


def only_lengths(p):
    """the requirement speaks about the length of an array alone: 1 <= len(a)"""
    return bool(p.syms()) and all(s.startswith('len(') for s in p.syms()) and not any(c > 0 for m, c in p.t.items() if m) and p.t.get((), 0) > 0


def posts(an, f):
    """[(array parameter, bound parameter)]: at the end of every turn that reads an element of the array it is below the bound.
    Coordinates are the arrays that are not written, bounds the sizes after the number of entries, in the order of the parameters."""
    arrays = [p for p, ty in f.params if '*' in ty and 'const' in ty]
    sizes = [p for p, ty in f.params if '*' not in ty and cpp.unsigned(ty)]
    if len(arrays) + 1 != len(sizes) or not arrays:
        return None
    pairs = list(zip(arrays, sizes[1:]))
    out = []
    for a, b in pairs:
        good, any_ = True, False
        for h, ends, brks in an.turns:
            for st in ends + brks:
                heads = {x for w in h.env.values() if B.is_p(w) for x in w.syms() if '@' in x}
                els = [s for s, ((n, v), idx) in an.elems.items() if n == a and any(i.syms() & heads for i in idx)]
                if not els:
                    continue
                any_ = True
                if not any(st.sup(B.sym(s) - B.sym(b) + B.ONE) <= 0 for s in els):
                    good = False
        out.append((a, b, good and any_))
    return out


# ---------------------------------------------------------------- Cython
def cython(path, sums, funs, res, undecided):
    """{def name: (Def, Summary)}; findings of R2 and R3"""
    rel = loader.PKG + '/' + PYX
    externs, defs, directives = cpp.pyx(path)
    throws = {n for n, f in funs.items() if f.throws or any(funs[c].throws for c in reach(funs, f))}
    used = set()
    out = {}
    for d in defs:
        text = ['def f():']
        for b, ln in d.body:
            ind = len(b) - len(b.lstrip())
            t = cpp.uncast(b.strip())
            if t.startswith('cdef '):
                t = t[5:].strip()
                if '=' not in t:
                    continue
                left, right = t.split('=', 1)
                t = left.split()[-1].strip('&*') + ' = ' + right.strip()
            text.append(' ' * max(ind, 4) + t.replace('&', ' ' if '& ' not in t else '&'))
        try:
            tree = ast.parse('\n'.join(text) + '\n    pass\n').body[0]
        except SyntaxError:
            undecided.append('%s: the body is not understood' % d.name)
            continue
        calls = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and B.dotted(n.func) in externs]
        if not calls:
            continue
        used |= {B.dotted(c.func) for c in calls}
        env, sizes, contig = {}, {}, {}
        for p, ty, default in d.params:
            if 'ndarray' in ty or '[' in ty and ':' in ty:
                env[p] = B.Arr(p, [B.sym('len(%s)' % p)])
                inner = ty[ty.index('[') + 1:ty.rindex(']')] if '[' in ty else ''
                if ':' in inner:
                    sizes[p], contig[p] = cpp.elem_size(ty.split('[')[0]), '::1' in inner
                else:
                    sizes[p] = cpp.elem_size(inner.split(',')[0]) if inner else None
                    contig[p] = 'mode' in inner and ('"c"' in inner or "'c'" in inner)
            elif elem(ty) or ty.strip() in ('int', 'long', 'Py_ssize_t', 'size_t', 'ssize_t'):
                env[p] = B.sym(p)
            else:
                env[p] = B.OPQ
        an = B.Analysis({n: s for n, s in sums.items()}, checked=True)
        an.acc = {}
        st = B.State(env)
        for p, ty, default in d.params:
            if B.is_p(env[p]) and cpp.unsigned(ty):
                st.add(-env[p])
        try:
            an.run(st, B.Py(('np', 'cnp')).body(tree.body))
        except (B.Undecided, RecursionError) as e:
            undecided.append('%s: %s' % (d.name, e))
            continue
        for (line, what, _, _), (status, why) in sorted(an.acc.items()):
            if status == 'violated':
                res.add('R2 interface', '%s %s' % (d.name, what), '%s:%d' % (rel, d.line), '%s does not ensure %s' % (d.name, what))
            elif status == 'undecided':
                undecided.append('%s %s: %s' % (d.name, what, why))
        raw = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == '_cast_' and len(n.args) == 2 and '*' in getattr(n.args[0], 'value', ''):
                x = n.args[1]
                while isinstance(x, (ast.Attribute, ast.Subscript)):
                    x = x.value
                if isinstance(x, ast.Name) and x.id in sizes:
                    need = cpp.elem_size(n.args[0].value)
                    raw[x.id] = True
                    if sizes[x.id] is None and need:
                        res.add('R2 interface', '%s %s element type' % (d.name, x.id), '%s:%d' % (rel, d.line), 'the element type of %s is not fixed, it is used as %s' % (x.id, n.args[0].value))
                    elif need and sizes[x.id] < need:
                        res.add('R2 interface', '%s %s element type' % (d.name, x.id), '%s:%d' % (rel, d.line),
                                'elements of %s have %d bytes and are used as %s' % (x.id, sizes[x.id], n.args[0].value))
        reqs = [r for k, r in an.reqs.items()]
        # the elements the C++ function sees are not larger than those of the array: lengths carry over
        s = B.Summary([p for p, _, _ in d.params], reqs, name=d.name)
        s.raw = {p for p in raw if not contig.get(p)}
        s.posts = None
        pairs = {}
        for c in calls:
            f = funs.get(B.dotted(c.func))
            cs = sums.get(B.dotted(c.func))
            if f is None or cs is None or not getattr(cs, 'posts', None):
                continue
            args = {p: root(a) for (p, _), a in zip(f.params, c.args)}
            for a, b, ok in cs.posts:
                if not ok:
                    res.add('R3 errors', '%s %s beyond %s' % (B.dotted(c.func), a, b), '%s:%d' % (loader.PKG + '/' + HEADER, f.line),
                            'an element of %s that is not below %s does not end in an error' % (a, b))
                pairs[args.get(a)] = args.get(b)
        s.posts = pairs
        out[d.name] = (d, s)
    for n in sorted(used):
        if n in throws and not externs[n].exc:
            res.add('R3 errors', n, '%s:%d' % (rel, externs[n].line), '%s throws, but is declared without except: the program ends instead of an exception' % n)
    res.cover('Cython functions', sorted(out))
    res.cover('C++ functions that throw', sorted(throws & used))
    return out


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
        if isinstance(n, ast.Call):
            if not n.args:
                return None
            n = n.args[-1]
        else:
            n = n.value
    return n.id if isinstance(n, ast.Name) else None


# ---------------------------------------------------------------- callers in Python
class Caller(B.Analysis):
    """checks the arguments of the calls of the compiled functions"""
    def __init__(self, funcs, defs):
        B.Analysis.__init__(self, funcs, checked=True)
        self.defs = defs


def callers(prog, defs, res, undecided):
    seen = []
    for fn in all_fns(prog):
        hits = [n for n in ast.walk(fn.node) if isinstance(n, ast.Call) and (B.dotted(n.func) or '').split('.')[-1] in defs and is_ext(fn, n.func)]
        if not hits:
            continue
        if any(h for h in hits if in_nested(fn.node, h)):
            continue
        funcs = {}
        for h in hits:
            funcs[B.dotted(h.func)] = defs[B.dotted(h.func).split('.')[-1]][1]
        an = B.Analysis(funcs, checked=True)
        env = {p: B.Arr(p, []) for p in fn.all_params}
        st = B.State(env)
        rel = fn.module.rel
        try:
            an.run(st, B.Py(set(fn.module.imports) | {'np'}).body(fn.node.body))
        except (B.Undecided, RecursionError) as e:
            undecided.append('%s: %s' % (fn.name, e))
            continue
        for (line, what, _, _), (status, why) in sorted(an.acc.items()):
            seen.append('%s:%d %s: %s' % (fn.name, line, what, status))
            if status in ('violated', 'required'):
                res.add('R4 caller', '%s %s' % (fn.name, what), '%s:%d' % (rel, line), 'the arrays %s gives to the compiled function do not ensure %s' % (fn.name, what))
            elif status == 'undecided':
                undecided.append('%s %s: %s' % (fn.name, what, why))
        for name, line, vals in an.calls:
            s = funcs[name]
            for p in sorted(s.raw):
                v = vals.get(p)
                if isinstance(v, B.Arr):
                    seen.append('%s:%d %s contiguous' % (fn.name, line, p))
                    if not v.contig:
                        res.add('R4 caller', '%s %s contiguous' % (fn.name, p), '%s:%d' % (rel, line), 'the array given for %s may be a view with gaps, the compiled function reads it as one block' % p)
                else:
                    undecided.append('%s: the array for %s' % (fn.name, p))
            for a, b in sorted((s.posts or {}).items(), key=str):
                va, vb = vals.get(a), vals.get(b)
                if not isinstance(va, B.Arr) or not B.is_p(vb) or len(vb.t) != 1:
                    continue
                (m, c), = vb.t.items()
                org = getattr(va, 'orig', None)
                if org in fn.all_params and len(m) == 1 and m[0] in an.elems:
                    (arr, _), idx = an.elems[m[0]]
                    pos = [p for p in fn.all_params if p != arr].index(org) if arr in fn.all_params and org != arr else None
                    seen.append('%s:%d bins of %s: %s' % (fn.name, line, org, m[0]))
                    if pos is not None and idx and idx[0].const() is not None and idx[0].const() != pos:
                        res.add('R4 caller', '%s bins of %s' % (fn.name, org), '%s:%d' % (rel, line), 'the indices %s are checked against %s[%d]' % (org, arr, idx[0].const()))
    res.cover('calls of compiled functions', sorted(set(seen)))


def all_fns(prog):
    return sorted(prog.fns.values(), key=lambda f: f.qual)


def is_ext(fn, f):
    d = B.dotted(f)
    if d is None:
        return False
    target = fn.module.imports.get(d.split('.')[0], '')
    return 'analysis_functions' in (target.split('.') + d.split('.')[:-1])


def in_nested(node, h):
    for n in ast.walk(node):
        if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)) and any(x is h for x in ast.walk(n)):
            return True
    return False


# ---------------------------------------------------------------- kernels compiled with numba
def is_kernel(fn):
    return any((d or '').split('.')[-1] in ('njit', 'jit') for d in fn.decorators)


def array_params(fn, known):
    out = set()
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        elif isinstance(n, ast.For) and isinstance(n.iter, ast.Name):
            out.add(n.iter.id)
        elif isinstance(n, ast.Call):
            d = B.dotted(n.func) or ''
            if d in ('enumerate', 'len', 'zip') or d.startswith('np.') and n.args and isinstance(n.args[0], ast.Name) and d.split('.')[-1] in ('searchsorted', 'unique', 'sort'):
                out |= {a.id for a in n.args if isinstance(a, ast.Name)}
            for k, ps, arrs in known:
                if d == k:
                    for p, a in list(zip(ps, n.args)) + [(w.arg, w.value) for w in n.keywords]:
                        if p in arrs and isinstance(a, ast.Name):
                            out.add(a.id)
    return out & set(fn.all_params)


def kernels(prog, res, undecided):
    seen, sums, info = [], {}, {}
    fns = [f for f in all_fns(prog) if f.module.name.split('.', 1)[-1] in KERNELS and f.parent is None and f.cls is None and is_kernel(f)]
    known = []
    for _ in range(3):
        known = [(f.name, f.all_params, array_params(f, known)) for f in fns]
    arrs = {k: a for k, _, a in known}
    for _ in range(3):
        for fn in fns:
            an = B.Analysis({k: v for k, v in sums.items()})
            env, st = {}, B.State()
            group, cursors = CONTRACT.get(fn.name, ((), ()))
            if not set(group) <= arrs[fn.name] or not set(cursors) <= set(fn.all_params):
                info[fn.name] = (fn, None, 'the parameters are not the known ones')
                sums.pop(fn.name, None)
                continue
            for p in fn.all_params:
                if p in arrs[fn.name]:
                    st.env[p] = B.Arr(p, [B.sym('len(%s)' % group[0])] if p in group else [])
                else:
                    st.env[p] = B.sym(p)
                    st.add(-B.sym(p))
                    if p in cursors:
                        st.add(B.sym(p) - B.sym('len(%s)' % group[0]) + B.ONE)
            try:
                an.run(st, B.Py().body(fn.node.body))
            except (B.Undecided, RecursionError) as e:
                info[fn.name] = (fn, None, str(e))
                sums.pop(fn.name, None)
                continue
            info[fn.name] = (fn, an, None)
            if fn.name in callees(fns):
                need = [r for r in an.reqs.values() if 'position of' not in r.what and dim0(r)]
                need += [B.Req([B.sym(p) - B.sym('len(%s)' % group[0]) + B.ONE], '%s is a row' % p, fn.node.lineno) for p in cursors]
                sums[fn.name] = B.Summary(fn.all_params, need, name=fn.name)
    for name, (fn, an, why) in sorted(info.items()):
        if an is None:
            undecided.append('%s: %s' % (name, why))
            continue
        for (line, arr, dim, t), (status, w) in sorted(an.acc.items()):
            if arr.split('.')[0] not in fn.all_params and ': ' not in arr or dim != 0:
                continue
            seen.append('%s:%d %s[%s]: %s' % (name, line, arr, t, status))
            if status == 'violated':
                res.add('R5 cursor', '%s %s[%s]' % (name, arr, t), '%s:%d' % (fn.module.rel, line), '%s uses %s[%s]: %s' % (name, arr, t, w))
            elif status == 'undecided':
                undecided.append('%s:%d %s[%s]' % (name, line, arr, t))
    res.cover('numba kernels', sorted(n for n, x in info.items() if x[1] is not None))
    res.cover('row indices of numba kernels', seen)
    same_rows(prog, info, arrs, res, undecided)


def callees(fns):
    names = {f.name for f in fns}
    return {B.dotted(n.func) for f in fns for n in ast.walk(f.node) if isinstance(n, ast.Call) and B.dotted(n.func) in names}


def dim0(r):
    return all(',' not in s for a in r.alts for s in a.syms())


# ---- arrays with the same rows
KEEP = {'ascontiguousarray', 'asarray', 'array', 'astype', 'copy', 'abs', 'floor', 'ceil', 'round', 'rint', 'zeros_like', 'empty_like', 'ones_like', 'full_like', 'nan_to_num', 'clip', 'ravel'}
ALLOC = {'empty', 'zeros', 'ones', 'full'}


def same_rows(prog, info, arrs, res, undecided):
    """requirements len(a) <= len(b) between parameters are decided where the kernel is called from other code"""
    seen = []
    rel = {}
    for name, (fn, an, why) in info.items():
        if an is None:
            continue
        for r in an.reqs.values():
            if len(r.alts) >= 1 and dim0(r):
                for a in r.alts:
                    f = B.diff(a)
                    if f and f[0] and f[1] and len(f[0]) == len(f[1]) == 1 and f[0][0].startswith('len(') and f[1][0].startswith('len('):
                        x, y = f[0][0][4:-1].split('.')[0], f[1][0][4:-1].split('.')[0]
                        if x in fn.all_params and y in fn.all_params:
                            rel.setdefault(name, set()).add((x, y))
    for name, pairs in sorted(rel.items()):
        fn = info[name][0]
        for x, y in sorted(pairs):
            if name in GROUPS and {x, y} <= {p for g in GROUPS[name] for p in g} and not any({x, y} <= set(g) for g in GROUPS[name]):
                res.add('R5 cursor', '%s %s by %s' % (name, y, x), '%s:%d' % (fn.module.rel, fn.node.lineno), '%s indexes %s by the rows of %s, which may be more' % (name, y, x))
    for fn in all_fns(prog):
        if is_kernel(fn):
            continue
        for n in ast.walk(fn.node):
            if not isinstance(n, ast.Call):
                continue
            k = (B.dotted(n.func) or '').split('.')[-1]
            if k not in rel or in_nested(fn.node, n):
                continue
            kfn = info[k][0]
            args = dict(zip(kfn.all_params, n.args))
            args.update({w.arg: w.value for w in n.keywords if w.arg})
            for x, y in sorted(rel[k]):
                if x not in args or y not in args:
                    continue
                if name_groups(k, x, y):
                    continue
                rx, ry = rows(args[x], fn, n), rows(args[y], fn, n)
                where = '%s:%d' % (fn.module.rel, n.lineno)
                if rx is None or ry is None or rx != ry and ('?' in ry or '?' in rx and not made(args[y], fn, n) or unrelated(rx, ry, fn)):
                    undecided.append('%s: rows of %s and %s in the call of %s' % (fn.name, x, y, k))
                elif rx == ry:
                    seen.append('%s calls %s: %s and %s have the rows of %s' % (fn.name, k, x, y, rx))
                else:
                    res.add('R5 cursor', '%s calls %s with %s and %s' % (fn.name, k, x, y), where,
                            '%s indexes %s by the rows of %s, but here %s has the rows of %s and %s those of %s' % (k, y, x, y, ry, x, rx))
    res.cover('arrays with the same rows', sorted(set(seen)))


def name_groups(k, x, y):
    return k in GROUPS and {x, y} <= {p for g in GROUPS[k] for p in g} and not any({x, y} <= set(g) for g in GROUPS[k])


def made(e, fn, at):
    """the array is allocated here, for the rows of another one"""
    for _ in range(4):
        if isinstance(e, ast.Name):
            d = last_def(fn, e.id, at)
            if d is None or d[0] == 'many' or d[2] is not None or d[1] is None or isinstance(d[0], ast.AugAssign):
                return False
            at, e = d[0], d[1]
        else:
            break
    return isinstance(e, ast.Call) and (B.dotted(e.func) or '').split('.')[-1] in ALLOC


def unrelated(x, y, fn):
    """two parameters (or selections of them): the caller may give arrays of the same length"""
    px, py = x.split('[')[0], y.split('[')[0]
    return px != py and px in fn.all_params and py in fn.all_params


def defs_before(fn, name, at):
    """the assignments of the name that may reach the place: the last one before it in each enclosing block and what is in blocks in between"""
    out = []
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append((n, n.value, None))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name) and e.id == name:
                            out.append((n, n.value, i))
        elif isinstance(n, (ast.AugAssign,)) and isinstance(n.target, ast.Name) and n.target.id == name:
            out.append((n, n.target, None))
        elif isinstance(n, (ast.For, ast.comprehension)):
            if any(isinstance(e, ast.Name) and e.id == name for e in ast.walk(n.target)):
                out.append((n, None, None))
        elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(e, ast.Name) and e.id == name for e in ast.walk(n.optional_vars)):
            out.append((n.context_expr, None, None))
    return out


def path_to(root_, node):
    """[(statement list, index)] from the function down to the statement that contains the node"""
    out = []

    def find(stmts):
        for i, s in enumerate(stmts):
            if any(x is node for x in ast.walk(s)):
                out.append((stmts, i))
                for f in ('body', 'orelse', 'finalbody'):
                    sub = getattr(s, f, None)
                    if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and any(x is node for y in sub for x in ast.walk(y)):
                        find(sub)
                for h in getattr(s, 'handlers', []):
                    if any(x is node for x in ast.walk(h)):
                        find(h.body)
                return
    find(root_.body)
    return out


def last_def(fn, name, at):
    """(statement, value, position) of the assignment that reaches the place; None if there are several or none"""
    path = path_to(fn.node, at)
    all_ = defs_before(fn, name, at)
    for stmts, i in reversed(path):
        for s in reversed(stmts[:i]):
            inside = [d for d in all_ if any(x is d[0] for x in ast.walk(s))]
            if inside:
                if len(inside) == 1 and inside[0][0] is s:
                    return inside[0]
                return ('many', inside)
        owner = stmts[i]
        if isinstance(owner, ast.For) and any(d[0] is owner for d in all_) and any(x is at for y in owner.body for x in ast.walk(y)):
            return [d for d in all_ if d[0] is owner][0]
    return None


def rows(e, fn, at, depth=0):
    """what the rows of the array are those of: a text, or None if not known"""
    if depth > 12:
        return None
    if isinstance(e, ast.Name):
        d = last_def(fn, e.id, at)
        if d is None:
            return e.id if e.id in fn.all_params else None
        if d[0] == 'many':
            rs = set()
            for s, v, i in d[1]:
                if v is None:
                    return None
                rs.add(rows(v.elts[i] if i is not None and isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts) else v, fn, s, depth + 1) if i is None or keeps(v) or isinstance(v, (ast.Tuple, ast.List)) else None)
            r = rs.pop() if len(rs) == 1 else None
            return r or '?%s of lines %s' % (e.id, ', '.join(str(x[0].lineno) for x in d[1]))
        s, v, i = d
        if v is None:
            if isinstance(s, ast.For):
                return '%s of line %d' % (e.id, s.lineno)
            return None
        if isinstance(s, ast.AugAssign):
            return rows(e, fn, s, depth + 1)
        if i is not None and not isinstance(v, (ast.Tuple, ast.List)):
            if keeps(v):
                return rows(v, fn, s, depth + 1)
            return '?%s of line %d' % (e.id, s.lineno)
        if i is not None:
            return rows(v.elts[i], fn, s, depth + 1)
        r = rows(v, fn, s, depth + 1)
        if r is None and isinstance(v, ast.Call):
            # rows of their own, known by the place of the assignment
            return '?%s of line %d' % (e.id, s.lineno)
        return r
    if isinstance(e, ast.Subscript):
        i = e.slice
        if isinstance(i, ast.Constant) and isinstance(i.value, str) or isinstance(i, (ast.JoinedStr, ast.BinOp)) and has_str(i):
            return rows(e.value, fn, at, depth + 1)
        if isinstance(i, ast.Slice) and i.lower is None and i.upper is None and i.step is None:
            return rows(e.value, fn, at, depth + 1)
        b = rows(e.value, fn, at, depth + 1)
        if b is None:
            return None
        return '%s[%s]' % (b, ast.unparse(i)) if isinstance(i, (ast.Slice, ast.Name)) else None
    if isinstance(e, ast.BinOp):
        rs = {rows(x, fn, at, depth + 1) for x in (e.left, e.right) if not scalar(x)}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(e, ast.UnaryOp):
        return rows(e.operand, fn, at, depth + 1)
    if isinstance(e, ast.Call):
        name = (B.dotted(e.func) or getattr(e.func, 'attr', '') or '').split('.')[-1]
        if name in KEEP:
            src = e.func.value if isinstance(e.func, ast.Attribute) and name in ('astype', 'copy', 'round', 'clip', 'ravel') and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy')) else e.args[0] if e.args else None
            return rows(src, fn, at, depth + 1) if src is not None else None
        if name in ALLOC:
            sh = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == 'shape'), None)
            if isinstance(sh, (ast.Tuple, ast.List)) and len(sh.elts) == 1:
                sh = sh.elts[0]
            if isinstance(sh, ast.Name):
                d = last_def(fn, sh.id, at)
                if d and d[0] != 'many' and d[2] is None and d[1] is not None:
                    sh, at = d[1], d[0]
            if isinstance(sh, ast.Subscript) and isinstance(sh.value, ast.Attribute) and sh.value.attr == 'shape' and isinstance(sh.slice, ast.Constant) and sh.slice.value == 0:
                return rows(sh.value.value, fn, at, depth + 1)
            if isinstance(sh, ast.Attribute) and sh.attr in ('shape', 'size'):
                return rows(sh.value, fn, at, depth + 1)
            if isinstance(sh, ast.Call) and B.dotted(sh.func) == 'len' and sh.args:
                return rows(sh.args[0], fn, at, depth + 1)
            return None
        if keeps(e):
            rs = {rows(x, fn, at, depth + 1) for x in list(e.args) + [k.value for k in e.keywords] if not scalar(x)}
            return rs.pop() if len(rs) == 1 else None
    return None


def keeps(v):
    """transformations of positions give as many positions"""
    name = (B.dotted(v.func) or getattr(v.func, 'attr', '') or '') if isinstance(v, ast.Call) else ''
    return name.endswith('_position') and '_to_' in name


def scalar(x):
    if isinstance(x, ast.Constant):
        return True
    if isinstance(x, ast.UnaryOp):
        return scalar(x.operand)
    if isinstance(x, ast.Subscript) and isinstance(x.slice, (ast.Constant, ast.Name, ast.UnaryOp)) and not (isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str)):
        return True
    if isinstance(x, ast.BinOp):
        return scalar(x.left) and scalar(x.right)
    if isinstance(x, ast.Attribute):
        return True
    return False


def has_str(i):
    return any(isinstance(n, ast.Constant) and isinstance(n.value, str) for n in ast.walk(i))
