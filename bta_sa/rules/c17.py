"""C17: files, process pools and PDF writers are released on every exit.

R1 released   - every file, PDF writer or pool a function opens is managed by a with block / ExitStack, or is released on every
                path out of the function, including the path taken when any statement in between raises
R2 attribute  - a resource kept on an object is released in a finally clause around everything that can open it
R3 temporary  - every temporary file ("..._tmp...") written through a step is removed on every normal path out of the function
R4 threads    - every thread that is started is joined on every normal path out of the function
"""
import ast

from ..loader import walk_local, dotted, pos, PKG
from ..flow import Flow

ID = 'C17'
TECHNIQUE = 'typestate dataflow (open/released) on every path including exceptional exits, with ownership classification of every opening site'
MINIMUM = {'opening_sites': 60, 'temporary_files': 2, 'threads': 1}

CREATORS = {'tables.open_file', 'tables.File', 'matplotlib.backends.backend_pdf.PdfPages', 'multiprocessing.Pool', 'multiprocessing.pool.Pool',
            'multiprocessing.pool.ThreadPool', 'concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.ThreadPoolExecutor', 'open', 'io.open',
            'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.TemporaryDirectory', 'gzip.open', 'zipfile.ZipFile', 'h5py.File',
            'numpy.memmap', 'matplotlib.backends.backend_pdf.PdfFile'}
RELEASE = {'close', 'terminate', 'shutdown', 'cleanup', '__exit__'}
SAFE_CALLS = {'isinstance', 'len', 'print', 'logging.info', 'logging.debug', 'logging.warning', 'logging.error'}
SKIP = ('.tools.test_tools',)


def short(f):
    return f.qual[len(PKG) + 1:].replace('.<locals>', '')


def imports_of(f):
    d = dict(f.module.imports)
    chain = []
    while f is not None:
        chain.append(f)
        f = f.parent
    for g in reversed(chain):
        d.update(getattr(g, 'local_imports', {}))
    return d


def full_name(func, imports):
    d = dotted(func)
    if d is None:
        return None
    head, _, rest = d.partition('.')
    if head in imports:
        return imports[head] + ('.' + rest if rest else '')
    return d


class Ctx(object):
    """Which package functions hand an open resource to their caller."""

    def __init__(self, prog):
        self.prog = prog
        self.returning = set()

    def is_creator(self, call, f, imports):
        if not isinstance(call, ast.Call):
            return False
        n = full_name(call.func, imports)
        if n in CREATORS:
            return n != 'open' or 'open' not in f.module.global_names
        if n is None:
            return False
        q = n if n.startswith(PKG) else f.module.name + '.' + n
        if q in self.returning:
            return True
        r = self.prog.resolve(n) if n.startswith(PKG) else None
        if r and r[0] == 'fn' and r[1].qual in self.returning:
            return True
        if n.startswith('self.') and f.cls is not None and '.' not in n[5:]:
            m = self.prog.find_method(f.cls, n[5:])
            return m is not None and m.qual in self.returning
        return False


def subject(n):
    """'v' or 'self.v' for a plain name or an attribute of self."""
    d = dotted(n)
    if d and (d.count('.') == 0 or (d.count('.') == 1 and d.startswith('self.'))):
        return d
    return None


def creators_in(value, ctx, f, imports):
    """Creation calls whose result the expression value evaluates to (through conditional expressions)."""
    if isinstance(value, ast.IfExp):
        return creators_in(value.body, ctx, f, imports) + creators_in(value.orelse, ctx, f, imports)
    if isinstance(value, ast.BoolOp):
        return [c for v in value.values for c in creators_in(v, ctx, f, imports)]
    if isinstance(value, ast.NamedExpr):
        return creators_in(value.value, ctx, f, imports)
    if ctx.is_creator(value, f, imports):
        return [value]
    return []


def stack_names(f):
    """Names bound by 'with ExitStack() as name' (or closing/pushing context managers)."""
    out = set()
    g = f
    while g is not None:
        for n in walk_local(g.node):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if isinstance(i.context_expr, ast.Call) and (dotted(i.context_expr.func) or '').split('.')[-1] in ('ExitStack', 'AsyncExitStack') and isinstance(i.optional_vars, ast.Name):
                        out.add(i.optional_vars.id)
        g = g.parent
    return out


def can_raise(node):
    """May evaluating this expression/statement header raise?  Name and constant handling cannot."""
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            if (dotted(x.func) or '') in SAFE_CALLS or (isinstance(x.func, ast.Attribute) and x.func.attr in RELEASE | {'join', 'flush'} and not x.args):
                continue
            return True
        if isinstance(x, (ast.Subscript, ast.BinOp, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Await, ast.Yield, ast.YieldFrom)):
            return True
    return False


def header(s):
    if isinstance(s, (ast.If, ast.While)):
        return s.test
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return ast.Call(func=ast.Name('next', ast.Load()), args=[s.iter], keywords=[])
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return ast.Tuple(elts=[i.context_expr for i in s.items], ctx=ast.Load())
    if isinstance(s, (ast.Try, ast.FunctionDef, ast.ClassDef)):
        return ast.Pass()
    return s


def releases(n, subj, f, stacks):
    """Does node n (a call) release the resource held in subj?"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        if n.func.attr in RELEASE and dotted(n.func.value) == subj:
            return True
        if isinstance(n.func.value, ast.Name) and n.func.value.id in stacks:
            if n.func.attr in ('enter_context', 'push') and any(dotted(a) == subj for a in n.args):
                return True
            if n.func.attr == 'callback' and any(isinstance(a, ast.Attribute) and a.attr in RELEASE and dotted(a.value) == subj for a in n.args):
                return True
    return False


class Hold(Flow):
    """State of one variable: 'no' / 'open'."""

    def __init__(self, fn, ctx, subj, imports, stacks):
        self.ctx, self.subj, self.imports, self.stacks = ctx, subj, imports, stacks
        self.leaks = []
        self.helpers = self.release_helpers(fn)
        Flow.__init__(self, fn)

    def release_helpers(self, fn):
        """Package functions / nested functions that close one of their parameters: {name: param positions}."""
        out = {}
        cands = list(fn.module.functions.values()) + list(getattr(fn, 'nested', {}).values())
        for g in cands:
            ps = [p for p in g.params if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE
                                             and isinstance(n.func.value, ast.Name) and n.func.value.id == p for n in walk_local(g.node))]
            if ps:
                out[g.name] = {g.params.index(p) for p in ps} | set(ps)
            if any(releases(n, self.subj, g, self.stacks) for n in walk_local(g.node)) and g in getattr(fn, 'nested', {}).values():
                out.setdefault(g.name, set()).add('*')
        return out

    def initial(self):
        return 'no'

    def is_rel(self, k):
        return k[1] == self.subj or Flow.is_rel(self, k)

    def before_stmt(self, s, states, out):
        ts = getattr(self, 'trystack', [])
        h = header(s)
        if ts:
            if can_raise(h):
                ts[-1].extend(states)
            return
        if can_raise(h) and not self.only_release(s):
            for f, d in states:
                if d in ('open', 'maybe'):
                    self.leaks.append((s, 'an error here leaves it open'))

    def only_release(self, s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.rel_call(s.value)

    def rel_call(self, n):
        if releases(n, self.subj, self.fn, self.stacks):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.helpers:
            h = self.helpers[n.func.id]
            return '*' in h or any(i in h and dotted(a) == self.subj for i, a in enumerate(n.args)) or any(k.arg in h and dotted(k.value) == self.subj for k in n.keywords)
        return False

    def expr(self, n, st, out):
        f, d = st
        for x in ast.walk(n):
            if d in ('open', 'maybe') and isinstance(x, ast.Call) and self.rel_call(x):
                d = 'no'
        return (f, d)

    def enter(self, item, st, out, s):
        f, d = st
        ce = item.context_expr
        if d in ('open', 'maybe') and (dotted(ce) == self.subj or (isinstance(ce, ast.Call) and (dotted(ce.func) or '').split('.')[-1] == 'closing' and ce.args and dotted(ce.args[0]) == self.subj)):
            d = 'no'
        return (f, d)

    def bind(self, target, value, st, out, stmt):
        f, d = st
        if isinstance(target, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            return st
        hit = [t for t in ast.walk(target) if dotted(t) == self.subj and isinstance(getattr(t, 'ctx', None), ast.Store)]
        if not hit:
            return st
        if d in ('open', 'maybe'):
            self.leaks.append((stmt, 'it is overwritten while open'))
        if target is hit[0] and value is not None and not isinstance(stmt, (ast.With, ast.For)) and creators_in(value, self.ctx, self.fn, self.imports):
            if isinstance(value, ast.IfExp):
                # opened on one branch only: the variable tells
                return (f, 'maybe')
            f = f.put(('eq', self.subj, 'None'), False, {self.subj}).put(('t', self.subj), True, {self.subj})
            return (f, 'open')
        return (f, 'no')

    def cond(self, test, pol, states):
        res = Flow.cond(self, test, pol, states)
        out = []
        for f, d in res:
            if d in ('open', 'maybe') and (f.get(('eq', self.subj, 'None')) is True or f.get(('t', self.subj)) is False):
                d = 'no'
            out.append((f, d))
        return out


def run(prog, res, tier):
    res.rule('released', 'files, PDF writers and pools are released on every path out of the function that opens them, also when a statement raises')
    res.rule('attribute', 'a resource kept on an object is released in a finally clause around everything that opens it')
    res.rule('temporary', 'temporary files are removed on every normal path out of the function')
    res.rule('threads', 'started threads are joined on every normal path out of the function')
    res.assumptions += ['the context managers of tables, matplotlib, multiprocessing and contextlib release their resource',
                        'logging calls do not raise; release calls do not raise']
    ctx = Ctx(prog)
    fns = [f for q, f in sorted(prog.fns.items()) if not isinstance(f.node, ast.Lambda) and not any(s in q for s in SKIP)]
    # which functions return an open resource (to a fixpoint)
    while True:
        n0 = len(ctx.returning)
        for f in fns:
            imports = imports_of(f)
            held = set()
            for n in walk_local(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and creators_in(n.value, ctx, f, imports):
                    held.add(n.targets[0].id)
            for n in walk_local(f.node):
                if isinstance(n, ast.Return) and n.value is not None and (creators_in(n.value, ctx, f, imports) or (isinstance(n.value, ast.Name) and n.value.id in held)):
                    ctx.returning.add(f.qual)
        if len(ctx.returning) == n0:
            break
    sites, withs, flows, attrs = 0, 0, 0, {}
    for f in fns:
        imports = imports_of(f)
        stacks = stack_names(f)
        held = {}
        for n in walk_local(f.node):
            if not ctx.is_creator(n, f, imports):
                continue
            sites += 1
            where = pos(n)
            p, c = n._parent, n
            while isinstance(p, (ast.IfExp, ast.BoolOp, ast.NamedExpr)) and not (isinstance(p, ast.IfExp) and p.test is c):
                if isinstance(p, ast.NamedExpr):
                    break
                c, p = p, p._parent
            if isinstance(p, ast.Call) and (dotted(p.func) or '').split('.')[-1] == 'closing':
                c, p = p, p._parent
            if isinstance(p, ast.withitem) and p.context_expr is c:
                withs += 1
                continue
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('enter_context', 'push') and isinstance(p.func.value, ast.Name) and p.func.value.id in stacks:
                withs += 1
                continue
            if isinstance(p, ast.Return):
                continue          # handed to the caller, where it is followed
            name = full_name(n.func, imports).split('.')[-1]
            tgt = p.targets[0] if isinstance(p, ast.Assign) and len(p.targets) == 1 else p.target if isinstance(p, (ast.NamedExpr, ast.AnnAssign)) else None
            s = subject(tgt) if tgt is not None else None
            if s is None:
                res.add('released', '%s:%s' % (short(f), name), where, 'the result of %s is not held in a variable, with block or ExitStack that releases it' % name)
            else:
                held.setdefault(s, []).append((n, name))
        for s, lst in sorted(held.items()):
            flows += 1
            h = Hold(f, ctx, s, imports, stacks)
            end, out = h.run()
            leaks = list(h.leaks)
            for x in end:
                if x[1] in ('open', 'maybe'):
                    leaks.append((f.node, 'it is still open at the end of the function'))
            for x in out.ret:
                if x[1] in ('open', 'maybe') and not (x[2].value is not None and dotted(x[2].value) == s):
                    leaks.append((x[2], 'it is still open when the function returns here'))
            for x in out.exc:
                if x[1] in ('open', 'maybe'):
                    leaks.append((x[2], 'an error here leaves it open'))
            if leaks and s.startswith('self.') and f.cls is not None and attribute_released(prog, f, s):
                attrs[f.cls.name + '.' + s[5:]] = 1
                continue
            if leaks:
                l = leaks[0]
                kind = 'attribute' if s.startswith('self.') else 'released'
                res.add(kind, '%s:%s=%s' % (short(f), s, lst[0][1]), pos(lst[0][0]), '%s opened by %s is not released on every exit: %s (%s)' % (s, lst[0][1], l[1], pos(l[0])))
    res.cover('opening_sites', sites)
    res.cover('managed_by_with', withs)
    res.cover('followed_variables', flows)
    res.cover('released_attributes', sorted(attrs))
    temporaries(prog, res, fns)
    threads(prog, res, fns)


def attribute_released(prog, f, subj):
    """Some method of the class has try: <reaches f> finally: <releases subj>."""
    c = f.cls
    methods = {}
    for k in reversed(prog.mro(c)):
        methods.update(k.methods)

    def refs(nodes):
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                d = dotted(x) if isinstance(x, ast.Attribute) else None
                if d and d.startswith('self.') and d[5:] in methods:
                    out.add(d[5:])
        return out

    def reach(names):
        seen, todo = set(), list(names)
        while todo:
            m = todo.pop()
            if m not in seen:
                seen.add(m)
                todo.extend(refs([methods[m].node]))
        return seen
    for m in methods.values():
        for n in walk_local(m.node):
            if isinstance(n, ast.Try) and n.finalbody:
                fin = list(n.finalbody) + [methods[x].node for x in reach(refs(n.finalbody))]
                rel = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in RELEASE and dotted(x.func.value) == subj for b in fin for x in ast.walk(b))
                if rel and f.name in reach(refs(n.body)):
                    # nothing outside the try may start it
                    others = [g for g in methods.values() if f.name in refs([g.node]) and g is not m and g.name not in reach(refs(n.body))]
                    if not others:
                        return True
    return False


# ---- temporary files -------------------------------------------------------------------------------
def is_tmp(value, names):
    for x in ast.walk(value):
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and ('_tmp' in x.value or x.value.endswith('.tmp') or '.tmp' in x.value):
            return True
    return False


class Temp(Flow):
    """State of one temporary file name: 'no' / 'named' / 'made'."""

    def __init__(self, fn, var, consumers, returners=()):
        self.var, self.consumers = var, consumers
        self.lost = []
        Flow.__init__(self, fn)

    def initial(self):
        return 'no'

    def is_rel(self, k):
        return self.var in k[1] or Flow.is_rel(self, k)

    def expr(self, n, st, out):
        f, d = st
        for x in ast.walk(n):
            if not isinstance(x, ast.Call):
                continue
            nm = (dotted(x.func) or '').split('.')[-1]
            args = [(None, a) for a in x.args] + [(k.arg, k.value) for k in x.keywords]
            uses = [k for k, a in args if self.holds(a)]
            if not uses:
                continue
            full = dotted(x.func) or ''
            if full in ('os.remove', 'os.unlink', 'shutil.rmtree') or nm in ('unlink', 'rename', 'move', 'replace') and full.split('.')[0] in ('os', 'shutil'):
                d = 'no'
            elif nm in self.consumers and any(k in self.consumers[nm] for k in uses):
                d = 'no'
            elif any(k and k.startswith('output') for k in uses) and d == 'named':
                d = 'made'
        return (f, d)

    def holds(self, a):
        return isinstance(a, ast.Name) and a.id == self.var or isinstance(a, ast.IfExp) and (self.holds(a.body) or self.holds(a.orelse))

    def cond(self, test, pol, states):
        """os.path.isfile(v) / exists(v) being false means the file is gone."""
        t, p = test, pol
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, p = t.operand, not p
        res = Flow.cond(self, test, pol, states)
        if isinstance(t, ast.Call) and (dotted(t.func) or '').split('.')[-1] in ('isfile', 'exists') and t.args and self.holds(t.args[0]) and not p:
            res = [(f, 'named' if d == 'made' else d) for f, d in res]
        return [(f, 'no' if f.get(('eq', self.var, 'None')) is True else d) for f, d in res]

    def bind(self, target, value, st, out, stmt):
        f, d = st
        if isinstance(target, ast.Name) and target.id == self.var:
            if d == 'made' and not (isinstance(stmt, ast.Assign) and self.tmp(value) and not self.inloop(stmt)):
                self.lost.append(stmt)
            if value is not None and self.tmp(value):
                f = f.put(('eq', self.var, 'None'), False, {self.var}).put(('t', self.var), True, {self.var})
                return (f, 'named')
            return (f, 'no')
        return st

    def inloop(self, s):
        p = s
        while getattr(p, '_parent', None) is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
            if isinstance(p, (ast.For, ast.While)):
                return True
            p = p._parent
        return False

    def tmp(self, value):
        return is_tmp(value, ())

    def loop_runs(self, s, st):
        return True


def temporaries(prog, res, fns):
    # functions that remove the file named by one of their parameters on every normal exit
    consumers = {}
    for f in fns:
        for p in f.all_params:
            if not any(isinstance(n, ast.Call) and (dotted(n.func) or '') in ('os.remove', 'os.unlink') and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == p for n in walk_local(f.node)):
                continue

            class T(Temp):
                def initial(self):
                    return 'made'

                def bind(self, target, value, st, out, stmt):
                    return st
            t = T(f, p, {})
            end, out = t.run()
            if all(d != 'made' for _, d in end) and all(x[1] != 'made' for x in out.ret):
                consumers.setdefault(f.name, set()).add(p)
    n = 0
    for f in fns:
        vs = {}
        for x in walk_local(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and is_tmp(x.value, ()):
                vs.setdefault(x.targets[0].id, x)
        for v, x in sorted(vs.items()):
            t = Temp(f, v, consumers)
            end, out = t.run()
            n += 1
            bad = [(f.node, 'is left behind at the end of the function') for _, d in end if d == 'made']
            bad += [(r[2], 'is left behind when the function returns') for r in out.ret if r[1] == 'made']
            bad += [(s, 'is left behind when the name is reused') for s in t.lost]
            if bad:
                res.add('temporary', '%s:%s' % (short(f), v), pos(x), 'temporary file %s %s (%s)' % (v, bad[0][1], pos(bad[0][0])))
        # temporary names that never reach a variable
        for x in walk_local(f.node):
            if isinstance(x, ast.Call):
                for k in x.keywords:
                    if k.arg and k.arg.startswith('output') and not isinstance(k.value, ast.Name) and is_tmp(k.value, ()):
                        res.add('temporary', '%s:%s' % (short(f), k.arg), pos(x), 'temporary file passed as %s is never removed' % k.arg)
    res.cover('temporary_files', n)
    res.cover('removing_parameters', sorted('%s(%s)' % (k, ', '.join(sorted(v))) for k, v in consumers.items()))


# ---- threads ----------------------------------------------------------------------------------------
class Started(Flow):
    def __init__(self, fn, subj):
        self.subj = subj
        Flow.__init__(self, fn)

    def initial(self):
        return 'no'

    def expr(self, n, st, out):
        f, d = st
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and dotted(x.func.value) == self.subj:
                if x.func.attr == 'start':
                    d = 'run'
                elif x.func.attr == 'join':
                    d = 'no'
        return (f, d)


def threads(prog, res, fns):
    n = 0
    for f in fns:
        imports = imports_of(f)
        for x in walk_local(f.node):
            if isinstance(x, ast.Call) and full_name(x.func, imports) in ('threading.Thread', 'multiprocessing.Process', 'threading.Timer'):
                n += 1
                p = x._parent
                s = subject(p.targets[0]) if isinstance(p, ast.Assign) and len(p.targets) == 1 else None
                if s is None:
                    joined = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'join' and not isinstance(y.func.value, ast.Constant) and not y.args for y in walk_local(f.node))
                    if not joined:
                        res.add('threads', '%s:Thread' % short(f), pos(x), 'a thread is created that nothing joins')
                    continue
                end, out = Started(f, s).run()
                left = [d for _, d in end if d == 'run'] + [r[1] for r in out.ret if r[1] == 'run']
                if left:
                    # joined by another method that is called afterwards?
                    res.add('threads', '%s:%s' % (short(f), s), pos(x), 'thread %s is started but not joined on every normal exit' % s)
    res.cover('threads', n)
