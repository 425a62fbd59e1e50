"""What a step does with plotting switched off (Off), and what of its results depends on that switch (PlotDeps)."""
import ast

from .calls import bound, callee, handed
from .deps import Deps, EMPTY, is_log
from .loader import dotted

UNK = ('unknown',)
FIG = ('figure',)
CREATE = {'create_table', 'create_earray', 'create_carray', 'create_array', 'create_vlarray', 'create_group'}
EFFECT = CREATE | {'remove_node', 'rename_node', 'move_node', 'copy_node', 'copy_children', 'append_where', 'modify_rows', 'modify_column', 'remove_rows', 'set_node_attr'}
OUTSIDE = {'os.remove', 'os.rename', 'os.replace', 'os.unlink', 'shutil.copy', 'shutil.copyfile', 'shutil.move', 'shutil.copy2', 'yaml.dump', 'numpy.save', 'numpy.savetxt', 'numpy.savez', 'json.dump', 'pickle.dump'}


def full(fn, name):
    """Absolute name of something imported."""
    if not name:
        return ''
    head, _, rest = name.partition('.')
    base = fn.module.imports.get(head, head)
    return base + ('.' + rest if rest else '')


def arguments(prog, fn, call, g, skip):
    """parameter -> expression; None if the call cannot be read."""
    if any(k.arg is None for k in call.keywords):
        kws = []
        for k in call.keywords:
            if k.arg is not None:
                kws.append(k)
            elif isinstance(k.value, ast.Call) and dotted(k.value.func) == 'dict' and not k.value.args:
                kws.extend(k.value.keywords)
            elif isinstance(k.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in k.value.keys):
                kws.extend(ast.keyword(arg=x.value, value=y) for x, y in zip(k.value.keys, k.value.values))
            else:
                defs = [n.value for n in ast.walk(fn.node) if isinstance(n, ast.Assign) and isinstance(k.value, ast.Name) and any(isinstance(t, ast.Name) and t.id == k.value.id for t in n.targets)]
                if len(defs) == 1 and isinstance(defs[0], ast.Call) and dotted(defs[0].func) == 'dict' and not defs[0].args:
                    kws.extend(defs[0].keywords)
                elif len(defs) == 1 and isinstance(defs[0], ast.Dict) and all(isinstance(x, ast.Constant) for x in defs[0].keys):
                    kws.extend(ast.keyword(arg=x.value, value=y) for x, y in zip(defs[0].keys, defs[0].values))
                else:
                    return None
        call = ast.Call(func=call.func, args=call.args, keywords=kws)
    b = bound(g, skip, call)
    if b is not None:
        if skip and isinstance(call.func, ast.Attribute) and g.params and g.name != '__init__':
            b[g.params[0]] = call.func.value
        return b
    return None


# ----------------------------------------------------------------------
class Off(object):
    """Constant propagation (True, False, None, figure) through one function and everything it calls."""
    def __init__(self, prog):
        self.prog = prog
        self.memo, self.busy = {}, set()
        self.files = {}      # (call, function): a plot file is created
        self.crashes = {}    # None is used as a PDF
        self.calls = 0

    def run(self, fn, known):
        key = (id(fn.node), tuple(sorted((k, v) for k, v in known.items() if v is not UNK)))
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > 60:
            return (UNK, {}, {})
        self.busy.add(key)
        f, c = self.files, self.crashes
        self.files, self.crashes = {}, {}
        w = OffWalk(self, fn, known)
        out = (w.result(), self.files, self.crashes)
        self.files, self.crashes = f, c
        self.busy.discard(key)
        self.memo[key] = out
        return out


class OffWalk(object):
    def __init__(self, off, fn, known):
        self.off, self.fn, self.prog = off, fn, off.prog
        self.env = {}
        for p in fn.all_params:
            if p in known:
                self.env[p] = known[p]
            elif p in fn.defaults and isinstance(fn.defaults[p], ast.Constant):
                self.env[p] = self.const(fn.defaults[p].value)
            else:
                self.env[p] = UNK
        self.rets = []
        self.dead = False
        self.exits = []
        if isinstance(fn.node, ast.Lambda):
            self.rets.append(self.ev(fn.node.body))
        else:
            self.block(fn.node.body)

    @staticmethod
    def const(v):
        return v if v is None or v is True or v is False else UNK

    def result(self):
        if self.fn.is_generator or 'contextmanager' in ' '.join(d or '' for d in self.fn.decorators):
            return UNK
        out = list(self.rets)
        if not self.dead:
            out.append(None)
        if not out:
            return UNK
        return out[0] if all(x is out[0] or x == out[0] for x in out) else UNK

    @staticmethod
    def merge(a, b):
        return {k: a[k] if a[k] is b[k] or a[k] == b[k] else UNK for k in a if k in b} | {k: UNK for k in set(a) ^ set(b)}

    def block(self, body):
        for s in body:
            self.stmt(s)
            if self.dead:
                return

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            self.bind(s.target, UNK)
        elif isinstance(s, ast.If):
            t = self.truth(self.ev(s.test))
            start = dict(self.env)
            if t is True:
                self.block(s.body)
            elif t is False:
                self.block(s.orelse)
            else:
                self.block(s.body)
                e1, d1 = self.env, self.dead
                self.env, self.dead = start, False
                self.block(s.orelse)
                if d1:
                    pass
                elif self.dead:
                    self.env, self.dead = e1, False
                else:
                    self.env = self.merge(e1, self.env)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if not isinstance(s, ast.While):
                self.ev(s.iter)
            outer, self.exits = self.exits, []
            start = dict(self.env)
            broken = any(isinstance(x, ast.Break) for x in ast.walk(s))
            for k in range(4):
                if isinstance(s, ast.While):
                    if self.truth(self.ev(s.test)) is False:
                        break
                else:
                    self.bind(s.target, UNK)
                self.block(s.body)
                end = self.env
                if not self.dead:
                    self.exits.append(end)
                self.dead = False
                new = start
                for e in self.exits:
                    new = self.merge(new, e)
                if new == start:
                    break
                self.env = dict(new)
                start = new
            self.env = dict(start)
            self.exits = outer
            self.block(s.orelse)
            if broken:
                self.dead = False
                self.env = self.merge(start, self.env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v[1] if isinstance(v, tuple) and v[0] == 'ctx' else UNK)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            d = self.dead
            self.dead = False
            if not d:
                self.block(s.orelse)
                d, self.dead = self.dead, False
            end = self.env
            for h in s.handlers:
                self.env = self.merge(start, end)
                if h.name:
                    self.env[h.name] = UNK
                self.block(h.body)
                if not self.dead:
                    end = self.env if d else self.merge(end, self.env)
                    d = False
                self.dead = False
            self.env = end
            self.block(s.finalbody)
            self.dead = self.dead or d
        elif isinstance(s, ast.Return):
            self.rets.append(None if s.value is None else self.ev(s.value))
            self.dead = True
        elif isinstance(s, ast.Raise):
            self.dead = True
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.exits.append(dict(self.env))
            self.dead = True
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.env[s.name] = ('def', s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assert):
            pass
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(n)

    def bind(self, t, v, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = v[1] if isinstance(v, tuple) and v[0] == 'seq' and len(v[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts) else None
            for k, x in enumerate(t.elts):
                self.bind(x, elts[k] if elts else FIG if v is FIG else UNK)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, UNK)
        elif isinstance(t, ast.Attribute):
            d = dotted(t)
            self.ev(t.value)
            if d:
                self.env[d] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            if isinstance(b, tuple) and b[0] == 'dict' and isinstance(t.value, ast.Name):
                self.env[t.value.id] = ('dict', b[1] + ((t.slice.value, v),)) if isinstance(t.slice, ast.Constant) else UNK

    @staticmethod
    def truth(v):
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, tuple) and v[0] in ('ctx', 'figure', 'def', 'pdf'):
            return True
        return None

    # ------------------------------------------------------------------
    def ev(self, n):
        if isinstance(n, ast.Constant):
            return self.const(n.value)
        if isinstance(n, ast.Name):
            return self.env.get(n.id, UNK)
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.bind(n.target, v)
            return v
        if isinstance(n, ast.UnaryOp):
            t = self.truth(self.ev(n.operand))
            return (not t) if isinstance(n.op, ast.Not) and t is not None else UNK
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            out = None
            known = True
            for x in n.values:
                save = dict(self.env)
                v = self.ev(x)
                t = self.truth(v)
                if t is None:
                    known = False
                elif t is not isand and known:
                    return v
                elif t is not isand:
                    return False if isand else True
                self.env = save if not known else self.env
                out = v
            return out if known else UNK
        if isinstance(n, ast.IfExp):
            t = self.truth(self.ev(n.test))
            if t is not None:
                return self.ev(n.body if t else n.orelse)
            a, b = self.ev(n.body), self.ev(n.orelse)
            return a if a is b or a == b else UNK
        if isinstance(n, ast.Compare):
            vals = [self.ev(x) for x in [n.left] + n.comparators]
            if len(vals) == 2 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                a, b = vals
                same = None
                sing = (None, True, False)
                if any(a is x for x in sing) and any(b is x for x in sing):
                    same = a is b
                elif (b is None or a is None) and self.truth(a if b is None else b) is True:
                    same = False
                if same is not None:
                    return same if isinstance(n.ops[0], (ast.Is, ast.Eq)) else not same
            return UNK
        if isinstance(n, (ast.Tuple, ast.List)):
            vs = tuple(self.ev(x.value if isinstance(x, ast.Starred) else x) for x in n.elts)
            return ('seq', vs) if isinstance(n, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.elts) else UNK
        if isinstance(n, ast.Dict):
            vs = [self.ev(x) for x in n.values]
            if all(isinstance(k, ast.Constant) for k in n.keys):
                return ('dict', tuple((k.value, v) for k, v in zip(n.keys, vs)))
            return UNK
        if isinstance(n, ast.Attribute):
            d = dotted(n)
            if d and d in self.env:
                return self.env[d]
            v = self.ev(n.value)
            if v is None and n.attr == 'savefig':
                self.off.crashes.setdefault(id(n), (n, self.fn))
            return UNK
        if isinstance(n, ast.Lambda):
            save = dict(self.env)
            for a in n.args.args:
                self.env[a.arg] = UNK
            self.ev(n.body)
            self.env = save
            return UNK
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            for g in n.generators:
                self.ev(g.iter)
                self.bind(g.target, UNK)
                for i in g.ifs:
                    self.ev(i)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.ev(e)
            self.env = save
            return UNK
        if isinstance(n, ast.Call):
            return self.call(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return UNK

    def call(self, n):
        name = full(self.fn, dotted(n.func) or '')
        last = name.split('.')[-1]
        f = self.ev(n.func)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        if is_log(n):
            return UNK
        self.off.calls += 1
        if last == 'PdfPages':
            self.off.files.setdefault(id(n), (n, self.fn))
            return ('ctx', ('pdf',))
        if last == 'nullcontext':
            v = args[0] if args else kws.get('enter_result')
            return ('ctx', v)
        if last == 'enter_context' and args:
            return args[0][1] if isinstance(args[0], tuple) and args[0][0] == 'ctx' else UNK
        if last in ('Figure', 'figure', 'subplots', 'gcf'):
            return FIG
        if last == 'bool' and args:
            t = self.truth(args[0])
            return UNK if t is None else t
        if last == 'dict' and not n.args and None not in kws:
            return ('dict', tuple(kws.items()))
        if last in ('savefig', 'print_figure', 'imsave') and (isinstance(n.func, ast.Attribute) and (self.ev(n.func.value) is FIG or name.startswith('matplotlib'))):
            self.off.files.setdefault(id(n), (n, self.fn))
            return UNK
        if isinstance(f, tuple) and f[0] == 'def':
            known = dict(self.env)
            a = f[1].args
            names = [x.arg for x in a.posonlyargs + a.args]
            for p in names + [x.arg for x in a.kwonlyargs]:
                known[p] = UNK
            for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                known[p] = self.ev(d)
            known.update(dict(zip(names, args)))
            known.update({k: v for k, v in kws.items() if k})
            w = OffWalk.__new__(OffWalk)
            w.off, w.fn, w.prog, w.env, w.rets, w.dead, w.exits = self.off, self.fn, self.prog, known, [], False, []
            key = ('nested', id(f[1]))
            if key in self.off.busy:
                return UNK
            self.off.busy.add(key)
            w.block(f[1].body)
            self.off.busy.discard(key)
            out = w.rets + ([] if w.dead else [None])
            return out[0] if out and all(x is out[0] or x == out[0] for x in out) else UNK
        g, skip = callee(self.prog, self.fn, n.func)
        for h, kw in handed(self.prog, self.fn, n):
            self.enter(h, {k: self.ev(v) for k, v in kw.items()})
        if g is None or g.parent is not None:
            for a in list(n.args) + [k.value for k in n.keywords]:    # functions handed on
                d = dotted(a)
                if d and not d.startswith('self.') and d.split('.')[0] not in self.env:
                    h, hs = callee(self.prog, self.fn, a)
                    if h is not None and h.parent is None and h.cls is None and last not in ('partial',):
                        names = h.params
                        self.enter(h, {p: UNK for p in names} | {p: v for p, v in kws.items() if p in names})
            if last == 'partial' and n.args:
                h, hs = callee(self.prog, self.fn, n.args[0])
                if h is not None:
                    self.enter(h, dict(zip(h.params, args[1:])) | {k: v for k, v in kws.items() if k})
            return UNK
        names = g.params[skip:]
        if any(isinstance(a, ast.Starred) for a in n.args):
            return UNK
        known = {p: UNK for p in g.params[:skip]}
        known.update(zip(names, args))
        for k in n.keywords:
            if k.arg is not None:
                known[k.arg] = kws[k.arg]
            else:
                v = self.ev(k.value)
                if not (isinstance(v, tuple) and v[0] == 'dict'):
                    return UNK
                known.update(dict(v[1]))
        return self.enter(g, known)

    def enter(self, g, known):
        r, files, crashes = self.off.run(g, {k: v for k, v in known.items() if k in g.all_params})
        self.off.files.update(files)
        self.off.crashes.update(crashes)
        return r


# ----------------------------------------------------------------------
class Info(object):
    """Of one function: what of its data output, its return value and the objects it is given depends on which parameters."""
    def __init__(self):
        self.effect, self.ret, self.mut, self.writes = EMPTY, EMPTY, {}, False


class PlotDeps(Deps):
    def __init__(self, fn, table):
        self.table = table
        self.base, self.loops = [], []
        self.files = set()       # names of table files and nodes open for writing
        self.sinks = []          # (deps, node)
        self.rets = []           # (value deps, control deps, text, node)
        self.mut = {}
        self.writes = False
        self.guarded = []        # (deps of the test, block)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and self.writer(fn, n.value):
                self.files |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if isinstance(i.context_expr, ast.Call) and self.writer(fn, i.context_expr) and isinstance(i.optional_vars, ast.Name):
                        self.files.add(i.optional_vars.id)
        old = None
        while old != self.files:     # nodes kept in lists and tuples
            old = set(self.files)
            for n in ast.walk(fn.node):
                v, ts = (n.value, n.targets) if isinstance(n, ast.Assign) else (n.iter, [n.target]) if isinstance(n, ast.For) else (None, [])
                if v is not None and (not isinstance(v, ast.Call) or isinstance(v.func, ast.Name) and v.func.id in ('zip', 'enumerate', 'list', 'tuple')) and not isinstance(v, (ast.Compare, ast.BoolOp)) and {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & self.files and not self.inner(v):
                    self.files |= {x.id for t in ts for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        Deps.__init__(self, fn)

    def inner(self, v):
        """Only what is stored in the file is taken: node[...], node.attrs.name, a call on it."""
        for x in ast.walk(v):
            if isinstance(x, (ast.Name,)) and x.id in self.files:
                p = getattr(x, '_parent', None)
                if not isinstance(p, (ast.Subscript, ast.Attribute, ast.Call)) or isinstance(p, ast.Call) and p.func is not x and isinstance(p.func, ast.Name) and p.func.id in ('zip', 'enumerate', 'list', 'tuple'):
                    return False
        return True

    @staticmethod
    def writer(fn, call):
        d = full(fn, dotted(call.func) or '')
        last = d.split('.')[-1]
        if last in CREATE:
            return True
        if last in ('open_file', 'open') and d != 'os.open':
            m = [k.value for k in call.keywords if k.arg == 'mode'] or call.args[1:2]
            return bool(m) and not (isinstance(m[0], ast.Constant) and str(m[0].value).strip('bt') in ('r', ''))
        return False

    def c(self):
        out = EMPTY
        for x in self.ctl + self.base + [y for l in self.loops for y in l]:
            out |= x
        return out

    def sink(self, v, node):
        self.writes = True
        self.sinks.append((v, node))

    def stmt(self, s):
        if isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else EMPTY
            self.rets.append((v, self.c(), ast.unparse(s.value) if s.value is not None else 'None', s))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.loops.append([])
            Deps.stmt(self, s)
            self.loops.pop()
            return
        Deps.stmt(self, s)
        if isinstance(s, ast.If):
            t = self.at.get(id(s.test), EMPTY)
            self.guarded.append((t, s))
            kinds = self.leaves(s.body) | self.leaves(s.orelse)
            if 'ret' in kinds:
                self.base.append(t)
            if 'loop' in kinds and self.loops:
                self.loops[-1].append(t)

    def leaves(self, body, loop=False):
        out = set()
        for s in body:
            if isinstance(s, ast.Return):
                out.add('ret')
            elif isinstance(s, (ast.Break, ast.Continue)):
                if not loop:
                    out.add('loop')
            elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for f in ('body', 'orelse', 'finalbody'):
                    out |= self.leaves(getattr(s, f, []) or [], loop or isinstance(s, (ast.For, ast.While)))
                for h in getattr(s, 'handlers', []):
                    out |= self.leaves(h.body, loop)
        return out

    def hold(self, base, v):
        Deps.hold(self, base, v)
        while isinstance(base, (ast.Subscript, ast.Attribute)):
            base = base.value
        if isinstance(base, ast.Name):
            if base.id in self.files:
                self.sink(v | self.c(), base)
            if base.id in self.fn.all_params:
                self.mut[base.id] = self.mut.get(base.id, EMPTY) | v | self.c()

    def _ev(self, n):
        if not isinstance(n, ast.Call):
            return Deps._ev(self, n)
        v = Deps._ev(self, n)
        if is_log(n):
            return v
        d = full(self.fn, dotted(n.func) or '')
        last = n.func.attr if isinstance(n.func, ast.Attribute) else d.split('.')[-1]
        if last in ('flush', 'close', 'savefig') and isinstance(n.func, ast.Attribute):
            return v
        g, skip = callee(self.table.prog, self.fn, n.func)
        infos = []
        if g is not None and g.parent is None:
            infos = [(g, arguments(self.table.prog, self.fn, n, g, skip))]
        elif g is None and isinstance(n.func, ast.Attribute) and last in self.table.methods and d.split('.')[0] not in ('numpy', 'os', 'tables', 'matplotlib'):
            for m in self.table.methods[last]:
                infos.append((m, arguments(self.table.prog, self.fn, n, m, 1)))
        for h, kw in handed(self.table.prog, self.fn, n):
            infos.append((h, kw))
        ret = None
        for g, b in infos:
            i = self.table.of(g)
            if b is None:
                if i.writes:
                    self.sink(self.c(), n)
                ret = v
                continue
            if i.writes:
                out = self.c()
                for p in i.effect:
                    if p in b:
                        out |= self.ev(b[p])
                self.sink(out, n)
            for p, deps in i.mut.items():
                if p in b and not (g.name == '__init__' and p == 'self'):
                    out = EMPTY
                    for q in deps:
                        if q in b and q != p:
                            out |= self.ev(b[q])
                    self.hold(b[p], out)
            r = EMPTY
            if g.name == '__init__':
                r = v
            else:
                for p in i.ret:
                    if p in b:
                        r |= self.ev(b[p])
            ret = r if ret is None else ret | r
        if infos and ret is not None and g.cls is None:
            return ret
        if not infos:
            if last in EFFECT or self.writer(self.fn, n) or d in OUTSIDE:
                self.sink(v | self.c(), n)
        return v

    def info(self):
        i = Info()
        i.writes = self.writes
        own = {}
        for v, n in self.sinks:
            for x in v:
                if x not in own:
                    own[x] = own_names(self.fn, self, x)
                if not only_own(n, own[x]):
                    i.effect |= {x}
        for v, c, t, n in self.rets:
            i.ret |= v
        if len({t for v, c, t, n in self.rets}) > 1:
            for v, c, t, n in self.rets:
                i.ret |= c
        changed = {p for p, level in self.table.al.of(self.fn).changes} if self.mut else ()
        i.mut = {p: v for p, v in self.mut.items() if p in changed}
        return i


def own_names(fn, d, switch):
    """Names assigned under a test of the switch only: files made for a plot."""
    inside = {id(n) for t, s in d.guarded if switch in t for n in ast.walk(s)}
    names = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) in inside}
    return names - {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inside} - set(fn.all_params)


def only_own(n, own):
    """The call writes or removes nothing but such a file."""
    if not isinstance(n, ast.Call):
        return isinstance(n, ast.Name) and n.id in own
    out = [k.value for k in n.keywords if k.arg and k.arg.startswith('output_')] or n.args[:1]
    return bool(out) and all(isinstance(x, ast.Name) and x.id in own for x in out)


class PlotTable(object):
    def __init__(self, prog, al):
        self.prog, self.al, self.done, self.busy, self.methods = prog, al, {}, {}, {}
        self.deps = {}
        for fn in prog.fns.values():
            if fn.cls is not None and fn.name != '__init__' and not isinstance(fn.node, ast.Lambda):
                self.methods.setdefault(fn.name, []).append(fn)

    def of(self, fn):
        k = id(fn.node)
        if k in self.done:
            return self.done[k]
        if k in self.busy or isinstance(fn.node, ast.Lambda):
            return Info()
        self.busy[k] = 1
        d = PlotDeps(fn, self)
        del self.busy[k]
        self.deps[k] = d
        self.done[k] = d.info()
        return self.done[k]
