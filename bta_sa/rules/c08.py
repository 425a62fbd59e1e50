"""C08: chunked results accumulate over the whole input.

Every loop that takes a table piece by piece is interpreted for its first turn and for a later one.  Of each value the variables are kept whose
contents before the turn it certainly still contains, and what it was computed from.
R1 restart    - what a later turn leaves in a variable that is used after the loop contains what earlier turns left in it
R2 contribute - what the first turn adds to is added to in every later turn
R3 skip       - a contribution is left out only by a test that is the same in every turn, or that finds the contribution empty; a loop ends early only at a limit the caller set
R4 weights    - a running average pairs the old mean with the old count and the new mean with the new count, both over the same entries and bins; the old count does not yet include this turn, and grows by the new count
R5 nan        - a binned mean is cleared of its empty bins before it enters a running average
R6 bins       - a histogram added to an accumulator is binned as the earlier ones were
R7 moving     - a running mean in closed form uses the count before this turn
R8 reset      - what is accumulated and used for one DUT starts anew for the next
"""
import ast

from ..accum import HISTS, Turn, tail, names, path, base, argument, V, root
from ..inline import inlined, same_module
from ..loader import clone, dotted, pos, walk_local

ID = 'C08'
TECHNIQUE = 'abstract interpretation of every chunk loop, first and later turn, over retained contents and dependences; weights of running averages matched with the histograms they come from'
MINIMUM = {'chunk_loops': 12, 'accumulators': 40, 'running_averages': 4}
LEVEL_NOTE = 'static analysis of every loop over the chunks of a table in the steps and their tools; binning chosen from the first chunk, as documented by the step, is accepted; accumulation across worker processes is decided under C13'
MODULES = ['hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'tools.data_selection', 'tools.analysis_utils', 'tools.plot_utils']


def parents(fn):
    if not hasattr(fn, '_parents'):
        fn._parents = {c: p for p in ast.walk(fn.node) for c in ast.iter_child_nodes(p)}
    return fn._parents


def chunk_loops(fn):
    """Loops that take the contents of a table piece by piece."""
    gens = set()
    for n in walk_local(fn.node):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Call) and tail(x) == 'data_aligned_at_events' for x in ast.walk(n.value)):
            gens |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for n in walk_local(fn.node):
        if isinstance(n, ast.While) and any(isinstance(x, ast.Attribute) and x.attr == 'nrows' for x in ast.walk(n.test)):
            yield n
        if not isinstance(n, ast.For):
            continue
        it = n.iter
        while isinstance(it, ast.Call) and tail(it) in ('tqdm', 'enumerate', 'iter', 'list') and it.args:
            it = it.args[0]
        if isinstance(it, ast.Call) and tail(it) == 'data_aligned_at_events' or isinstance(it, ast.Name) and it.id in gens:
            yield n
        elif isinstance(it, ast.Call) and tail(it) in ('range', 'arange') and (len(it.args) == 3 or any(k.arg == 'step' for k in it.keywords)) and isinstance(n.target, ast.Name):
            ends = [x.upper for x in ast.walk(n) if isinstance(x, ast.Slice) and x.lower is not None and n.target.id in names(x.lower) and x.upper is not None]
            ends += [k.value for x in ast.walk(n) if isinstance(x, ast.Call) for k in x.keywords if k.arg == 'stop']
            if any(n.target.id in names(e) for e in ends):
                yield n


def after(fn, loop):
    """Statements that can run after the loop, innermost block first; blocks of enclosing loops again from their start."""
    par = parents(fn)
    out = []
    n = loop
    while n is not fn.node:
        p = par[n]
        for k in ('body', 'orelse', 'finalbody', 'handlers'):
            b = getattr(p, k, None)
            if isinstance(b, list) and n in b:
                seq = list(b[b.index(n) + 1:])
                if k in ('body', 'orelse') and getattr(p, 'finalbody', None):
                    seq += p.finalbody
                out.append(seq)
                if isinstance(p, (ast.For, ast.While)):
                    out.append(list(b[:b.index(n)]) if not isinstance(p, ast.For) or p is not loop else [])
        n = p
    return out


def reads(stmts, killed, out):
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, ast.Assign):
            use(s.value, killed, out)
            for t in s.targets:
                if not isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    use(t, killed, out)
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        killed.add(x.id)
        elif isinstance(s, ast.AugAssign):
            use(s.value, killed, out)
            r = root(s.target)
            if r and base(r).split('.')[0] not in killed:
                out.add(r)
        elif isinstance(s, ast.If):
            use(s.test, killed, out)
            a, b = set(killed), set(killed)
            reads(s.body, a, out)
            reads(s.orelse, b, out)
            killed |= a & b
        elif isinstance(s, (ast.For, ast.While)):
            use(s.iter if isinstance(s, ast.For) else s.test, killed, out)
            k = set(killed)
            if isinstance(s, ast.For):
                k |= names(s.target)
            reads(s.body, k, out)
            reads(s.orelse, set(killed), out)
        elif isinstance(s, ast.With):
            for i in s.items:
                use(i.context_expr, killed, out)
                if i.optional_vars is not None:
                    killed |= names(i.optional_vars)
            reads(s.body, killed, out)
        elif isinstance(s, ast.Try):
            reads(s.body, set(killed), out)
            for h in s.handlers:
                reads(h.body, set(killed), out)
            reads(s.orelse, set(killed), out)
            reads(s.finalbody, set(killed), out)
        else:
            use(s, killed, out)


def use(n, killed, out):
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in killed:
            out.add(x.id)
        elif isinstance(x, ast.Attribute):
            p = path(x)
            if p and p.split('.')[0] not in killed:
                out.add(p)


def live_out(fn, loop):
    killed, out = set(), set()
    for seq in after(fn, loop):
        reads(seq, killed, out)
    return out


class Returns(object):
    """Parameters whose value the return value of a function certainly contains."""
    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def __call__(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = frozenset(f.all_params)
        rets = [n.value for n in walk_local(f.node) if isinstance(n, ast.Return) and n.value is not None]
        if not rets:
            return self.memo[f.qual]
        wrap = ast.For(target=ast.Name('_', ast.Store()), iter=ast.Name('_', ast.Load()), body=f.node.body, orelse=[])
        ast.copy_location(wrap, f.node)
        t = Turn(self.prog, f, wrap, self)
        t.flag, t.zero, t.none, t.grown = {}, set(), set(), set()
        _, br = t.run()
        keep = None
        for s, st in br:
            if isinstance(s, ast.Return) and s.value is not None:
                c = t.expr(s.value, st).carry
                keep = c if keep is None else keep & c
        self.memo[f.qual] = frozenset(p for p in f.all_params if keep is not None and p in keep)
        return self.memo[f.qual]


class Loop(object):
    def __init__(self, prog, res, fn, loop, rets):
        self.prog, self.res, self.fn, self.loop = prog, res, fn, loop
        self.short = fn.qual.split('.', 1)[1]
        self.live = live_out(fn, loop)
        self.later, self.first = Turn(prog, fn, loop, rets), Turn(prog, fn, loop, rets, True)
        self.outs, self.brk = self.later.run()
        self.fouts, self.fbrk = self.first.run()
        self.last_only = self.lasts()

    def bad(self, rule, what, node, text):
        self.res.add(rule, '%s:%s' % (self.short, what), pos(node), 'in %s, %s' % (self.fn.name, text))

    def lasts(self):
        """Names of which only the last entry is read after the loop."""
        out = set()
        for seq in after(self.fn, self.loop):
            for s in seq:
                sub = {id(x.value) for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.UnaryOp)}
                out |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in sub}
        return self.live - out

    def accumulators(self):
        out = {}
        for o in self.outs + [b for k, b in self.brk if not isinstance(k, ast.Return)]:
            for p in set(o.upd) | o.wiped:
                if base(p).split('.')[0] in self.live and base(p) not in self.last_only and '[' not in p:
                    v = self.later.look(p, o)
                    if v.chunk or p in v.carry or '<fresh>' in v.deps:
                        out.setdefault(p, []).append((o, v))
        return out

    def binning(self):
        """Names that only fix the binning of histograms."""
        out = set()
        for x in ast.walk(self.loop):
            if isinstance(x, ast.Call):
                for k in ('bins', 'range'):
                    a = argument(x, k, None)
                    if a is not None:
                        out |= names(a)
        return out

    def check(self):
        acc = self.accumulators()
        for p, xs in sorted(acc.items()):
            for o, v in xs:
                if p not in v.carry and (v.chunk or '<fresh>' in v.deps):
                    self.bad('restart', p, self.loop, '%s is used after the loop over the chunks, but a later chunk replaces it without what earlier chunks left in it' % p)
                    break
        for p, v, b, s in self.later.elements:
            if p not in v.carry and base(p) in b.carry and base(p) in self.live and (v.chunk or '<fresh>' in v.deps):
                self.bad('restart', p, s, '%s is used after the loop over the chunks, but a later chunk replaces it without what earlier chunks left in it' % p)
        self.contribute()
        self.skip(acc)
        self.reset(acc)
        n = self.averages()
        self.bins()
        self.unweighted()
        for s, p, c, st in self.later.moving:
            if c in st.upd:
                self.bad('moving', p, s, 'the running mean %s is combined with %s, which already counts this chunk' % (p, c))
        return len(acc), n

    def contribute(self):
        binning = self.binning()
        for o in self.fouts:
            for p in sorted(o.upd):
                if base(p).split('.')[0] in self.live and base(p) not in binning and base(p) not in self.last_only and self.first.look(p, o).chunk and '[' not in p:
                    if not any(p in x.upd for x in self.outs):
                        self.bad('contribute', p, self.loop, 'the first chunk contributes to %s, no later chunk does' % p)

    def skip(self, acc):
        if not self.outs:
            return
        full = {}
        for o in self.outs:
            for p, d in o.upd.items():
                full[p] = full.get(p, frozenset()) | d
        for o in self.outs:
            for p in sorted(o.part):
                if p in acc and p in o.upd:
                    self.bad('skip', p, o.part[p] if hasattr(o.part[p], 'lineno') else self.loop, 'the contribution of a chunk to %s is left out on a condition other than having nothing to add' % p)
            for p in sorted(acc):
                if p in full and p not in o.upd:
                    gs = [g for g, pol in o.guards if not isinstance(g, ast.ExceptHandler) and self.later.benign(g, pol, full[p], o)]
                    if not gs:
                        self.bad('skip', p, self.loop, 'the contribution of a chunk to %s is left out on a condition other than having nothing to add' % p)
        limits = set(self.fn.all_params)
        f = self.fn
        while getattr(f, 'parent', None) is not None:
            f = f.parent
            limits |= set(f.all_params)
        for k, o in self.brk:
            if acc and not any(not isinstance(g, ast.ExceptHandler) and names(g) & limits for g, _ in o.guards):
                self.bad('skip', 'break', k, 'the loop over the chunks is left before all chunks have contributed, without a limit set by the caller')

    def reset(self, acc):
        par = parents(self.fn)
        n = self.loop
        outer = None
        while n is not self.fn.node:
            c, n = n, par[n]
            if isinstance(n, ast.For) and n is not self.loop:
                outer, inner = n, c
                break
        if outer is None:
            return
        before = []
        n = self.loop
        while n is not outer:
            p = par[n]
            for k in ('body', 'orelse', 'finalbody'):
                b = getattr(p, k, None)
                if isinstance(b, list) and n in b:
                    before += b[:b.index(n)]
            n = p
        fresh = set(names(outer.target))
        for s in before:
            for x in ast.walk(s):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.With, ast.For)):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.For)) else [i.optional_vars for i in x.items if i.optional_vars is not None]
                    for t in ts:
                        fresh |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                        r = root(t) if isinstance(t, ast.Subscript) else None
                        if r is not None:
                            fresh.add(base(r))
        inside = set()
        killed = set()
        body = []
        n = self.loop
        while n is not outer:
            p = par[n]
            for k in ('body', 'orelse', 'finalbody'):
                b = getattr(p, k, None)
                if isinstance(b, list) and n in b:
                    body += b[b.index(n) + 1:]
            n = p
        reads(body, killed, inside)
        for p, xs in sorted(acc.items()):
            if '.' in p or p not in inside or not any(v.chunk for _, v in xs):
                continue
            set_first = all(p in o.env and p not in self.first.look(p, o).carry for o in self.fouts if p in o.upd) and any(p in o.upd for o in self.fouts)
            if p in fresh or set_first and self.flags() <= fresh:
                continue
            if set_first and not self.flags():
                continue
            self.bad('reset', p, outer, '%s is accumulated over the chunks and used for each turn of the enclosing loop, but starts from what the previous turn left in it' % p)

    def flags(self):
        """Names that tell the first chunk apart in tests inside the loop."""
        out = set()
        for x in ast.walk(self.loop):
            if isinstance(x, ast.If) and self.later.truth(x.test) is not None:
                out |= {self.later.alias.get(y, y) for y in names(x.test) if y in self.later.flag or y in self.later.zero or y in self.later.none or y in self.later.grown}
        t = names(self.loop.target) if isinstance(self.loop, ast.For) else set()
        return out - t

    # --- running averages -----------------------------------------------------------------------------------
    def source(self, n, st, depth=0):
        """(call, cleared of nan) the value comes from."""
        if depth > 6 or n is None:
            return None, False
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and isinstance(n.value, ast.Call):
            return self.source(n.value, st, depth + 1)
        if isinstance(n, ast.Call):
            if tail(n) in ('nan_to_num',) and n.args:
                return self.source(n.args[0], st, depth + 1)[0], True
            if tail(n) in ('copy', 'asarray', 'array', 'ascontiguousarray') and n.args:
                return self.source(n.args[0], st, depth + 1)
            if tail(n) == 'where' and any(isinstance(x, ast.Call) and tail(x) in ('isnan', 'isfinite') for x in ast.walk(n.args[0])):
                return None, True
            return n, False
        p = path(n)
        if p is not None:
            v = st.env.get(p)
            if v is not None and len(v.defs) == 1 and v.defs[0][1] in (None, 0):
                d = v.defs[0][0]
                return self.source(d, self.before(st, p), depth + 1)
        return None, False

    def before(self, st, p):
        """The state in which the definition of p was made: as far as needed, the earlier definition of p itself."""
        o = st.copy()
        v = st.env.get(p)
        if v is not None and v.prev is not None:
            o.env[p] = v.prev
        else:
            o.env.pop(p, None)
        return o

    def same(self, x, y, st):
        a, b = self.forms(x, st), self.forms(y, st)
        return bool(a & b)

    def forms(self, n, st):
        """The expression, and what it is after replacing variables by their definitions, step by step."""
        out = set()
        n = clone(n)
        for _ in range(5):
            out.add(ast.dump(n))
            changed = []

            class Put(ast.NodeTransformer):
                def visit_Name(self, x):
                    v = st.env.get(x.id)
                    if isinstance(x.ctx, ast.Load) and v is not None and len(v.defs) == 1 and v.defs[0][1] is None and x.id not in names(v.defs[0][0]):
                        changed.append(x)
                        return clone(v.defs[0][0])
                    return x
            n = Put().visit(n)
            if not changed:
                break
        return out

    def alike(self, a, b, st):
        """Same entries, same bins."""
        out = []
        for k, i in (('x', 0), ('y', 1), ('sample', 0)):
            if k == 'sample' and tail(a) != 'binned_statistic_dd':
                continue
            if k == 'y' and tail(a) == 'binned_statistic':
                continue
            x, y = argument(a, k, i), argument(b, k, i)
            if y is None and k == 'x':
                y = argument(b, 'a', 0)
            if x is None or y is None:
                return None
            out.append(self.same(x, y, st))
        bi = {'binned_statistic': 3, 'binned_statistic_2d': 4, 'binned_statistic_dd': 3, 'histogram': 1, 'histogram2d': 2, 'histogramdd': 1}
        x, y = argument(a, 'bins', bi[tail(a)]), argument(b, 'bins', bi[tail(b)])
        if x is not None and y is not None:
            out.append(self.same(x, y, st))
        x, y = argument(a, 'range', None), argument(b, 'range', None)
        out.append((x is None) == (y is None) and (x is None or self.same(x, y, st)))
        return all(out)

    def parts(self, n, st):
        while isinstance(n, ast.Call) and tail(n) in ('stack', 'array', 'asarray', 'vstack', 'concatenate') and n.args:
            n = n.args[0]
        if isinstance(n, ast.Name):
            v = st.env.get(n.id)
            if v is not None and len(v.defs) == 1 and v.defs[0][1] is None:
                return self.parts(v.defs[0][0], st)
        return list(n.elts) if isinstance(n, (ast.List, ast.Tuple)) else None

    def averages(self):
        n = 0
        for call, st in self.later.averages:
            a, w = self.parts(argument(call, 'a', 0), st), self.parts(argument(call, 'weights', 2), st)
            if a is None or w is None or len(a) != 2 or len(w) != 2:
                continue
            n += 1
            old = [i for i in (0, 1) if path(a[i]) is not None and path(a[i]) in self.later.look(path(a[i]), st).carry and path(a[i]) not in st.upd]
            if len(old) != 1:
                if len(old) == 0:
                    self.bad('weights', ast.unparse(a[0])[:60], call, 'a running average over %s and %s does not start from the mean of the earlier chunks' % (ast.unparse(a[0]), ast.unparse(a[1])))
                continue
            o = old[0]
            mean, count, new, ncount = a[o], w[o], a[1 - o], w[1 - o]
            name = path(mean)
            cp, np_ = path(count), path(ncount)
            if cp is None or cp not in self.later.look(cp, st).carry or cp in st.upd:
                text = 'already counts this chunk' if cp is not None and cp in st.upd and cp in self.later.look(cp, st).carry else 'is not the count of the earlier chunks'
                self.bad('weights', name, call, 'the mean %s of the earlier chunks is weighted with %s, which %s' % (name, ast.unparse(count)[:60], text))
                continue
            if self.later.look(np_, st).carry & {cp} if np_ else False:
                self.bad('weights', name, call, 'the mean of this chunk is weighted with %s, which counts earlier chunks too' % np_)
                continue
            m, clean = self.source(new, st)
            c, _ = self.source(ncount, st)
            if m is not None and tail(m) in HISTS:
                stat = argument(m, 'statistic', {'binned_statistic': 2, 'binned_statistic_2d': 3, 'binned_statistic_dd': 2}.get(tail(m)))
                if isinstance(stat, ast.Constant) and stat.value != 'mean':
                    self.bad('weights', name, call, 'the running mean %s is combined with a %s' % (name, stat.value))
                if not clean:
                    self.bad('nan', name, call, 'the mean of this chunk enters the running mean %s with its empty bins still nan' % name)
                if c is not None and tail(c) in HISTS:
                    cs = argument(c, 'statistic', {'binned_statistic': 2, 'binned_statistic_2d': 3, 'binned_statistic_dd': 2}.get(tail(c)))
                    if isinstance(cs, ast.Constant) and cs.value != 'count':
                        self.bad('weights', name, call, 'the mean of this chunk is weighted with a %s' % cs.value)
                    elif self.alike(m, c, st) is False:
                        self.bad('weights', name, call, 'the mean of this chunk in %s and its weight %s are over different entries or bins' % (name, ast.unparse(ncount)))
            if not self.grows(cp, np_, ncount, call):
                self.bad('weights', name, call, 'the count %s of the earlier chunks is not increased by %s, the entries of this chunk' % (cp, ast.unparse(ncount)[:60]))
        return n

    def grows(self, cp, np_, ncount, call):
        """Is the old count increased by the new one in the same turn?"""
        for s, r, v, st in self.later.adds:
            if r == cp and (np_ is not None and np_ in names(s.value) | {path(s.value)} or ast.dump(s.value) == ast.dump(ncount)):
                return True
            if r == cp and np_ is not None:
                x, _ = self.source(s.value, st)
                y = self.later_def(np_)
                if x is not None and y is not None and ast.dump(x) == ast.dump(y):
                    return True
        for x in ast.walk(self.loop):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Tuple) and len(t.elts) == 2 and path(t.elts[1]) == cp and isinstance(x.value, ast.Call) and tail(x.value) == 'average':
                        w = argument(x.value, 'weights', 2)
                        if np_ is None or np_ in names(w):
                            return True
                    if path(t) == cp and np_ is not None and {cp.split('[')[0], np_.split('[')[0]} <= names(x.value):
                        return True
        return False

    def unweighted(self):
        for call, st in self.later.plain:
            a = self.parts(argument(call, 'a', 0), st)
            if a is None or len(a) != 2:
                continue
            vs = [self.later.expr(x, st.copy()) for x in a]
            for i in (0, 1):
                p = path(a[i])
                if p is not None and base(p) in self.live and p in vs[i].carry and vs[1 - i].chunk and base(p) not in vs[1 - i].carry:
                    self.bad('weights', p, call, 'the running mean %s is combined with the mean of this chunk without weighting them with their numbers of entries' % p)
        for s, r, v, st in self.later.adds:
            if base(r).split('.')[0] not in self.live or not isinstance(s.op, (ast.Add, ast.Sub)):
                continue
            m, _ = self.source(s.value, st)
            if m is not None and tail(m).startswith('binned_statistic'):
                stat = argument(m, 'statistic', {'binned_statistic': 2, 'binned_statistic_2d': 3, 'binned_statistic_dd': 2}[tail(m)])
                if stat is None or isinstance(stat, ast.Constant) and stat.value in ('mean', 'median', 'std', 'min', 'max'):
                    self.bad('weights', r, s, 'a %s is added to %s' % (stat.value if stat is not None else 'mean', r))

    def later_def(self, p):
        for o in self.outs:
            v = o.env.get(p)
            if v is not None and len(v.defs) == 1:
                return self.source(v.defs[0][0], o)[0]
        return None

    # --- binning --------------------------------------------------------------------------------------------
    def bins(self):
        for s, r, v, st in self.later.adds:
            if base(r).split('.')[0] not in self.live:
                continue
            call, _ = self.source(s.value, st)
            if call is not None and tail(call) in HISTS:
                self.binned(call, st, r, s)
        for call, st in self.later.averages:
            a = self.parts(argument(call, 'a', 0), st)
            for e in a or ():
                c, _ = self.source(e, st)
                if c is not None and tail(c) in HISTS:
                    self.binned(c, st, path(e) or '', call)

    def binned(self, call, st, r, s):
        bi = {'binned_statistic': 3, 'binned_statistic_2d': 4, 'binned_statistic_dd': 3, 'histogram': 1, 'histogram2d': 2, 'histogramdd': 1}
        b, g = argument(call, 'bins', bi[tail(call)]), argument(call, 'range', None)
        chunk = b is not None and self.later.expr(b, st.copy()).chunk or g is not None and self.later.expr(g, st.copy()).chunk
        number = b is None or isinstance(b, ast.Constant)
        if chunk or number and g is None:
            self.bad('bins', r, s, 'the histogram added to %s is binned by the contents of this chunk' % r)


EXCLUDED = {'result_analysis.calculate_residual_correlation': 'cannot run: it calls geometry_utils.apply_alignment, which does not exist (known finding of C16)'}


def run(prog, res, tier):
    rets = Returns(prog)
    n = {'chunk_loops': 0, 'accumulators': 0, 'running_averages': 0}
    for q, f in sorted(prog.fns.items()):
        if isinstance(f.node, ast.Lambda) or not any(f.module.name.endswith('.' + m) for m in MODULES):
            continue
        if f.qual.split('.', 1)[1] in EXCLUDED or not any(True for _ in chunk_loops(f)):
            continue
        v = inlined(f, same_module(f), 2)
        for L in chunk_loops(v):
            a, b = Loop(prog, res, v, L, rets).check()
            n['chunk_loops'] += 1
            n['accumulators'] += a
            n['running_averages'] += b
    for k, x in n.items():
        res.cover(k, x)
