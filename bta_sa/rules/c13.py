"""C13: parallel processing keeps chunk order and reports failures (tools/smc.py).

R1 failure  - every thread function runs under a wrapper that keeps any exception and sets the stop event, and the
              constructor raises the exception kept once all threads are joined
R2 live     - every waiting loop and waiting call of a thread function ends when the stop event is set
R3 order    - every queue is used first-in first-out with one producing and one consuming thread; results are awaited in order
R4 once     - on every path each chunk taken from a queue is handed on or stored exactly once before the next one is taken
R5 marker   - the end marker is sent once, after the last chunk, and no result can be mistaken for it
R6 add      - histograms are added element by element and keep their content when they are enlarged
R7 same     - the serial and the parallel branch call the function with the same data and keywords
R8 unordered- no step consumes parallel results in completion order
"""
import ast

from ..flow import Flow, path_of
from ..inline import inlined, same_class
from ..normalize import normalise
from ..loader import dotted, pos, walk_local, PKG, AnalysisError

ID = 'C13'
TECHNIQUE = 'typestate dataflow of the chunk held by each thread (taken, handed on, stored) on every path, queue-discipline and failure-path rules over the thread functions'
MINIMUM = {'thread_functions': 2, 'queues': 1, 'waiting_loops': 2, 'paths_checked': 2, 'parallel_sites': 2}
LEVEL_NOTE = ('static analysis of every path of the thread functions of SMC with their helpers expanded; assumes that a worker process is not killed from outside '
              '(multiprocessing.Pool then never delivers a result)')

PUSH = {'append': 'r', 'appendleft': 'l', 'put': 'r', 'put_nowait': 'r'}
POP = {'popleft': 'l', 'pop': 'r', 'get': 'l', 'get_nowait': 'l'}
QUEUES = {'deque', 'Queue', 'SimpleQueue', 'collections.deque', 'queue.Queue', 'JoinableQueue'}


def self_attr(n):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' else None


def starts(prog, cls, m):
    """Does the method, or a helper it calls, start threads (and is it not such a helper itself)?"""
    def direct(x):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('start', 'join') or (isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'Thread') for n in ast.walk(x.node))
    return direct(m) or any(isinstance(n, ast.Call) and self_attr(n.func) in cls.methods and direct(cls.methods[self_attr(n.func)]) for n in ast.walk(m.node))


def alias_groups(node):
    """Union-find over names, attributes and list elements that may be the same object."""
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x

    def union(a, b):
        if a and b:
            par[find(a)] = find(b)
    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for v in (n.value.elts if isinstance(n.value, (ast.List, ast.Tuple)) and not isinstance(t, (ast.Tuple, ast.List)) else [n.value]):
                    if isinstance(t, (ast.Name, ast.Attribute)):
                        union(path_of(t), path_of(v))
        elif isinstance(n, ast.For) and isinstance(n.target, (ast.Name, ast.Attribute)):
            for v in n.iter.elts if isinstance(n.iter, (ast.List, ast.Tuple)) else [n.iter]:
                union(path_of(n.target), path_of(v))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args:
            union(path_of(n.func.value), path_of(n.args[0]))
    return find


class Class(object):
    """What the rules need to know about the class."""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.methods = {n: normalise(inlined(m, same_class(prog, cls), 1)) if starts(prog, cls, m) else normalise(inlined(m, lambda c: None)) for n, m in cls.methods.items()}
        self.queues, self.events, self.threads = set(), set(), []
        self.skipped = set()
        helpers = {self_attr(n.func) for m in cls.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Call) and self_attr(n.func)}
        self.alias = alias_groups(ast.Module([m.node for m in self.methods.values()], []))
        for m in self.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    d = dotted(n.value.func) or ''
                    for t in n.targets:
                        a = self_attr(t)
                        if a and d.split('.')[-1] in QUEUES:
                            self.queues.add(a)
                        if a and d.split('.')[-1] == 'Event':
                            self.events.add(a)
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'Thread':
                    kw = {k.arg: k.value for k in n.keywords}
                    if self_attr(kw.get('target')) is None or (isinstance(kw.get('args'), (ast.Tuple, ast.List)) and any(isinstance(a, ast.Name) and a.id in m.params for a in kw['args'].elts)):
                        if m.fn.name in helpers:
                            self.skipped.add(m.fn.name)
                            continue     # seen in its callers, with the arguments bound
                    self.threads.append((m, n, kw.get('target'), kw.get('args')))


def handler_catches(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any((dotted(t) or '').split('.')[-1] in ('BaseException', 'Exception') for t in ts)


def paths_all(stmts, pred):
    """Does every path through the statements that does not raise contain a statement with pred?"""
    for s in stmts:
        if isinstance(s, ast.If):
            if pred(s.test) or (paths_all(s.body, pred) and paths_all(s.orelse, pred)):
                return True
        elif isinstance(s, (ast.For, ast.While)):
            continue
        elif isinstance(s, ast.With):
            if paths_all(s.body, pred):
                return True
        elif isinstance(s, ast.Try):
            if paths_all(s.finalbody, pred) or (paths_all(s.body, pred) and all(paths_all(h.body, pred) for h in s.handlers)):
                return True
        elif isinstance(s, ast.Raise):
            return True
        elif isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return any(pred(x) for x in ast.walk(s))
        elif any(pred(x) for x in ast.walk(s)):
            return True
    return False


def calls_on(attr, meth):
    return lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == meth and self_attr(x.func.value) == attr


def keeper(m, callee):
    """(attribute that keeps the exception, stop events set) if method m runs callee(..) and keeps its exceptions."""
    for t in ast.walk(m.node):
        if not isinstance(t, ast.Try) or not any(isinstance(x, ast.Call) and callee(x.func) for s in t.body for x in ast.walk(s)):
            continue
        for h in t.handlers:
            if not handler_catches(h):
                continue
            kept = set()
            for s in ast.walk(ast.Module(h.body, [])):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == h.name:
                    kept |= {self_attr(x) for x in s.targets if self_attr(x)}
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or '').endswith('exc_info'):
                    kept |= {self_attr(x) for x in s.targets if self_attr(x)}
            evs = {self_attr(x.func.value) for x in ast.walk(ast.Module(h.body, [])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'set' and self_attr(x.func.value)}
            evs = {e for e in evs if paths_all(h.body, calls_on(e, 'set'))}
            # the first exception is kept unless one is kept already
            ok = {k for k in kept if paths_all(h.body, lambda x: isinstance(x, ast.Assign) and any(self_attr(y) == k for y in x.targets)) or keeps_first(h.body, k)}
            if ok:
                return ok, evs
    return None


def keeps_first(body, k):
    for s in body:
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.Compare) and self_attr(s.test.left) == k and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Is) \
                and isinstance(s.test.comparators[0], ast.Constant) and s.test.comparators[0].value is None:
            return True
    return False


class Chunk(Flow):
    """Typestate of the chunk a thread function holds."""

    def __init__(self, view, c, name, res, stop, stores):
        self.c, self.res, self.name, self.stop, self.stores = c, res, name, stop, stores
        self.qpops = {q for q in c.queues if any(self.pop_of(x) == q for x in ast.walk(view.node))}
        self.gens = set()
        for n in ast.walk(view.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'data_aligned_at_events':
                self.gens |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        Flow.__init__(self, view)
        self.events = 0

    def is_rel(self, k):
        return True

    # data: (phase, variable held, result variables that may be None, markers sent, output: - nothing stored, s stored, f finished)
    def initial(self):
        return ('idle', None, frozenset(), 0, '-')

    def pop_of(self, x):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in POP and self_attr(x.func.value) in self.c.queues:
            return self_attr(x.func.value)
        return None

    def is_next(self, x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'next' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in self.gens

    def note(self, st):
        for c in getattr(self, 'trystack', []):
            c.append(st)

    def raising(self, n):
        return any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(n))

    def bad(self, rule, what, n, msg):
        self.res.add(rule, '%s:%s' % (self.name, what), pos(n), '%s %s' % (self.name, msg))

    def take(self, st, var, n):
        f, (ph, v, mn, mk, fin) = st
        self.events += 1
        if ph == 'held' and not (v and f.get(('eq', v, 'None')) is True):
            self.bad('once', 'lost', n, 'takes the next chunk although the one it holds was not handed on (chunk lost)')
        return (f, ('held', var, mn, mk, fin))

    def give(self, st, n):
        f, (ph, v, mn, mk, fin) = st
        self.events += 1
        if ph != 'held':
            self.bad('once', 'twice', n, 'hands on or stores a chunk a second time')
        if mk:
            self.bad('marker', 'after', n, 'hands on a chunk after the end marker')
        return (f, ('idle', None, mn, mk, 's' if isinstance(n, ast.For) else fin))

    def expr(self, n, st, out):
        if self.raising(n):
            self.note(st)
        for x in sorted((x for x in ast.walk(n) if isinstance(x, ast.Call)), key=lambda x: (x.lineno, x.col_offset)):
            f, d = st
            if isinstance(x.func, ast.Attribute) and x.func.attr in PUSH and self_attr(x.func.value) in self.c.queues and x.args:
                a = x.args[0]
                if isinstance(a, ast.Constant) and a.value is None:
                    if d[3]:
                        self.bad('marker', 'twice', x, 'sends the end marker twice')
                    st = (f, d[:3] + (1,) + d[4:])
                else:
                    if isinstance(a, ast.Name) and a.id in d[2] and f.get(('eq', a.id, 'None')) is not False:
                        self.bad('marker', 'none', x, 'hands on the return value of the function, which is taken for the end marker if it is None')
                    elif isinstance(a, ast.Call) and self_attr(a.func) == 'func':
                        self.bad('marker', 'none', x, 'hands on the return value of the function, which is taken for the end marker if it is None')
                    st = self.give(st, x)
        return st

    def bind(self, target, value, st, out, stmt):
        f, d = st
        if isinstance(stmt, (ast.For,)) and isinstance(target, (ast.Name, ast.Tuple)):
            it = stmt.iter
            if (isinstance(it, ast.Call) and (dotted(it.func) or '').split('.')[-1] == 'data_aligned_at_events') or (isinstance(it, ast.Name) and it.id in self.gens):
                var = target.id if isinstance(target, ast.Name) else target.elts[0].id if isinstance(target.elts[0], ast.Name) else None
                return self.take(st, var, stmt)
            return st
        if value is None or not isinstance(target, ast.Name):
            return st
        calls = [x for x in ast.walk(value) if isinstance(x, ast.Call)]
        if any(self.pop_of(x) for x in calls) or any(self.is_next(x) for x in calls):
            return self.take(st, target.id, stmt)
        mn = d[2] - {target.id}
        if isinstance(value, ast.Call) and self_attr(value.func) == 'func':
            mn = mn | {target.id}
        elif isinstance(value, ast.Name) and value.id in d[2] and st[0].get(('eq', value.id, 'None')) is not False:
            mn = mn | {target.id}
        var = d[1]
        if var == target.id and d[0] == 'held':
            var = '?' if not (isinstance(value, ast.Name)) else value.id
        if d[0] == 'held' and isinstance(value, ast.Name) and value.id == d[1]:
            var = d[1]
        return (f, (d[0], var, mn, d[3], d[4]))

    def s_For(self, s, states, out):
        k = store_paths(s, self.stores)
        if k is not None:
            if k != {1}:
                self.bad('once', 'store', s, 'stores %s results per item instead of one on some path of this loop' % '/'.join(str(x) for x in sorted(k)))
            states = self.ev(s.iter, states, out)
            for st in states:
                self.note(st)
            return [self.kill(self.give(st, s), s) for st in states]
        if any(is_final(x) for x in ast.walk(s)) and not any(self.pop_of(x) for x in ast.walk(s) if isinstance(x, ast.Call)):
            if not paths_all(s.body, is_final):
                self.bad('once', 'final', s, 'finishes the output of some results only')
            return [(f, d[:4] + ('f',)) for f, d in Flow.s_For(self, s, states, out)]
        return Flow.s_For(self, s, states, out)

    def stop_test(self, t):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('wait', 'is_set') and self_attr(x.func.value) in self.stop for x in ast.walk(t))

    def s_While(self, s, states, out):
        self.loops = getattr(self, 'loops', [])
        self.loops.append(s)
        r = Flow.s_While(self, s, states, out)
        self.loops.pop()
        if not any(isinstance(x, ast.Call) for x in ast.walk(s.test)):
            pass
        return r

    def s_Break(self, s, states, out):
        for f, (ph, v, mn, mk, fin) in states:
            if ph == 'held' and not self.stopped(s, False) and not (v and (f.get(('eq', v, 'None')) is True or f.get(('t', v)) is False)):
                self.bad('once', 'dropped', s, 'leaves its loop while holding a chunk that was not handed on')
            elif ph == 'idle' and self.qpops and not self.stopped(s):
                self.bad('once', 'early', s, 'leaves its loop without having received the end marker')
        return Flow.s_Break(self, s, states, out)

    def stopped(self, s, inner_ok=True):
        """Is the break under a test of the stop event, or in a loop that does not take chunks?"""
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.If) and self.stop_test(n.test) and any(x is s for b in n.body for x in ast.walk(b)):
                return True
        if not inner_ok:
            return False
        inner = None
        for n in ast.walk(self.fn.node):
            if isinstance(n, (ast.For, ast.While)) and any(x is s for x in ast.walk(n)):
                inner = n
        return inner is not None and not any(self.pop_of(x) or self.is_next(x) for x in ast.walk(inner))


FINAL = ('rename_node', 'create_carray', 'create_array', 'create_earray')


def is_final(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in FINAL


def simple(n):
    """x, x[i] or x[a][b] without slices"""
    while isinstance(n, ast.Subscript):
        if not isinstance(n.slice, (ast.Name, ast.Constant)):
            return False
        n = n.value
    return isinstance(n, ast.Name)


NARROW = {'IndexError': 'pop', 'Empty': 'pop', 'StopIteration': 'next', 'TimeoutError': 'get', 'NoSuchNodeError': 'node', 'Full': 'put', 'NodeError': 'node'}


def call_kind(x, c):
    if isinstance(x.func, ast.Name):
        return 'next' if x.func.id == 'next' else x.func.id
    a = x.func.attr if isinstance(x.func, ast.Attribute) else '?'
    if self_attr(getattr(x.func, 'value', None)) in c.queues:
        return 'pop' if a in POP else 'put' if a in PUSH else a
    if a.endswith('_node'):
        return 'node'
    return a


def swallowed(view, c, res, name):
    """Handlers of a thread function that go on as if nothing happened, other than the expected conditions."""
    for t in ast.walk(view.node):
        if not isinstance(t, ast.Try):
            continue
        kinds = {call_kind(x, c) for s in t.body for x in ast.walk(s) if isinstance(x, ast.Call)}
        for h in t.handlers:
            if paths_all(h.body, lambda x: False) or any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)):
                continue
            if any(isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == h.name and self_attr(s.targets[0]) for s in h.body):
                continue
            ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for ty in ts:
                nm = (dotted(ty) or '?').split('.')[-1] if ty is not None else 'everything'
                if NARROW.get(nm) is None or not kinds <= {NARROW[nm], 'len', 'flush'}:
                    res.add('failure', '%s:swallow' % name, pos(h), '%s goes on after %s instead of reporting the failure' % (name, nm))


def final_values(view, hists, res, name):
    """What is stored in the output array is the histogram collected."""
    arrays = {s.targets[0].id for s in ast.walk(view.node) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call)
              and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in FINAL}
    for s in ast.walk(view.node):
        v = None
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id in arrays:
            v = s.value
        elif is_final(s):
            v = next((k.value for k in s.keywords if k.arg == 'obj'), None)
        if v is not None and not any(isinstance(x, ast.Name) and x.id in hists | derived(view, hists) for x in ast.walk(v)):
            res.add('add', name + ':final', pos(s), '%s stores something else than the histogram collected over all chunks' % name)


def derived(view, hists):
    """Names that stand for an element of the lists."""
    out = set()
    for n in ast.walk(view.node):
        if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id in hists for x in ast.walk(n.iter)):
            out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id in hists:
            out.add(n.targets[0].id)
    return out


def stored_values(view, names, res, name):
    """Results are appended and added as they are."""
    for s in ast.walk(view.node):
        v = None
        if isinstance(s, ast.Call) and is_store(s, names) and s.args:
            v = s.args[0]
        elif isinstance(s, ast.AugAssign) and aug_store(s, names):
            v = s.value
        if isinstance(v, ast.Subscript) and not simple(v):
            res.add('once', name + ':part', pos(s), '%s stores only a part of a result' % name)


def is_store(n, names):
    """tables[i].append(x), table.append(x), hist[..] += x"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append':
        b = n.func.value
        while isinstance(b, ast.Subscript):
            b = b.value
            if isinstance(b, ast.Name) and b.id in names:
                return True
    return False


def aug_store(s, names):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
        b = s.target
        while isinstance(b, ast.Subscript):
            b = b.value
        return isinstance(b, ast.Name) and b.id in names
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Subscript) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        b = s.targets[0]
        while isinstance(b, ast.Subscript):
            b = b.value
        tgt = ast.unparse(s.targets[0])
        return isinstance(b, ast.Name) and b.id in names and tgt in (ast.unparse(s.value.left), ast.unparse(s.value.right))
    return False


def add_store(n, names):
    """np.add(hist.., x, out=hist..)"""
    return isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'add' and any(k.arg == 'out' for k in n.keywords)


def count(stmts, names):
    """(numbers of stores on the paths to the end of the statements, numbers on the paths that leave the iteration)."""
    st, gone = {0}, set()
    for s in stmts:
        if not st:
            break
        g = set()
        if isinstance(s, ast.If):
            (a, ga), (b, gb) = count(s.body, names), count(s.orelse, names)
            k, g = a | b, ga | gb
        elif isinstance(s, (ast.For, ast.While)):
            a, ga = count(s.body, names)
            c = a | ga
            k = {0} if c <= {0} else {0} | c | {9}
        elif isinstance(s, (ast.With, ast.Try)):
            k, g = count(s.body, names)
        elif isinstance(s, (ast.Continue, ast.Break, ast.Return)):
            k, g = set(), {0}
        elif isinstance(s, ast.Raise):
            k = set()
        else:
            k = {sum(is_store(x, names) or add_store(x, names) for x in ast.walk(s)) + aug_store(s, names)}
        gone |= {min(a + b, 9) for a in st for b in g}
        st = {min(a + b, 9) for a in st for b in k}
    return st, gone


def store_paths(s, names):
    """Set of numbers of stores on the paths through the body of a loop, None if it stores nothing."""
    st, gone = count(s.body, names)
    c = st | gone
    return None if c <= {0} else c


def check_add(view, hists, res, name):
    """Histograms are only changed by += and keep their content when enlarged."""
    n = 0
    for blk in blocks(view.node):
        for i, s in enumerate(blk):
            if aug_store(s, hists):
                n += 1
                if isinstance(s, ast.AugAssign) and not isinstance(s.op, ast.Add):
                    res.add('add', name + ':op', pos(s), '%s combines histograms with %s instead of adding them' % (name, type(s.op).__name__))
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, (ast.Name, ast.Subscript)):
                b, depth = s.targets[0], 0
                while isinstance(b, ast.Subscript):
                    b, depth = b.value, depth + 1
                if not (isinstance(b, ast.Name) and b.id in hists):
                    continue
                n += 1
                tgt = ast.dump(s.targets[0]).replace('Store()', 'Load()')
                me = [ast.dump(x) for x in ast.walk(s.value) if isinstance(x, ast.Subscript)]
                if tgt in me and (isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) or isinstance(s.value, ast.Call)):
                    continue
                ok = False
                if isinstance(s.value, ast.Name):
                    for q in blk[:i]:
                        if isinstance(q, ast.Assign) and isinstance(q.targets[0], ast.Subscript) and isinstance(q.targets[0].value, ast.Name) and q.targets[0].value.id == s.value.id \
                                and (ast.dump(q.value) == tgt or tgt in [ast.dump(x) for x in ast.walk(q.value)]):
                            ok = True
                        if isinstance(q, ast.Assign) and isinstance(q.targets[0], ast.Name) and q.targets[0].id == s.value.id and tgt in [ast.dump(x) for x in ast.walk(q.value)] and isinstance(q.value, ast.BinOp):
                            ok = True
                if not ok:
                    res.add('add', name + ':replace', pos(s), '%s replaces a histogram without keeping what earlier chunks contributed' % name)
    return n


def blocks(node):
    for n in ast.walk(node):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def waits(view, c, stop, name, res):
    """Loops that wait and calls that block."""
    n = 0

    def test_stop(t):
        """The loop ends when the event is set: the event is a conjunct (negated) of the condition."""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return any(test_stop(v) for v in t.values)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = t.operand
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or):
                return any(test_stop(ast.UnaryOp(ast.Not(), v)) for v in x.values)
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('wait', 'is_set') and self_attr(x.func.value) in stop
        return False

    def leaves(s):
        for i in s.body:
            if isinstance(i, ast.If) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('wait', 'is_set') and self_attr(x.func.value) in stop for x in ast.walk(i.test)) \
                    and not isinstance(i.test, ast.UnaryOp) and isinstance(i.body[-1], (ast.Break, ast.Return, ast.Raise)):
                return True
        return False
    for x in ast.walk(view.node):
        if isinstance(x, ast.While):
            n += 1
            if not test_stop(x.test) and not leaves(x):
                res.add('live', '%s:loop' % name, pos(x), '%s waits in a loop that does not end when another thread has failed' % name)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            a = x.func.attr
            timed = bool(x.args) or any(k.arg in ('timeout', 'block') for k in x.keywords)
            q = self_attr(x.func.value)
            if a in ('get', 'wait', 'join', 'acquire') and not timed and not isinstance(x.func.value, ast.Constant) and not (a == 'join' and q is None):
                n += 1
                if isinstance(x.func.value, (ast.Name, ast.Attribute, ast.Subscript)) and a != 'acquire':
                    res.add('live', '%s:%s' % (name, a), pos(x), '%s blocks in %s() without a timeout, so a failure elsewhere leaves it hanging' % (name, a))
            elif a == 'put' and q in c.queues and not timed:
                pass
    return n


def raises_kept(prog, c, kept):
    """Method in which the kept exception is raised, and whether this happens unconditionally when there is one."""
    for name, m in c.methods.items():
        for s in ast.walk(m.node):
            if isinstance(s, ast.Raise) and s.exc is not None and any(self_attr(x) in kept for x in ast.walk(s.exc)):
                return m, s
    return None


def reachable(c, start):
    seen, todo = set(), [start]
    while todo:
        n = todo.pop()
        if n in seen or n not in c.methods:
            continue
        seen.add(n)
        for x in ast.walk(c.cls.methods[n].node):
            if isinstance(x, ast.Call) and self_attr(x.func):
                todo.append(x.func.attr)
    return seen


def run(prog, res, tier):
    for r, t in (('failure', 'exceptions of every thread are kept, stop the others and are raised by the constructor'), ('live', 'waiting loops and calls end when the stop event is set'),
                 ('order', 'queues are first-in first-out with one producer and one consumer'), ('once', 'every chunk is handed on or stored exactly once on every path'),
                 ('marker', 'one end marker after the last chunk; no result can be mistaken for it'), ('add', 'histograms are added and keep their content'),
                 ('same', 'serial and parallel branches call the function alike'), ('unordered', 'no results in completion order')):
        res.rule(r, t)
    res.assumptions += ['worker processes are not killed from outside', 'the function given to SMC does not change global state']
    cls = prog.cls('tools.smc.SMC')
    c = Class(prog, cls)
    if not c.threads:
        raise AnalysisError('no threads found in SMC')
    roles, stop, kept = {}, None, set()
    for m, n, target, args in c.threads:
        t = self_attr(target) if target is not None else None
        if t is None or t not in c.methods:
            raise AnalysisError('thread target not resolved at %s' % pos(n))
        inner = [self_attr(a) for a in args.elts if self_attr(a) in c.methods] if isinstance(args, (ast.Tuple, ast.List)) else []
        if inner:
            params = c.methods[t].params[1:]
            role = inner[0]
            p = params[[self_attr(a) for a in args.elts].index(role)]
            k = keeper(c.methods[t], lambda f: isinstance(f, ast.Name) and f.id == p)
        else:
            # the function itself may be a wrapper of the whole work
            role = t
            k = None
            for x in ast.walk(c.methods[t].node):
                if isinstance(x, ast.Call) and self_attr(x.func) in c.methods:
                    kk = keeper(c.methods[t], lambda f, a=self_attr(x.func): self_attr(f) == a)
                    if kk:
                        k, role = kk, self_attr(x.func)
            if k is None:
                b = [s for s in c.methods[t].node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(b) == 1 and isinstance(b[0], ast.Try):
                    k = keeper(c.methods[t], lambda f: True)
        roles[role] = (m, n)
        if k is None:
            res.add('failure', '%s:kept' % role, pos(n), 'an exception in the thread function %s is not kept, so a failure is not reported' % role)
            continue
        kept |= k[0]
        stop = k[1] if stop is None else stop & k[1]
        if not k[1]:
            res.add('failure', '%s:stop' % role, pos(n), 'an exception in the thread function %s does not stop the other threads' % role)
    if not stop:
        stop = {e for e in c.events if 'stop' in e} or set(c.events)
    # R1: raised by the constructor
    r = raises_kept(prog, c, kept) if kept else None
    reach = reachable(c, '__init__')
    if kept and (r is None or r[0].name not in reach):
        res.add('failure', 'raise', pos(cls.node), 'the exception kept by the threads is never raised again')
    elif kept:
        m, s = r
        guard = [x for x in ast.walk(m.node) if isinstance(x, ast.If) and any(y is s for b in x.body for y in ast.walk(b))]
        for g in guard:
            t = g.test
            okg = self_attr(t) in kept or (isinstance(t, ast.Compare) and self_attr(t.left) in kept and isinstance(t.ops[0], ast.IsNot))
            if not okg:
                res.add('failure', 'raise', pos(g), 'the exception kept by the threads is raised only under an additional condition')
        # joined before
        v = normalise(inlined(cls.methods[m.name], same_class(prog, cls, set(roles))))
        order = [x for x in ast.walk(v.node) if isinstance(x, (ast.Call, ast.Raise))]
        allsm = {target_name(x) for mm in c.methods.values() if mm.fn.name not in c.skipped for x in ast.walk(mm.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'start'}
        allj = {target_name(x) for mm in c.methods.values() for x in ast.walk(mm.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and not x.args and not x.keywords}
        joined = {c.alias(x) for x in allj}
        for x in sorted(x for x in allsm if c.alias(x) not in joined):
            res.add('failure', 'join:%s' % x, pos(m.node), 'the thread %s is not waited for before the result is taken as complete' % x)
        # the call that runs the threads comes first
        tops = [i for i, b in enumerate(v.node.body) if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and target_name(x) in allj for x in ast.walk(b))]
        here = [i for i, b in enumerate(v.node.body) if any(isinstance(x, ast.Raise) and x.exc is not None and any(self_attr(y) in kept for y in ast.walk(x.exc)) for x in ast.walk(b))]
        if tops and here and max(here) < max(tops):
            res.add('failure', 'raise', pos(s), 'the exception kept by the threads is looked at before all threads have finished')
    # R2..R5 per thread function
    producers, consumers = {}, {}
    loops = npaths = nadd = 0
    for role in sorted(roles):
        m = c.methods[role]
        v = normalise(inlined(cls.methods[m.name], same_class(prog, cls, set(roles))))
        loops += waits(v, c, stop, role, res)
        names = {n.id for n in ast.walk(v.node) if isinstance(n, ast.Name)}
        tables, hists = set(), set()
        for n in ast.walk(v.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name) and n.args:
                a = n.args[0]
                if any(isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('zeros_like', 'zeros', 'copy', 'array') for x in ast.walk(a)):
                    hists.add(n.func.value.id)
                if isinstance(a, ast.Name) and any(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == a.id and isinstance(s.value, ast.Call)
                                                   and (dotted(s.value.func) or '').endswith('create_table') for s in ast.walk(v.node)) or (isinstance(a, ast.Call) and (dotted(a.func) or '').endswith('create_table')):
                    tables.add(n.func.value.id)
        # the same lists under other names
        for _ in range(4):
            for n in ast.walk(v.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name):
                    for g in (tables, hists):
                        if n.value.id in g or n.targets[0].id in g:
                            g |= {n.value.id, n.targets[0].id}
        fl = Chunk(v, c, role, res, stop, tables | hists)
        end, out = fl.run()
        swallowed(v, c, res, role)
        if tables or hists:
            final_values(v, hists, res, role)
            stored_values(v, tables | hists, res, role)
            if not any(is_final(x) for x in ast.walk(v.node)):
                anyw = any(is_final(x) for mm in c.methods.values() for x in ast.walk(mm.node))
                if not anyw:
                    res.add('once', role + ':final', pos(m.node), 'the collected results are never written under their name')
            else:
                for f, d in end + [(f, d) for f, d, _ in out.ret]:
                    stopped = any(k[0] == 't' and val[0] and any(k[1].startswith('self.%s.' % e) for e in stop) for k, val in f.d.items())
                    if d[4] == 's' and not stopped:
                        res.add('once', role + ':final', pos(m.node), '%s can end normally without finishing the output it has stored' % role)
        npaths += fl.events > 0
        nadd += check_add(v, hists, res, role)
        push = {}
        for n in ast.walk(v.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and self_attr(n.func.value) in c.queues:
                q, a = self_attr(n.func.value), n.func.attr
                if a in PUSH:
                    producers.setdefault(q, {}).setdefault(role, set()).add((a, pos(n)))
                    push[q] = n
                elif a in POP:
                    consumers.setdefault(q, {}).setdefault(role, set()).add((a, pos(n)))
                elif a in ('reverse', 'rotate', 'insert', 'clear', 'remove', 'sort', 'extendleft'):
                    res.add('order', '%s:%s' % (q, a), pos(n), 'the queue %s is changed by %s()' % (q, a))
        # one marker at the normal end
        if push:
            for f, d in end:
                if d[3] != 1:
                    res.add('marker', role + ':missing', pos(m.node), '%s can finish without sending the end marker' % role)
            for f, d, s in out.ret:
                if d[3] != 1 and not fl.stopped(s):
                    res.add('marker', role + ':missing', pos(s), '%s can return without sending the end marker' % role)
    for q in sorted(c.queues):
        pr, co = producers.get(q, {}), consumers.get(q, {})
        if len(pr) != 1 or len(co) != 1:
            res.add('order', '%s:threads' % q, pos(cls.node), 'the queue %s is filled by %d and emptied by %d thread functions' % (q, len(pr), len(co)))
        sides = {PUSH[a] for s in pr.values() for a, _ in s}, {POP[a] for s in co.values() for a, _ in s}
        if len(sides[0]) == 1 and len(sides[1]) == 1 and sides[0] == sides[1] or len(sides[0]) > 1 or len(sides[1]) > 1:
            w = sorted(x for s in co.values() for _, x in s)
            res.add('order', '%s:fifo' % q, w[0] if w else pos(cls.node), 'the queue %s is not used first-in first-out: chunks change their order' % q)
    # R7
    nsame = same_call(prog, c, roles, res)
    # R8
    npar = 0
    for fn in prog.fns.values():
        for n in walk_local(fn.node):
            if isinstance(n, ast.Call):
                d = (dotted(n.func) or '').split('.')[-1]
                if d in ('imap_unordered', 'as_completed'):
                    res.add('unordered', fn.qual[len(PKG) + 1:], pos(n), '%s takes parallel results in the order of completion' % fn.qual[len(PKG) + 1:])
                if d in ('apply_async', 'map_async', 'starmap_async', 'map', 'imap', 'starmap', 'submit') and isinstance(n.func, ast.Attribute):
                    npar += 1
                    for k in n.keywords:
                        if k.arg == 'callback' and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                            res.add('unordered', fn.qual[len(PKG) + 1:], pos(n), '%s collects parallel results in a callback, in the order of completion' % fn.qual[len(PKG) + 1:])
    res.cover('thread_functions', sorted(roles))
    res.cover('queues', sorted(c.queues))
    res.cover('waiting_loops', loops)
    res.cover('paths_checked', npaths)
    res.cover('histogram_updates', nadd)
    res.cover('parallel_sites', npar)
    res.cover('function_calls', nsame)


def target_name(call):
    return dotted(call.func.value) or '?'


def same_call(prog, c, roles, res):
    """Both ways of calling the user function get the chunk, the function and its keywords."""
    n = 0
    for role in sorted(roles):
        v = normalise(inlined(c.cls.methods[role], same_class(prog, c.cls, set(roles))))
        for x in ast.walk(v.node):
            if not isinstance(x, ast.Call):
                continue
            serial = self_attr(x.func) == 'func'
            par = any(self_attr(y) == 'func' for k in x.keywords for y in [k.value]) or any(self_attr(y) == 'func' for y in x.args)
            if serial or par:
                n += 1
                attrs = {self_attr(y) for y in ast.walk(x)}
                for a in list(x.args) + [k.value for k in x.keywords]:
                    if isinstance(a, ast.Subscript):
                        res.add('same', '%s:%s' % (role, 'serial' if serial else 'parallel'), pos(x), '%s calls the function with a part of the chunk' % role)
                if 'func_kwargs' not in attrs:
                    res.add('same', '%s:%s' % (role, 'serial' if serial else 'parallel'), pos(x), '%s calls the function without the keywords it was given' % role)
    # the remote side unpacks them
    mod = c.cls.module
    f = mod.functions.get('_run_with_dill')
    if f is not None:
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'func']
        for x in calls:
            n += 1
            if not (x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == f.params[0]) or not any(k.arg is None for k in x.keywords):
                res.add('same', '_run_with_dill', pos(x), 'the worker calls the function without the data or its keywords')
    return n
