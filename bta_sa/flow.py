"""Path-sensitive walk over one function body (syntax-directed, no code is executed).

A state is (facts, data): facts are the truth values of branch conditions known on the path, data is
the client's information (kept small: one variable or one resource at a time).  States with equal data
are merged and keep their common facts, as in property simulation (ESP), so the walk is polynomial and
still correlates a test with the assignment made under the same test earlier.
"""
import ast

from .loader import AnalysisError, pos, walk_local

LIMIT = 3000


def path_of(n):
    """'a' or 'a.b.c' for a name or attribute chain."""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    return '.'.join([n.id] + parts[::-1]) if isinstance(n, ast.Name) else None


def names_in(n):
    """Names and attribute paths an expression depends on."""
    out = set()
    todo = [n]
    while todo:
        x = todo.pop()
        p = path_of(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
        if p is not None:
            out.add(p)
            continue
        todo.extend(ast.iter_child_nodes(x))
    return out


def touches(dep, n):
    return dep == n or dep.startswith(n + '.') or n.startswith(dep + '.')


def stored_names(n):
    """Names and attribute paths whose binding a statement may change."""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            p = path_of(x)
            if p:
                out.add(p)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split('.')[0])
    return out


MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem', 'fill',
       'popleft', 'appendleft', 'set'}


def mutated_names(n):
    """Names and paths whose contents (not binding) an expression or statement may change."""
    out = set()
    for x in ast.walk(n):
        b = None
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
            b = x.func.value
        while b is not None and path_of(b) is None and isinstance(b, (ast.Subscript, ast.Attribute)):
            b = b.value
        if b is not None and path_of(b):
            out.add(path_of(b))
    return out


_keys = {}


def akey(n):
    return ast.unparse(n)


def atom(n):
    """Normalise a condition without connectives to (key, names, positive?)."""
    pol = True
    while isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        n, pol = n.operand, not pol
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'bool' and len(n.args) == 1:
        n = n.args[0]
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l, op, r = n.left, n.ops[0], n.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                pol = not pol
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                l, r = r, l
            a, b = akey(l), akey(r)
            if not isinstance(r, ast.Constant) and b < a:
                a, b = b, a
            return ('eq', a, b), names_in(n), pol
        if isinstance(op, ast.NotIn):
            return ('in', akey(l), akey(r)), names_in(n), not pol
        if isinstance(op, ast.In):
            return ('in', akey(l), akey(r)), names_in(n), pol
        lt = {ast.Lt: ('<', False), ast.LtE: ('<=', False), ast.Gt: ('<', True), ast.GtE: ('<=', True)}
        for k, (s, sw) in lt.items():
            if isinstance(op, k):
                a, b = akey(l), akey(r)
                if sw:
                    a, b = b, a
                if s == '<=':          # a <= b  <=>  not (b < a)
                    return ('<', b, a), names_in(n), not pol
                return ('<', a, b), names_in(n), pol
    return ('t', akey(n)), names_in(n), pol


def isconststr(s):
    return s[:1] in '\'"-0123456789' or s in ('True', 'False', 'None')


class Facts(object):
    """Immutable map condition key -> bool with the names each depends on."""
    __slots__ = ('d', 'h')

    def __init__(self, d=None):
        self.d = d or {}
        self.h = None

    def key(self):
        if self.h is None:
            self.h = frozenset((k, v[0]) for k, v in self.d.items())
        return self.h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def get(self, k):
        v = self.d.get(k)
        if v is not None:
            return v[0]
        if k[0] == 'eq':
            # another constant equal to the same expression
            if isconststr(k[2]):
                for q, v in self.d.items():
                    if q[0] == 'eq' and q[1] == k[1] and v[0] and isconststr(q[2]) and q[2] != k[2]:
                        return False
                t = self.d.get(('t', k[1]))
                if t is not None and t[0] and k[2] in ('None', 'False', '0', "''"):
                    return False
        elif k[0] == 't':
            for q, v in self.d.items():
                if q[0] == 'eq' and q[1] == k[1] and v[0] and isconststr(q[2]):
                    return q[2] not in ('None', 'False', '0', "''", '""', '0.0')
            if k[1] in ('True', 'False', 'None'):
                return k[1] == 'True'
            if k[1].isdigit():
                return k[1] != '0'
        return None

    def put(self, k, val, names):
        d = dict(self.d)
        d[k] = (val, frozenset(names))
        return Facts(d)

    def consistent(self):
        """False if a membership fact in a literal list is contradicted by the equality facts."""
        for k, v in self.d.items():
            if k[0] == 'in' and k[2][:1] in '[({':
                try:
                    els = ast.parse(k[2], mode='eval').body.elts
                except (SyntaxError, AttributeError):
                    continue
                vals = [self.get(('eq', k[1], akey(e))) for e in els]
                if v[0] and all(x is False for x in vals):
                    return False
                if not v[0] and any(x is True for x in vals):
                    return False
            elif k[0] == 'or':
                if all(self.get(a) == (not w) for a, w in k[1]):
                    return False
        return True

    def kill(self, names, soft=False):
        if not names:
            return self
        d = {k: v for k, v in self.d.items() if not any(touches(a, b) for a in v[1] for b in names) or (soft and k[0] == 'eq' and k[2] == 'None')}
        return self if len(d) == len(self.d) else Facts(d)

    def drop(self, k):
        d = dict(self.d)
        d.pop(k, None)
        return Facts(d)


class Out(object):
    def __init__(self):
        self.brk, self.cont, self.ret, self.exc = [], [], [], []


class Flow(object):
    """Subclass and override expr/assigned/merge/... to collect facts about a function."""
    entry_facts = None

    def __init__(self, fn):
        self.fn = fn
        self.relevant = None
        self.prepare()

    # ---- client interface
    def initial(self):
        return frozenset()

    def merge(self, a, b):
        return a | b

    def expr(self, n, st, out):
        """Evaluate expression n in a state; returns the new state."""
        return st

    def bind(self, target, value, st, out, stmt):
        return st

    def loop_runs(self, stmt, st):
        """True if the loop is known to run at least once."""
        return False

    def handler_states(self, handler, states):
        return states

    # ---- engine
    def prepare(self):
        cnt = {}
        self.tested = {}
        for n in ast.walk(self.fn.node):
            ts = []
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                ts = [n.test]
            elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                ts = [n.value]
            while ts:
                t = ts.pop()
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    ts.append(t.operand)
                elif isinstance(t, ast.BoolOp):
                    ts.extend(t.values)
                else:
                    k, nm, _ = atom(t)
                    self.tested[k] = frozenset(nm)
                    cnt[k[1]] = cnt.get(k[1], 0) + 1
                    if len(k) > 2 and not isconststr(k[2]):
                        cnt[k[2]] = cnt.get(k[2], 0) + 1
        self.cnt = cnt

    def is_rel(self, k):
        return self.cnt.get(k[1], 0) > 1 or (len(k) > 2 and self.cnt.get(k[2], 0) > 1)

    def run(self):
        out = Out()
        st = [(self.entry_facts or Facts(), self.initial())]
        end = self.block(self.fn.node.body, st, out)
        return end, out

    def norm(self, states):
        """Merge states with equal data, keeping the facts common to them (property simulation)."""
        by = {}
        for f, d in states:
            by.setdefault(d, []).append(f)
        out = []
        for d, fs in by.items():
            g = fs[0]
            if len(fs) > 1:
                dd = {k: v for k, v in g.d.items() if all(x is g or x.get(k) == v[0] for x in fs[1:])}
                # facts implied in the other direction (x == 'a' implies x is not None)
                for x in fs[1:]:
                    for k, v in x.d.items():
                        if k not in dd and all(y.get(k) == v[0] for y in fs):
                            dd[k] = v
                for k, names in self.tested.items():
                    if k not in dd:
                        v = fs[0].get(k)
                        if v is not None and all(x.get(k) == v for x in fs[1:]):
                            dd[k] = (v, names)
                g = Facts(dd)
            out.append((g, d))
        return out

    def block(self, stmts, states, out):
        for s in stmts:
            if not states:
                return []
            states = self.stmt(s, states, out)
        return states

    def each(self, states, f):
        return [s2 for s in states for s2 in [f(s)] if s2 is not None]

    def kill(self, st, node):
        f, d = st
        f = f.kill(stored_names(node))
        m = mutated_names(node)
        return (f.kill(m, soft=True), d)

    def stmt(self, s, states, out):
        self.before_stmt(s, states, out)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('statement kind %s not supported at %s' % (type(s).__name__, pos(s)))
        return self.norm(m(s, states, out))

    def before_stmt(self, s, states, out):
        pass

    def ev(self, n, states, out):
        if n is None:
            return states
        return self.each(states, lambda st: self.expr(n, st, out))

    def s_Expr(self, s, states, out):
        states = self.ev(s.value, states, out)
        return [self.kill(st, s) for st in states]

    def s_Pass(self, s, states, out):
        return states

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, states, out):
        states = [self.kill(st, s) for st in states]
        return self.each(states, lambda st: self.bind(s, None, st, out, s))

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, states, out):
        return self.each(states, lambda st: self.bind(s, None, st, out, s))

    s_ClassDef = s_FunctionDef

    def s_Assign(self, s, states, out):
        states = self.ev(s.value, states, out)
        res = []
        for st in states:
            st2 = self.kill(st, s)
            for t in s.targets:
                st2 = self.bind(t, s.value, st2, out, s)
            f, d = st2
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                nm = s.targets[0].id
                v = s.value
                inc = self.increment(nm, v, st[0])
                if inc is not None:
                    f = f.put(('eq', nm, str(inc)), True, {nm})
                    res.append((f, d))
                    continue
                if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, (bool, int, str))):
                    k = ('eq', nm, akey(v))
                    if self.cnt.get(nm, 0) > 0:
                        f = f.put(k, True, {nm})
                    res.append((f, d))
                    continue
                if isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and self.cnt.get(nm, 0) > 0 and nm not in names_in(v) and self.boolean(v):
                    for pol in (True, False):
                        for f2 in self.assume(v, pol, f):
                            res.append((f2.put(('t', nm), pol, {nm}), d))
                    continue
                if isinstance(v, (ast.List, ast.Dict, ast.Tuple)) and self.cnt.get(nm, 0) > 0:
                    full = bool(v.elts if not isinstance(v, ast.Dict) else v.keys)
                    f = f.put(('t', nm), full, {nm}).put(('eq', nm, 'None'), False, {nm})
                if isinstance(v, (ast.List, ast.Tuple)) and 0 < len(v.elts) <= 4 and all(isinstance(e, ast.Constant) for e in v.elts):
                    f = f.put(('lit', nm, akey(v)), True, {nm})
            res.append((f, d))
        return res

    def increment(self, nm, v, f):
        """Known new value of nm after nm = nm + c (integers only)."""
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)) and isinstance(v.left, ast.Name) and v.left.id == nm \
                and isinstance(v.right, ast.Constant) and type(v.right.value) is int and self.cnt.get(nm, 0) > 0:
            for k, x in f.d.items():
                if k[0] == 'eq' and k[1] == nm and x[0]:
                    try:
                        c = int(k[2])
                    except ValueError:
                        continue
                    c = c + v.right.value if isinstance(v.op, ast.Add) else c - v.right.value
                    return c if -20 <= c <= 20 else None
        return None

    @staticmethod
    def boolean(v):
        if isinstance(v, ast.Compare):
            return True
        if isinstance(v, ast.UnaryOp):
            return isinstance(v.op, ast.Not)
        if isinstance(v, ast.BoolOp):
            return all(Flow.boolean(x) for x in v.values)
        return False

    def s_AnnAssign(self, s, states, out):
        if s.value is None:
            return states
        states = self.ev(s.value, states, out)
        return self.each([self.kill(st, s) for st in states], lambda st: self.bind(s.target, s.value, st, out, s))

    def s_AugAssign(self, s, states, out):
        states = self.ev(s.value, states, out)
        ld = s.target
        states = self.each(states, lambda st: self.aug(ld, st, out, s))
        res = []
        for st in states:
            inc = None
            if isinstance(ld, ast.Name):
                inc = self.increment(ld.id, ast.BinOp(ast.Name(ld.id, ast.Load()), s.op, s.value), st[0])
            st = self.kill(st, s)
            st = self.bind(s.target, None, st, out, s)
            if st is not None:
                if inc is not None:
                    st = (st[0].put(('eq', ld.id, str(inc)), True, {ld.id}), st[1])
                res.append(st)
        return res

    def aug(self, target, st, out, s):
        return st

    def s_Delete(self, s, states, out):
        return [self.kill(st, s) for st in states]

    def s_Assert(self, s, states, out):
        states = self.ev(s.test, states, out)
        return self.cond(s.test, True, states)

    def s_Return(self, s, states, out):
        states = self.ev(s.value, states, out)
        out.ret.extend((f, d, s) for f, d in states)
        return []

    def s_Raise(self, s, states, out):
        states = self.ev(s.exc, states, out)
        out.exc.extend((f, d, s) for f, d in states)
        return []

    def s_Break(self, s, states, out):
        out.brk.extend(states)
        return []

    def s_Continue(self, s, states, out):
        out.cont.extend(states)
        return []

    def assume(self, t, pol, f):
        """Facts after assuming test t has truth pol: list (disjunction), empty if infeasible."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not pol, f)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if conj == pol:
                fs = [f]
                for v in t.values:
                    fs = [g2 for g in fs for g2 in self.assume(v, pol, g)]
                return fs
            # short circuit: the i-th is the first to decide
            res, cur = [], [f]
            for v in t.values:
                for g in cur:
                    res += self.assume(v, pol, g)
                cur = [g2 for g in cur for g2 in self.assume(v, not pol, g)]
            lits = []
            for v in t.values:
                if isinstance(v, (ast.BoolOp, ast.Constant)) or (isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.BoolOp)):
                    return res
                k, names, p = atom(v)
                if not self.is_rel(k):
                    return res
                lits.append((k, pol == p, frozenset(names)))
            key = ('or', frozenset((k, w) for k, w, _ in lits))
            names = frozenset().union(*[n for _, _, n in lits])
            return [g.put(key, True, names) for g in res]
        if isinstance(t, ast.Constant):
            return [f] if bool(t.value) == pol else []
        k, names, p = atom(t)
        want = pol == p
        known = f.get(k)
        if known is not None:
            return [f] if known == want else []
        if not self.is_rel(k):
            return [f]
        g = f.put(k, want, names)
        return [g] if g.consistent() else []

    def cond(self, test, pol, states):
        return [(f2, d) for f, d in states for f2 in self.assume(test, pol, f)]

    def s_If(self, s, states, out):
        states = self.ev(s.test, states, out)
        a = self.block(s.body, self.norm(self.cond(s.test, True, states)), out)
        b = self.block(s.orelse, self.norm(self.cond(s.test, False, states)), out)
        return a + b

    def s_While(self, s, states, out):
        return self.loop(s, states, out)

    def s_For(self, s, states, out):
        states = self.ev(s.iter, states, out)
        return self.loop(s, states, out)

    s_AsyncFor = s_For

    def loop(self, s, states, out):
        is_for = not isinstance(s, ast.While)
        exits, brk = [], []
        if is_for and isinstance(s.iter, (ast.List, ast.Tuple)) and 0 < len(s.iter.elts) <= 8 and not any(isinstance(e, ast.Starred) for e in s.iter.elts):
            return self.unroll(s, s.iter.elts, states, out)
        done = []
        if is_for and isinstance(s.iter, ast.Name):
            # the name of a display of constants
            rest = []
            for st in states:
                lit = [k[2] for k in st[0].d if k[0] == 'lit' and k[1] == s.iter.id]
                if lit:
                    done += self.unroll(s, ast.parse(lit[0], mode='eval').body.elts, [st], out)
                else:
                    rest.append(st)
            states = rest
            if not states:
                return done
        bound = self.range_bound(s) if is_for else None
        head = self.norm(states)
        seen = {}
        first = True
        for rnd in range(6):
            cur = head
            if not is_for:
                cur = self.ev(s.test, cur, out)
                ex = self.cond(s.test, False, cur)
                exits += ex
                cur = self.norm(self.cond(s.test, True, cur))
            else:
                ex = [st for st in cur if not (first and self.loop_runs(s, st))]
                if bound is not None:
                    # zero iterations exactly when the bound of the range is not positive
                    if first:
                        ex = [(f.put(bound[0], False, bound[1]), d) for f, d in ex if f.get(bound[0]) is not True]
                    cur = [(f.put(bound[0], True, bound[1]), d) for f, d in cur if not (first and f.get(bound[0]) is False)]
                exits += ex
                cur = [self.kill(st, s.target) for st in cur]
                cur = self.each(cur, lambda st: self.bind(s.target, None, st, out, s))
                cn = self.counter(s)
                if cn is not None:
                    cur = [(f.put(('eq', cn, '0'), first, {cn}), d) for f, d in cur]
            o = Out()
            o.ret, o.exc = out.ret, out.exc
            end = self.block(s.body, self.norm(cur), o)
            brk += o.brk
            nxt = self.norm(end + o.cont)
            if is_for and first:
                exits += nxt           # the loop may end here, also if the state is the one it began with
            for st in head:
                seen[st] = 1
            first = False
            new = [st for st in nxt if st not in seen]
            if not new:
                break
            head = new
        else:
            # no fixpoint within the bound: forget what the loop changes
            ch = stored_names(s) | mutated_names(s)
            exits += [(f.kill(ch), d) for f, d in head]
        exits = self.norm(exits)
        exits = self.block(s.orelse, exits, out)
        return exits + brk + done

    def unroll(self, s, elts, states, out):
        """A display is iterated element by element."""
        cur, brk = states, []
        for e in elts:
            cur = [self.kill(st, s.target) for st in cur]
            cur = self.each(cur, lambda st: self.bind(s.target, e, st, out, s))
            if isinstance(s.target, ast.Name) and isinstance(e, ast.Constant) and (e.value is None or isinstance(e.value, (bool, int, str))) and self.cnt.get(s.target.id, 0) > 0:
                cur = [(f.put(('eq', s.target.id, akey(e)), True, {s.target.id}), d) for f, d in cur]
            o = Out()
            o.ret, o.exc = out.ret, out.exc
            cur = self.norm(self.block(s.body, self.norm(cur), o) + o.cont)
            brk += o.brk
        return self.block(s.orelse, cur, out) + brk

    def range_bound(self, s):
        """(condition, names) saying that a range starting at 0 is not empty, if the function tests that condition."""
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and it.args and not it.keywords:
            e = it.args[0] if len(it.args) == 1 else it.args[1]
            if len(it.args) > 1 and not (isinstance(it.args[0], ast.Constant) and it.args[0].value == 0):
                return None
            k = ('<', '0', akey(e))
            if k in self.tested:
                return k, frozenset(names_in(e))
        return None

    @staticmethod
    def counter(s):
        """Name of a loop variable that is 0 exactly in the first iteration."""
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and len(it.args) == 1 and not it.keywords:
            if it.func.id == 'enumerate' and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                return s.target.elts[0].id
            if it.func.id == 'range' and isinstance(s.target, ast.Name):
                return s.target.id
        return None

    def s_With(self, s, states, out):
        for it in s.items:
            states = self.ev(it.context_expr, states, out)
            states = self.each(states, lambda st: self.enter(it, st, out, s))
            if it.optional_vars is not None:
                states = [self.kill(st, it.optional_vars) for st in states]
                states = self.each(states, lambda st: self.bind(it.optional_vars, it.context_expr, st, out, s))
        states = self.block(s.body, states, out)
        return self.each(states, lambda st: self.leave(s, st, out))

    s_AsyncWith = s_With

    def enter(self, item, st, out, s):
        return st

    def leave(self, s, st, out):
        return st

    def s_Try(self, s, states, out):
        o = Out()
        collected = []
        self.trystack = getattr(self, 'trystack', [])
        self.trystack.append(collected)
        end = self.block(s.body, states, o)
        self.trystack.pop()
        exc = [(f, d) for f, d in self.norm([(f, d) for f, d in collected] + [(f, d) for f, d, _ in o.exc])]
        o2 = Out()
        late = []           # implicit exceptions of handlers and else, which still pass through finally
        if s.finalbody:
            self.trystack.append(late)
        end = self.block(s.orelse, end, o2)
        res = list(end)
        o2.ret += o.ret
        o2.brk += o.brk
        o2.cont += o.cont
        caught_all = False
        for h in s.handlers:
            st = exc
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')):
                caught_all = True
            if h.type is not None:
                st = self.ev(h.type, st, o2)
            if h.name:
                st = [(f.kill({h.name}), d) for f, d in st]
                st = self.each(st, lambda x: self.bind(ast.copy_location(ast.Name(h.name, ast.Store()), h), None, x, o2, h))
            res += self.block(h.body, self.norm(self.handler_states(h, st)), o2)
        if not caught_all:
            o2.exc += [(f, d, s) for f, d in exc]
        if s.finalbody:
            self.trystack.pop()
            o2.exc += [(f, d, s) for f, d in self.norm(late)]
        if s.finalbody:
            res = self.block(s.finalbody, self.norm(res), out)
            def thru(lst, dest, withnode):
                for x in lst:
                    r = self.block(s.finalbody, [(x[0], x[1])], out)
                    for y in r:
                        dest.append((y[0], y[1], x[2]) if withnode else y)
            thru(o2.brk, out.brk, False)
            thru(o2.cont, out.cont, False)
            thru(o2.ret, out.ret, True)
            thru(o2.exc, out.exc, True)
        else:
            out.brk += o2.brk
            out.cont += o2.cont
            out.ret += o2.ret
            out.exc += o2.exc
        return res

    s_TryStar = s_Try


class CallFacts(Flow):
    """Facts on simple-name arguments at the calls of package functions made by one function."""

    def __init__(self, fn, prog, table):
        self.prog, self.table = prog, table
        Flow.__init__(self, fn)

    def is_rel(self, k):
        return k[0] == 'in' or Flow.is_rel(self, k)

    def expr(self, n, st, out):
        for c in ast.walk(n):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                tgt = self.fn.module.functions.get(c.func.id)
                if tgt is None:
                    continue
                binds = {}
                for p, a in zip(tgt.params, c.args):
                    binds[p] = a
                for k in c.keywords:
                    if k.arg:
                        binds[k.arg] = k.value
                facts = {}
                for p, a in binds.items():
                    if isinstance(a, ast.Name):
                        for k, v in st[0].d.items():
                            if k[1] == a.id and v[1] == {a.id}:
                                facts[(k[0], p) + k[2:]] = v[0]
                    elif isinstance(a, ast.Constant) and (a.value is None or isinstance(a.value, (bool, int, str))):
                        facts[('eq', p, akey(a))] = True
                self.table.setdefault(tgt.qual, []).append(facts)
        return st


def entry_facts(prog):
    """Facts that hold on the parameters of a function at every call site in the package (functions whose
    name starts with '_' or that are called by name inside their own module only)."""
    table = {}
    refs = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                refs[n.attr] = refs.get(n.attr, 0) + 1
            elif isinstance(n, ast.alias):
                refs[n.name] = refs.get(n.name, 0) + 1
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                p = getattr(n, '_parent', None)
                if not (isinstance(p, ast.Call) and p.func is n):
                    refs[n.id] = refs.get(n.id, 0) + 1
    for q, f in prog.fns.items():
        if isinstance(f.node, ast.Lambda) or '.examples.' in q:
            continue
        called = {c.func.id for c in walk_local(f.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)}
        if called & set(f.module.functions):
            CallFacts(f, prog, table).run()
    out = {}
    for q, lst in table.items():
        f = prog.fns[q]
        if refs.get(f.name):
            continue        # also used through a module attribute or as a value
        common = {k: v for k, v in lst[0].items() if all(x.get(k) == v for x in lst[1:])}
        if common:
            out[q] = Facts({k: (v, frozenset([k[1]])) for k, v in common.items()})
    return out
