"""Bounds of array accesses (for C14): abstract interpretation with difference bounds over symbols.

C++ functions (read through clang's AST), Cython wrappers and Python kernels are brought to one small intermediate form (frontends in cpp.py and here).
The value of an integer variable is a polynomial over symbols; what is known about the symbols is a set of linear upper bounds, closed over differences.
An element of an array is a symbol of its own (array, index, version), so a comparison of an element that comes before its use as an index counts.
Symbols never change, so facts are never withdrawn; loops and joins make new symbols and keep the bounds that hold on every way (widening drops what keeps growing).
An access has to be inside: 0 <= index < length.  What can not be shown inside a function but can be said over its arguments becomes a requirement on its callers.
"""
import ast
import itertools

INF = float('inf')
CAP = 6


# ---------------------------------------------------------------- polynomials
class P(object):
    __slots__ = ('t', '_k')

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return P(t)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                t[k] = t.get(k, 0) + c * d
        return P(t)

    def const(self):
        if not self.t:
            return 0
        if list(self.t) == [()]:
            return self.t[()]
        return None

    def split(self):
        """(form without constant, constant)"""
        c = self.t.get((), 0)
        return (self - num(c) if c else self), c

    def syms(self):
        return {s for m in self.t for s in m}

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items()):
            n = '*'.join(m)
            out.append(str(c) if not m else n if c == 1 else '-' + n if c == -1 else '%d*%s' % (c, n))
        return ' + '.join(out).replace('+ -', '- ') or '0'


def num(n):
    return P({(): int(n)})


def sym(s):
    return P({(s,): 1})


ZERO, ONE = num(0), num(1)


# ---------------------------------------------------------------- values
class Arr(object):
    """name: identity for elements; lens: length per dimension (polynomial or None); total: number of elements; contig: elements next to each other in memory."""
    __slots__ = ('name', 'lens', 'unsigned', 'contig', 'local', 'size', 'field', 'seq', 'orig')

    def __init__(self, name, lens, unsigned=False, contig=None, local=False, size=None, field=False, seq=False, orig=None):
        self.orig = orig or name      # the array it was made from, element by element
        self.name, self.lens, self.unsigned, self.contig, self.local, self.size, self.field, self.seq = name, lens, unsigned, contig, local, size, field, seq

    def key(self):
        return ('arr', self.name, tuple(repr(x) for x in self.lens))

    def like(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Arr(**d)


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class Str(object):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Fn(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


OPQ = 'opaque'   # nothing is known, and it does not come from something the analysis understands
FREE = ('free',)


def is_p(v):
    return isinstance(v, P)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, P) or isinstance(b, P):
        return a == b
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.key() == b.key()
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    return isinstance(a, tuple) and a == b


# ---------------------------------------------------------------- states
class State(object):
    __slots__ = ('env', 'cons', 'ver', '_clo', 'dead')

    def __init__(self, env=None, cons=None, ver=None):
        self.env, self.cons, self.ver, self._clo = dict(env or {}), dict(cons or {}), dict(ver or {}), None
        self.dead = False   # a variable is read before it is assigned: not followed

    def copy(self):
        s = State(self.env, self.cons, self.ver)
        s._clo = self._clo
        s.dead = self.dead
        return s

    def add(self, p):
        """p <= 0; False if that is impossible."""
        f, c = p.split()
        if not f.t:
            return c <= 0
        b = -c
        if self.sup(-f) < -b:
            return False
        old = self.cons.get(f)
        if old is None or b < old:
            self.cons[f] = b
            self._clo = None
        return True

    def closure(self):
        if self._clo is None:
            nodes, edge, extra = [None], {}, []
            for f, b in self.cons.items():
                d = diff(f)
                if d is None:
                    extra.append((f, b))
                    continue
                for x in d:
                    if x not in nodes:
                        nodes.append(x)
                edge[d] = min(edge.get(d, INF), b)
            dist = dict(edge)
            for k in nodes:
                ins = [(i, dist[(i, k)]) for i in nodes if (i, k) in dist]
                outs = [(j, dist[(k, j)]) for j in nodes if (k, j) in dist]
                for i, a in ins:
                    for j, b in outs:
                        if i != j and a + b < dist.get((i, j), INF):
                            dist[(i, j)] = a + b
            self._clo = (dist, extra)
        return self._clo

    def nonneg(self, m, dist):
        return m is not None and len(m) > 1 and all(dist.get((None, (s,)), INF) <= 0 for s in m)

    def sup0(self, f):
        """upper bound of a form without constant, by differences"""
        if not f.t:
            return 0
        dist, _ = self.closure()

        def get(a, b):
            d = dist.get((a, b), INF)
            if a is None and d > 0 and self.nonneg(b, dist):
                return 0
            return d
        d = diff(f)
        if d is not None:
            return get(*d)
        pos, neg = [], []
        for m, c in f.t.items():
            if abs(c) > 2:
                k = (m, None) if c > 0 else (None, m)
                b = get(*k)
                if len(f.t) == 1:
                    return b * abs(c) if b < INF else INF
                return INF
            (pos if c > 0 else neg).extend([m] * abs(c))
        if len(pos) + len(neg) > 5:
            return INF
        n = max(len(pos), len(neg))
        pos += [None] * (len(pos + neg) - len(pos))
        neg += [None] * (len(pos) - len(neg))
        best = INF
        seen = set()
        for perm in itertools.permutations(neg):
            if perm in seen:
                continue
            seen.add(perm)
            s = 0
            for a, b in zip(pos, perm):
                if a == b:
                    continue
                s += get(a, b)
                if s == INF:
                    break
            best = min(best, s)
        return best

    def sup(self, p):
        f, c = p.split()
        best = self.sup0(f)
        for e, b in self.closure()[1]:
            g = f - e
            if len(g.t) < len(f.t) or len(g.t) <= 2:
                best = min(best, self.sup0(g) + b)
        return best + c

    def inf(self, p):
        return -self.sup(-p)


def diff(f):
    """(a, b) for a - b, (a, None) for a, (None, b) for -b; None otherwise"""
    if len(f.t) == 1:
        (m, c), = f.t.items()
        return (m, None) if c == 1 else (None, m) if c == -1 else None
    if len(f.t) == 2:
        (m, c), (n, d) = f.t.items()
        if c == 1 and d == -1:
            return (m, n)
        if c == -1 and d == 1:
            return (n, m)
    return None


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- interpretation
class Req(object):
    """a requirement on the arguments: one of the polynomials (over the symbols of the parameters) is <= 0"""
    def __init__(self, alts, what, line):
        self.alts, self.what, self.line = alts, what, line

    def key(self):
        return (self.what, tuple(a.key() for a in self.alts))


class Analysis(object):
    """One function: run(params, body).  params: {name: value}.  records: what was decided about every access; reqs: requirements on the caller."""
    def __init__(self, funcs=None, cpp=False, checked=False):
        self.checked = checked        # indices are checked when the code runs (ordinary Python)
        self.funcs = funcs or {}      # name -> Summary
        self.cpp = cpp
        self.n = 0
        self.record = False
        self.acc = {}                 # (line, text) -> (status, array text, why)
        self.reqs = {}
        self.calls = []
        self.base = set()
        self.sizes = []
        self.depth = 0
        self.names = {}
        self.elems = {}
        self.locals = set()

    # ---- symbols
    def fresh(self, name, st=None, nonneg=False):
        self.n += 1
        s = '%s#%d' % (name, self.n)
        if nonneg and st is not None:
            st.add(-sym(s))
        return sym(s)

    # ---- whole function
    def run(self, st, body):
        self.base = set()
        for v in st.env.values():
            self.collect_base(v)
        self.record = True
        self.locals = self.assigned(body)[0] if not self.cpp else set()
        return self.block(body, [st])

    def collect_base(self, v):
        if is_p(v):
            self.base |= v.syms()
        elif isinstance(v, Arr):
            for l in v.lens:
                if l is not None:
                    self.base |= l.syms()
        elif isinstance(v, Tup):
            for x in v.items:
                self.collect_base(x)

    # ---- statements
    def block(self, body, states):
        """(normal, break, continue, return) states"""
        brk, cont, ret = [], [], []
        for s in body:
            if not states:
                break
            n, b, c, r = self.stmt(s, states)
            brk += [x for x in b if not x.dead]
            cont += [x for x in c if not x.dead]
            ret += [x for x in r if not x.dead]
            states = self.cap([x for x in n if not x.dead])
        return states, self.cap(brk), self.cap(cont), ret

    def cap(self, states):
        if len(states) <= CAP:
            return states
        groups = {}
        for s in states:
            k = tuple(sorted((v, x.const()) for v, x in s.env.items() if is_p(x) and x.const() in (0, 1, -1)))
            groups.setdefault(k, []).append(s)
        out = [self.join(g) for g in groups.values()]
        return out if len(out) <= CAP else [self.join(out)]

    def stmt(self, s, states):
        k = s[0]
        if k == 'assign':
            for st in states:
                v = self.eval(s[2], st)
                self.assign(s[1], v, st)
            return states, [], [], []
        if k == 'aug':
            for st in states:
                t = self.fix(s[1], st)
                old = self.eval(t, st)
                new = self.arith(s[2], old, self.eval(s[3], st), st, s[4] if len(s) > 4 else False)
                self.assign(t, new, st)
            return states, [], [], []
        if k == 'expr':
            for st in states:
                self.eval(s[1], st)
            return states, [], [], []
        if k == 'if':
            out = [[], [], [], []]
            for st in states:
                c = self.eval_cond(s[1], st)
                if st.dead:
                    continue
                for truth, body in ((True, s[2]), (False, s[3])):
                    sub = self.assume(c, truth, st.copy())
                    if sub:
                        r = self.block(body, sub)
                        for a, b in zip(out, r):
                            a += b
            out[0] = self.merge_simple(out[0])
            return out
        if k == 'while':
            return self.loop(s, states)
        if k == 'for':
            return self.for_loop(s, states)
        if k == 'block':
            return self.block(s[1], states)
        if k == 'break':
            return [], states, [], []
        if k == 'continue':
            return [], [], states, []
        if k == 'return':
            for st in states:
                if s[1] is not None:
                    st.env['return'] = self.eval(s[1], st)
            return [], [], [], states
        if k == 'throw':
            for st in states:
                for e in s[1]:
                    self.eval(e, st)
            return [], [], [], []
        if k == 'assert':
            out = []
            for st in states:
                out += self.assume(self.eval_cond(s[1], st), True, st)
            return out, [], [], []
        if k == 'inline':
            out = []
            for st in states:
                for v, o in self.funcs[s[2]].states(self, s[3], s[4], st):
                    o.env[s[1]] = v
                    out.append(o)
            return out, [], [], []
        if k == 'pass':
            return states, [], [], []
        if k == 'opaque':
            for st in states:
                for e in s[1]:
                    self.eval(e, st)
                for v in s[2]:
                    st.env[v] = OPQ
            return states, [], [], []
        raise Undecided(k)

    def merge_simple(self, states):
        """states with the same values are one"""
        out = []
        for s in states:
            for o in out:
                if len(o.env) == len(s.env) and all(v in s.env and same(x, s.env[v]) for v, x in o.env.items()) and o.ver == s.ver:
                    o.cons = self.common([o, s])
                    o._clo = None
                    break
            else:
                out.append(s)
        return out

    def common(self, states):
        forms = {}
        for s in states:
            for f in s.cons:
                forms[f] = None
        out = {}
        for f in forms:
            b = max(s.sup(f) for s in states)
            if b < INF:
                out[f] = b
        return out

    def assign(self, target, v, st):
        k = target[0]
        if k == 'var':
            st.env[target[1]] = v
        elif k == 'tuple':
            items = v.items if isinstance(v, Tup) and len(v.items) == len(target[1]) else [OPQ] * len(target[1])
            for t, x in zip(target[1], items):
                self.assign(t, x, st)
        elif k == 'idx':
            base = self.eval(target[1], st)
            self.access(base, target[2], st, target[3], store=True)
            n = root_name(base)
            if n:
                self.bump(n, st)
            if is_p(v) and isinstance(base, Arr):
                pass
        elif k == 'attr':
            self.eval(target[1], st)
        else:
            self.eval(target, st)

    def fix(self, t, st):
        """indices with side effects are evaluated once"""
        if t[0] == 'idx' and any(self.effects(i) for i in t[2]):
            return ('idx', t[1], [i if i[0] == 'slice' else ('val', self.eval(i, st)) for i in t[2]], t[3])
        return t

    def effects(self, e):
        if isinstance(e, (tuple, list)):
            return bool(e) and e[0] in ('postinc', 'preinc', 'assignexpr', 'call') or any(self.effects(x) for x in e if isinstance(x, (tuple, list)))
        return False

    def bump(self, name, st):
        # distinct arrays are assumed not to overlap; a field of an array is a part of it
        root = name.split('.')[0]
        self.n += 1
        st.ver[root] = self.n

    # ---- loops
    def assigned(self, body):
        names, stores = set(), set()

        def expr(e):
            if not isinstance(e, tuple) or not e:
                if isinstance(e, list):
                    for x in e:
                        expr(x)
                return
            if e[0] in ('postinc', 'preinc'):
                target(e[1])
            if e[0] == 'call':
                stores.add(None)
            for x in e[1:]:
                if isinstance(x, (tuple, list)):
                    expr(x)

        def target(t):
            if t[0] == 'var':
                names.add(t[1])
            elif t[0] == 'tuple':
                for x in t[1]:
                    target(x)
            elif t[0] == 'idx':
                b = t[1]
                while b[0] in ('idx', 'attr'):
                    b = b[1]
                if b[0] == 'var':
                    stores.add(b[1])
                expr(t)

        def walk(ss):
            for s in ss:
                if s[0] in ('assign', 'aug'):
                    target(s[1])
                    expr(s[2] if s[0] == 'assign' else s[3])
                elif s[0] == 'if':
                    expr(s[1])
                    walk(s[2])
                    walk(s[3])
                elif s[0] == 'while':
                    expr(s[1])
                    walk(s[2])
                    walk(s[3])
                elif s[0] == 'for':
                    target(s[1])
                    expr(s[2])
                    walk(s[3])
                elif s[0] == 'block':
                    walk(s[1])
                elif s[0] == 'inline':
                    names.add(s[1])
                    for a in s[3]:
                        if a[0] == 'var':
                            stores.add(a[1])
                elif s[0] == 'opaque':
                    names.update(s[2])
                elif s[0] in ('expr', 'return', 'assert') and s[1] is not None:
                    expr(s[1])
        walk(body)
        return names, stores

    def loop(self, s, states):
        _, cond, body, step, line = s[:5]
        post = len(s) > 5 and s[5]
        return self.iterate(states, cond, body, step, None, post)

    def for_loop(self, s, states):
        _, target, it, body, line = s
        out = [[], [], [], []]
        for st in states:
            for r, a in zip(self.for_one(target, it, body, st), out):
                a += r
        return out

    def for_one(self, target, it, body, st):
        """counter k from start while k < stop"""
        self.n += 1
        kname = '%%k%d' % self.n
        pre = lambda k, st2: self.assign(target, OPQ, st2)
        start, stop, down = ZERO, None, False
        if it[0] == 'call' and it[1] in ('range', 'np.arange', 'numpy.arange', 'prange', 'numba.prange', 'xrange'):
            args = [self.eval(a, st) for a in it[2]]
            step = args[2].const() if len(args) > 2 and is_p(args[2]) else 1 if len(args) < 3 else None
            if len(args) == 1:
                start, stop = ZERO, args[0]
            elif len(args) >= 2:
                start, stop = args[0], args[1]
            down = step is not None and step < 0
            ok = is_p(start) and is_p(stop) and step is not None

            def pre(k, st2):
                v = k
                if down and ok:
                    v = self.fresh('down')
                    st2.add(v - start)
                    st2.add(low + ONE - v)
                if not ok:
                    v = self.fresh('r') if step is None or is_p(start) else OPQ
                    if is_p(v) and is_p(start) and (step is None or step > 0):
                        st2.add(start - v) if step is not None else None
                self.assign(target, v, st2)
            low = stop
            if not ok or down:
                stop = None
        else:
            v = self.eval(it[2][0] if it[0] == 'call' and it[1] in ('enumerate', 'zip', 'reversed') and it[2] else it, st)
            kind = it[1] if it[0] == 'call' else None
            if isinstance(v, Arr) and v.lens and v.lens[0] is not None:
                stop = v.lens[0]
            others = [self.eval(a, st) for a in it[2][1:]] if kind == 'zip' else []

            def pre(k, st2):
                def el(w):
                    if isinstance(w, Arr):
                        return self.element(w, [self.fresh('any')], st2)
                    return OPQ
                e = el(v)
                if kind == 'enumerate' and target[0] == 'tuple' and len(target[1]) == 2:
                    self.assign(target[1][0], k, st2)
                    self.assign(target[1][1], e, st2)
                elif kind == 'zip' and target[0] == 'tuple':
                    self.assign(target, Tup([e] + [el(w) for w in others]), st2)
                else:
                    self.assign(target, e, st2)
        if st.dead:
            return [], [], [], []
        st.env[kname] = start if is_p(start) and not down else ZERO
        cond = None if stop is None else ('cmp', '<', ('var', kname), ('val', stop))
        r = self.iterate([st], cond if cond else ('free',), body, [('aug', ('var', kname), '+', ('num', 1))], (kname, pre), False, extra=target)
        for lst in r[:1]:
            for x in lst:
                x.env.pop(kname, None)
        return r

    def iterate(self, states, cond, body, step, counter, post, extra=None):
        if not states:
            return [], [], [], []
        ret = []
        names, stores = self.assigned(body + list(step))
        if extra is not None:
            names |= self.assigned([('assign', extra, ('num', 0))])[0]
        if cond:
            names |= self.assigned([('expr', cond)])[0]
            stores |= self.assigned([('expr', cond)])[1]
        if counter:
            names.add(counter[0])
        entry = self.join(states) if len(states) > 1 else states[0]
        early = {x[1][1] for x in body if x[0] == 'assign' and x[1][0] == 'var'}
        exits0, rr0, brk0 = [], [], []
        if not self.cpp and not post and self.carried(names, early, entry, body, extra):
            # a value is first assigned in a turn and kept for the next: the first turn is followed on its own
            first, exits0, rr0, brk0 = self.once(entry.copy(), cond, body, step, counter, post)
            if not first:
                return self.cap(exits0 + brk0), [], [], rr0
            entry = self.join(first)
        self.n += 1
        lid = self.n
        phi = {}
        head = State(entry.env, entry.cons, entry.ver)
        for v in sorted(names):
            x = entry.env.get(v)
            if is_p(x):
                phi[v] = sym('%s@%d' % (v, lid))
                head.env[v] = phi[v]
            elif v in entry.env and not isinstance(x, (Arr, Tup, Str)):
                head.env[v] = OPQ
            elif v in entry.env:
                head.env[v] = x if isinstance(x, (Str,)) else OPQ
        tops = {}
        for a in stores:
            if a is None:
                continue
            val = entry.env.get(a)
            r = root_name(val) if val is not None else None
            if r:
                tops[r] = True
        saved, self.record = self.record, False
        templates = self.templates(phi, head)
        bounds = {}
        for f, back in templates:
            bounds[f] = entry.sup(back(entry.env))
        rounds = 0
        while True:
            h = head.copy()
            for f, b in bounds.items():
                if b < INF:
                    h.cons[f] = min(b, h.cons.get(f, INF))
            h._clo = None
            for r in tops:
                h.ver[r] = 'L%d' % lid
            ends, _, rr, _ = self.once(h, cond, body, step, counter, post)
            new = dict(bounds)
            stable = True
            gone = [v for v in phi if any(not is_p(e.env.get(v, OPQ)) for e in ends)]
            lost = {sym_name(v, lid) for v in gone}
            for f, back in templates:
                if f.syms() & lost:
                    continue
                if bounds[f] == INF:
                    continue
                b = max([bounds[f]] + [e.sup(back(e.env)) for e in ends])
                if b > bounds[f]:
                    stable = False
                    new[f] = b if rounds < 1 else INF
            rounds += 1
            # a value that stops being a number
            for v in gone:
                del phi[v]
                head.env[v] = OPQ
                stable = False
            if gone:
                templates = [(f, b) for f, b in templates if not f.syms() & lost]
                new = {f: b for f, b in new.items() if not f.syms() & lost}
            bounds = new
            if stable or rounds > 25:
                break
        self.record = saved
        h = head.copy()
        for f, b in bounds.items():
            if b < INF:
                h.cons[f] = min(b, h.cons.get(f, INF))
        h._clo = None
        for r in tops:
            h.ver[r] = 'L%d' % lid
        ends, exits, rr, brk = self.once(h, cond, body, step, counter, post)
        return self.cap(exits0 + exits + brk0 + brk), [], [], rr0 + rr

    def carried(self, names, early, entry, body, extra):
        late = {v for v in names if v not in entry.env and v not in early}
        if extra is not None:
            late -= self.assigned([('assign', extra, ('num', 0))])[0]
        # assigned and used in the same statement of the body: no value has to be kept
        for v in sorted(late):
            if sum(v in self.mentioned(x) for x in body) > 1:
                return True
        return False

    def mentioned(self, s):
        out = set()

        def walk(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'var':
                out.add(x[1])
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        walk(s)
        return out

    def once(self, h, cond, body, step, counter, post):
        """one turn from the head: (states at the end, states leaving by the condition, returns, breaks)"""
        st = h.copy()
        if post:
            n, b, c, r = self.block(body, [st])
            ends, exits = [], []
            for s in n + c:
                cv = self.eval_cond(cond, s)
                ends += self.assume(cv, True, s.copy())
                exits += self.assume(cv, False, s.copy())
            return ends, exits, r, b
        if cond == ('free',):
            cv = FREE
        else:
            cv = self.eval_cond(cond, st)
        if st.dead:
            return [], [], [], []
        inside = self.assume(cv, True, st.copy())
        exits = self.assume(cv, False, st.copy())
        if counter:
            for s in inside:
                counter[1](s.env[counter[0]], s)
        n, b, c, r = self.block(body, inside)
        ends = n + c
        if step:
            n2, b2, c2, r2 = self.block(step, self.cap(ends))
            ends = n2
        return ends, exits, r, b

    def templates(self, phi, head):
        """[(form over the new symbols, how to get its value from an environment)]"""
        out = []
        others = set()
        for v, x in head.env.items():
            if v not in phi and is_p(x):
                f, _ = x.split()
                if f.t:
                    others.add(f)
            if isinstance(x, Arr):
                for l in x.lens:
                    if l is not None and l.split()[0].t:
                        others.add(l.split()[0])
        for f in head.cons:
            for m in f.t:
                others.add(P({m: 1}))
        others = list(others)
        for v, s in phi.items():
            out.append((s, lambda env, v=v: env[v]))
            out.append((-s, lambda env, v=v: -env[v]))
            for o in others:
                out.append((s - o, lambda env, v=v, o=o: env[v] - o))
                out.append((o - s, lambda env, v=v, o=o: o - env[v]))
        for v, w in itertools.permutations(phi, 2):
            out.append((phi[v] - phi[w], lambda env, v=v, w=w: env[v] - env[w]))
        return out

    def join(self, states):
        if len(states) == 1:
            return states[0]
        names = set(states[0].env)
        for s in states[1:]:
            names |= set(s.env)
        self.n += 1
        jid = self.n
        env, phi = {}, {}
        for v in sorted(names):
            have = [s.env[v] for s in states if v in s.env]
            if all(same(have[0], x) for x in have[1:]):
                env[v] = have[0]
            elif all(is_p(x) for x in have) and len(have) == len(states):
                phi[v] = sym('%s@%d' % (v, jid))
                env[v] = phi[v]
            else:
                env[v] = OPQ
        out = State(env)
        out.cons = self.common(states)
        for f, back in self.templates(phi, out):
            b = max(s.sup(back(s.env)) for s in states)
            if b < INF:
                out.cons[f] = b
        out._clo = None
        for r in set().union(*[set(s.ver) for s in states]):
            vs = {s.ver.get(r) for s in states}
            out.ver[r] = vs.pop() if len(vs) == 1 else 'J%d' % jid
        return out

    # ---- conditions
    def eval_cond(self, e, st):
        k = e[0]
        if k == 'cmp':
            a, b = self.eval(e[2], st), self.eval(e[3], st)
            if isinstance(a, Tup) and isinstance(b, Tup) and e[1] in ('==', '!='):
                if len(a.items) != len(b.items):
                    return ('const', e[1] == '!=')
                parts = [self.compare('==', x, y) for x, y in zip(a.items, b.items)]
                c = ('and', parts)
                return c if e[1] == '==' else ('not', c)
            return self.compare(e[1], a, b)
        if k in ('and', 'or'):
            parts, cur = [], [st]
            for x in e[1]:
                cs = [self.eval_cond(x, s) for s in cur]
                c = cs[0] if cs else FREE
                parts.append(c)
                if len(cs) > 1 and any(y != c for y in cs):
                    parts[-1] = FREE
                cur = [t for s, y in zip(cur, cs) for t in self.assume(y, k == 'and', s.copy())]
            return (k, parts)
        if k == 'not':
            return ('not', self.eval_cond(e[1], st))
        if k == 'const':
            return ('const', bool(e[1]))
        if k == 'free':
            return FREE
        v = self.eval(e, st)
        if isinstance(v, tuple):
            return v
        if is_p(v):
            return ('cmp', '!=', v, ZERO)
        return FREE

    def compare(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'shape' and op in ('==', '!='):
            c = ('cmp', '==', self.length(a[1], 0, State()), self.length(b[1], 0, State()))
            return ('and', [c, FREE]) if op == '==' else ('not', ('and', [c, FREE]))
        if isinstance(a, tuple) or isinstance(b, tuple):
            return FREE
        if is_p(a) and is_p(b):
            return ('cmp', op, a, b)
        return FREE

    def assume(self, c, truth, st):
        """the states in which the condition is as given"""
        k = c[0]
        if k == 'const':
            return [st] if c[1] == truth else []
        if k == 'free':
            return [st]
        if k == 'not':
            return self.assume(c[1], not truth, st)
        if k in ('and', 'or'):
            if (k == 'and') == truth:
                cur = [st]
                for x in c[1]:
                    cur = [t for s in cur for t in self.assume(x, truth, s)]
                return cur
            out, cur = [], [st]
            for x in c[1]:
                out += [t for s in cur for t in self.assume(x, truth, s.copy())]
                cur = [t for s in cur for t in self.assume(x, not truth, s)]
                if not cur:
                    break
            return self.merge_simple(out)
        if k == 'cmp':
            op = c[1]
            if not truth:
                op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
            d = c[2] - c[3]
            if op == '<':
                ok = st.add(d + ONE)
            elif op == '<=':
                ok = st.add(d)
            elif op == '>':
                ok = st.add(ONE - d)
            elif op == '>=':
                ok = st.add(-d)
            elif op == '==':
                ok = st.add(d) and st.add(-d)
            else:
                ok = True
                if st.inf(d) > 0 or st.sup(d) < 0:
                    ok = True
                elif st.inf(d) == 0 and st.sup(d) == 0:
                    ok = False
                elif st.inf(d) >= 0:
                    ok = st.add(ONE - d)
                elif st.sup(d) <= 0:
                    ok = st.add(d + ONE)
            if ok and op in ('<', '>', '!='):
                ok = self.congruence(d, st)
            return [st] if ok else []
        return [st]

    def congruence(self, d, st):
        """two elements of one array that differ are not the same element"""
        ss = [(m[0], c) for m, c in d.t.items() if len(m) == 1 and m[0] in self.elems]
        if len(ss) != 2 or len(d.t) != 2:
            return True
        (a, _), (b, _) = ss
        (na, ia), (nb, ib) = self.elems[a], self.elems[b]
        if na != nb or len(ia) != len(ib):
            return True
        rest = [x - y for x, y in zip(ia, ib) if x != y]
        if len(rest) == 1:
            p = rest[0]
            if st.sup(p) <= 0:
                return st.add(p + ONE)
            elif st.inf(p) >= 0:
                return st.add(ONE - p)
        return True

    # ---- expressions
    def eval(self, e, st):
        k = e[0]
        if k == 'num':
            return num(e[1])
        if k == 'val':
            return e[1]
        if k == 'var':
            if e[1] not in st.env and e[1] in self.locals:
                st.dead = True
            return st.env.get(e[1], OPQ)
        if k == 'str':
            return Str(e[1])
        if k in ('cmp', 'and', 'or', 'not', 'const', 'free'):
            return self.eval_cond(e, st)
        if k == 'bin':
            return self.arith(e[1], self.eval(e[2], st), self.eval(e[3], st), st, len(e) > 4 and e[4])
        if k == 'neg':
            v = self.eval(e[1], st)
            return -v if is_p(v) else OPQ
        if k in ('postinc', 'preinc'):
            t = self.fix(e[1], st)
            old = self.eval(t, st)
            new = self.arith('+' if e[2] > 0 else '-', old, ONE, st, len(e) > 3 and e[3])
            self.assign(t, new, st)
            return old if k == 'postinc' else new
        if k == 'assignexpr':
            v = self.eval(e[2], st)
            self.assign(e[1], v, st)
            return v
        if k == 'idx':
            base = self.eval(e[1], st)
            return self.access(base, e[2], st, e[3])
        if k == 'attr':
            return self.attr(e, st)
        if k == 'call':
            return self.call(e, st)
        if k == 'method':
            return self.method(e, st)
        if k == 'tuple':
            return Tup([self.eval(x, st) for x in e[1]])
        if k == 'cond':
            c = self.eval_cond(e[1], st)
            vals = []
            for truth, x in ((True, e[2]), (False, e[3])):
                for s in self.assume(c, truth, st.copy()):
                    vals.append((self.eval(x, s), s))
            if not vals:
                return OPQ
            if all(same(v, vals[0][0]) for v, _ in vals):
                return vals[0][0]
            if all(is_p(v) for v, _ in vals):
                r = self.fresh('sel')
                for m in {n for v, _ in vals for n in v.syms()} | {None} | {x for s in (st,) for v in s.env.values() if is_p(v) for x in v.syms()}:
                    o = sym(m) if m else ZERO
                    up = max(s.sup(v - o) for v, s in vals)
                    lo = max(s.sup(o - v) for v, s in vals)
                    if up < INF:
                        st.add(r - o - num(up))
                    if lo < INF:
                        st.add(o - r - num(lo))
                return r
            return OPQ
        if k == 'opaque':
            for x in e[1]:
                self.eval(x, st)
            return OPQ
        raise Undecided(k)

    def arith(self, op, a, b, st, unsigned=False):
        if is_p(a) and is_p(b):
            if op == '+':
                return a + b
            if op == '-':
                r = a - b
                if unsigned and st.inf(r) < 0:
                    return self.fresh('wrap', st, True)
                return r
            if op == '*':
                return a * b
            if op in ('//', '/') and b.const() and b.const() > 0 and (op == '//' or self.cpp):
                c = b.const()
                r = self.fresh('quot')
                if st.inf(a) >= 0:
                    st.add(-r)
                    if st.sup(a) < INF:
                        st.add(r - num(int(st.sup(a)) // c))
                    st.add(r - a)
                    st.add(P({m: c * k for m, k in r.t.items()}) - a)
                return r
            if op == '%' and b.const() != 0:
                r = self.fresh('mod')
                if st.inf(b) > 0 and (not self.cpp or st.inf(a) >= 0):
                    st.add(-r)
                    st.add(r - b + ONE)
                return r
            if op in ('&', '>>', '|', '^', '<<', '**', '/'):
                r = self.fresh('op')
                if op == '&' and (a.const() or b.const()):
                    c = a.const() or b.const()
                    if c > 0:
                        st.add(-r)
                        st.add(r - num(c))
                return r
            return self.fresh('op')
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.like(name=self.uid(), contig=True, local=True) if a.lens and b.lens and a.lens[0] == b.lens[0] else OPQ
        if isinstance(a, Arr) and is_p(b):
            return a.like(name=self.uid(), contig=True, local=True)
        if isinstance(b, Arr) and is_p(a):
            return b.like(name=self.uid(), contig=True, local=True)
        return OPQ

    def uid(self):
        self.n += 1
        return 'v%d' % self.n

    def length(self, a, dim, st):
        while len(a.lens) <= dim:
            if a.seq:
                raise Undecided('dim')
            a.lens.append(None)
        if a.lens[dim] is None:
            n = 'len(%s)' % a.name if dim == 0 else 'len(%s,%d)' % (a.name, dim)
            a.lens[dim] = sym(n)
            if not a.local:
                self.base.add(n)
        st.add(-a.lens[dim])
        return a.lens[dim]

    def attr(self, e, st):
        base = self.eval(e[1], st)
        if isinstance(base, Arr):
            if e[2] == 'shape':
                return ('shape', base)
            if e[2] == 'size':
                if base.size is not None:
                    return base.size
                if len(base.lens) <= 1:
                    return self.length(base, 0, st)
            if e[2] == 'data':
                return base
            if e[2] == 'T' and len(base.lens) == 2:
                return base.like(name=self.uid(), lens=base.lens[::-1], contig=False)
        return OPQ

    def element(self, a, idx, st):
        v = st.ver.get(a.name.split('.')[0], 0)
        s = '%s[%s]%s' % (a.name, ','.join(repr(i) for i in idx), '~%s' % v if v else '')
        self.elems[s] = ((a.name, v), list(idx))
        if a.unsigned:
            st.add(-sym(s))
        return sym(s)

    def access(self, base, idx, st, line, store=False):
        if isinstance(base, tuple) and base[0] == 'shape':
            d = self.eval(idx[0], st)
            if is_p(d) and d.const() is not None and d.const() >= 0:
                return self.length(base[1], d.const(), st)
            return OPQ
        if is_p(base) and len(base.t) == 1 and list(base.t)[0] and list(base.t)[0][0] in self.names and not self.cpp:
            base = ('row',) + self.names[list(base.t)[0][0]]
        if isinstance(base, tuple) and base[0] == 'row':
            _, arr, pre = base
            if len(idx) == 1 and idx[0][0] == 'str':
                return self.element(arr.like(name='%s.%s' % (arr.name, idx[0][1])), pre, st)
            return self.access_arr(arr, idx, st, line, pre)
        if isinstance(base, Tup):
            d = self.eval(idx[0], st)
            if is_p(d) and d.const() is not None and -len(base.items) <= d.const() < len(base.items):
                return base.items[d.const()]
            return OPQ
        if isinstance(base, Arr):
            if len(idx) == 1 and idx[0][0] == 'str':
                return base.like(name='%s.%s' % (base.name, idx[0][1]), contig=False)
            return self.access_arr(base, idx, st, line, [])
        for i in idx:
            if i[0] == 'slice':
                for x in i[1:4]:
                    if x is not None:
                        self.eval(x, st)
            else:
                self.eval(i, st)
        return OPQ

    def access_arr(self, a, idx, st, line, pre):
        """indices idx for the dimensions after the ones already given (pre)"""
        vals = []
        out_dims = []
        for n, i in enumerate(idx):
            dim = len(pre) + n
            if i[0] == 'slice':
                out_dims.append((dim, i))
                vals.append(None)
                continue
            v = self.eval(i, st)
            if is_p(v):
                self.check(a, dim, v, st, line, i)
            elif isinstance(v, Arr):
                return Arr(self.uid(), [v.lens[0] if v.lens else None] + list(a.lens[dim + 1:]), local=True)
            elif v == OPQ:
                self.note(line, a, dim, i, 'undecided', 'the index is not understood')
            vals.append(v)
        if out_dims:
            lens, ok = [], True
            for n, i in enumerate(idx):
                dim = len(pre) + n
                if i[0] == 'slice':
                    lens.append(self.slice_len(a, dim, i, st))
            whole = len(idx) == 1 and all(x is None for x in idx[0][1:4])
            rest = list(a.lens[len(pre) + len(idx):])
            contig = a.contig if len(idx) == 1 and idx[0][3] is None else False
            return Arr(a.name if whole else self.uid(), lens + rest, unsigned=a.unsigned, contig=contig, local=a.local if whole else True)
        if any(not is_p(v) for v in vals):
            return OPQ
        ks = list(pre) + vals
        nd = len(a.lens) if a.local and a.lens and a.size is not None else None
        if (a.local and len(a.lens) > len(ks)):
            return ('row', a, tuple(ks))
        e = self.element(a, ks, st)
        # the element may itself be a row (record or sub array): decided when it is subscripted
        self.names[list(e.t)[0][0]] = (a, tuple(ks))
        return e

    def slice_len(self, a, dim, i, st):
        L = self.length(a, dim, st)
        lo = self.eval(i[1], st) if i[1] is not None else None
        hi = self.eval(i[2], st) if i[2] is not None else None
        step = self.eval(i[3], st) if i[3] is not None else ONE
        if not is_p(step) or step.const() not in (1, -1) or step.const() == -1 and (lo is not None or hi is not None):
            r = self.fresh('len', st, True)
            st.add(r - L)
            return r
        if lo is None and hi is None:
            return L
        if (lo is None or is_p(lo)) and (hi is None or is_p(hi)):
            lo2 = ZERO if lo is None else lo if st.inf(lo) >= 0 else L + lo if st.sup(lo) < 0 else None
            hi2 = L if hi is None else hi if st.inf(hi) >= 0 else L + hi if st.sup(hi) < 0 else None
            if lo2 is not None and hi2 is not None and st.inf(lo2) >= 0 and st.sup(hi2 - L) <= 0 and st.sup(lo2 - hi2) <= 0:
                return hi2 - lo2
        r = self.fresh('len', st, True)
        st.add(r - L)
        if (hi is None or is_p(hi)) and (lo is None or is_p(lo)):
            if hi is not None and st.inf(hi) >= 0:
                st.add(r - hi)
        return r

    def note(self, line, a, dim, i, status, why, store=False):
        if not self.record or self.checked:
            return
        rank = {'proved': 0, 'required': 1, 'assumed': 2, 'undecided': 3, 'violated': 4}
        key = (line, a.name, dim, text(i))
        if key not in self.acc or rank[self.acc[key][0]] < rank[status]:
            self.acc[key] = (status, why)

    def check(self, a, dim, v, st, line, i):
        """0 <= v < length of the dimension"""
        if not self.record or self.checked:
            return
        L = self.length(a, dim, st)
        c = v.const()
        if c is not None and c < 0 and not self.cpp:
            v = L + v
        lo = st.inf(v) >= 0
        hi = st.sup(v - L + ONE) <= 0 or self.in_product(v, L, st)
        if lo and hi:
            return self.note(line, a, dim, i, 'proved', '')
        where = '%s[%s]' % (a.name, text(i))
        need = []
        if not lo:
            if v.syms() <= self.base:
                need.append(Req([-v], '%s: index >= 0' % where, line))
            else:
                return self.note(line, a, dim, i, 'assumed' if self.data(v) and not a.local and not self.cpp else 'violated', 'the index may be negative')
        if not hi:
            alts = []
            if v.syms() <= self.base and (v - L).syms() <= self.base:
                alts.append(v - L + ONE)
            for cand in self.candidates(v, st):
                if (cand - L).syms() <= self.base and cand != L:
                    alts.append(cand - L)
            if a.local and not L.syms() <= self.base:
                alts = []
            if not alts:
                data = self.data(v)
                return self.note(line, a, dim, i, 'assumed' if data and not a.local and not self.cpp else 'violated', 'nothing bounds the index by the length of the array')
            need.append(Req(alts, '%s: index inside' % where, line))
        for r in need:
            self.reqs.setdefault((line, where, r.key()), r)
        self.note(line, a, dim, i, 'required', '')

    def data(self, v):
        """the index contains an element of an array (a value from the data)"""
        return any(s in self.elems for s in v.syms())

    def candidates(self, v, st):
        """upper bounds (index < bound) over the symbols of the parameters, also products of several"""
        out = []
        for s in sorted(self.base):
            if s in self.elems:
                continue
            if st.sup(v - sym(s) + ONE) <= 0:
                out.append(sym(s))
        # i <= something else known
        for s in sorted(self.base):
            n = sym(s)
            q, c = {}, {}
            for m, k in v.t.items():
                if s in m:
                    r = list(m)
                    r.remove(s)
                    q[tuple(r)] = k
                else:
                    c[m] = k
            q, c = P(q), P(c)
            if q.t and st.inf(c) >= 0 and st.sup(c - n + ONE) <= 0:
                out += [x * n for x in self.candidates(q, st)]
        return out

    def in_product(self, v, L, st):
        if any(len(m) > 1 for m in L.t):
            return any(st.sup(c - L) <= 0 for c in self.candidates(v, st))
        return False

    # ---- calls
    def call(self, e, st):
        _, name, args, kw, line = e
        f = self.funcs.get(name)
        if f is not None:
            return f.apply(self, name, args, kw, st, line)
        short = name.split('.')[-1] if name else ''
        vals = [self.eval(a, st) for a in args]
        kws = {k: self.eval(v, st) for k, v in kw.items()}
        if short == 'len' and vals and isinstance(vals[0], Arr):
            return self.length(vals[0], 0, st)
        if short == 'len' and vals and isinstance(vals[0], Tup):
            return num(len(vals[0].items))
        if short == 'len' and vals and isinstance(vals[0], tuple) and vals[0][0] == 'shape':
            return OPQ
        if short in ('int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'intp', 'uint', 'Py_ssize_t', '_cast_') and vals and is_p(vals[-1]):
            return vals[-1]
        if short == '_cast_' and vals:
            return vals[-1]
        if short in ('bool',) and vals:
            return vals[0] if isinstance(vals[0], tuple) or is_p(vals[0]) else FREE
        if short in ('abs', 'absolute', 'fabs') and vals and is_p(vals[0]):
            r = self.fresh('abs', st, True)
            st.add(vals[0] - r)
            st.add(-vals[0] - r)
            return r
        if short in ('min', 'max', 'minimum', 'maximum') and len(vals) >= 2 and all(is_p(v) for v in vals):
            r = self.fresh(short)
            sg = short.startswith('max')
            for v in vals:
                st.add(v - r if sg else r - v)
            for m in {n for v in vals for n in v.syms()} | {None}:
                o = sym(m) if m else ZERO
                b = max(st.sup((v - o) if sg else (o - v)) for v in vals)
                if b < INF:
                    st.add((r - o if sg else o - r) - num(b))
            return r
        np_ = name.split('.')[0] in ('np', 'numpy')
        if np_ and short in ('ascontiguousarray', 'asarray', 'array', 'copy', 'asanyarray', 'require', 'atleast_1d', 'sort', 'cumsum', 'abs', 'floor', 'ceil', 'isnan', 'isfinite', 'sqrt', 'asfortranarray') and vals:
            a = vals[0]
            if isinstance(a, Arr):
                keep = short in ('asarray', 'asanyarray', 'atleast_1d') or short == 'array' and isinstance(kws.get('copy'), tuple)
                return a.like(name=self.uid() if short not in ('asarray', 'ascontiguousarray') else a.name, contig=a.contig if keep else True)
            return OPQ
        if np_ and short in ('empty_like', 'zeros_like', 'ones_like', 'full_like') and vals:
            a = vals[0]
            if isinstance(a, Arr) and 'shape' not in kws:
                self.length(a, 0, st)
                return Arr(self.uid(), list(a.lens), contig=True, local=True, size=a.size)
            if 'shape' in kws:
                return self.alloc(kws['shape'], st)
            return OPQ
        if np_ and short in ('empty', 'zeros', 'ones', 'full') and (vals or 'shape' in kws):
            return self.alloc(vals[0] if vals else kws['shape'], st)
        if np_ and short == 'arange' and len(vals) == 1 and is_p(vals[0]):
            r = self.fresh('len', st, True)
            if st.inf(vals[0]) >= 0:
                r = vals[0]
            return Arr(self.uid(), [r], contig=True, local=True)
        if np_ and short in ('ravel',) and vals:
            return self.method(('method', 'ravel', ('val', vals[0]), [], {}, line), st)
        if np_ and short in ('prod', 'product', 'multiply') and vals and isinstance(vals[0], Arr) and vals[0].seq:
            return self.product(vals[0], st)
        if np_ and short == 'searchsorted' and len(vals) >= 2 and isinstance(vals[0], Arr) and is_p(vals[1]):
            return self.searchsorted(vals[0], vals[1], st, kws)
        if np_ and short in ('isnan', 'isfinite', 'any', 'all', 'isclose', 'allclose'):
            return FREE
        if np_ and short in ('sum', 'count_nonzero', 'max', 'min', 'argmax', 'argmin', 'mean', 'sqrt', 'dot') and vals:
            if short in ('argmax', 'argmin') and isinstance(vals[0], Arr) and len(vals[0].lens) == 1:
                r = self.fresh('arg', st, True)
                st.add(r - self.length(vals[0], 0, st) + ONE)
                return r
            if short == 'count_nonzero' and isinstance(vals[0], Arr) and len(vals[0].lens) == 1:
                r = self.fresh('count', st, True)
                st.add(r - self.length(vals[0], 0, st))
                return r
            return OPQ
        return OPQ

    def searchsorted(self, a, v, st, kws):
        """the array is sorted: the position of the first element >= v is at most the index of any element known to be >= v"""
        L = self.length(a, 0, st)
        r = self.fresh('pos', st, True)
        st.add(r - L)
        side = kws.get('side')
        if side is None or isinstance(side, Str) and side.s == 'left':
            for s, ((n, ver), idx) in list(self.elems.items()):
                if n == a.name and ver == st.ver.get(a.name.split('.')[0], 0) and len(idx) == 1:
                    d = v - sym(s)
                    if st.sup(d) <= 0:
                        st.add(r - idx[0])
                    elif d.syms() <= self.base:
                        self.reqs.setdefault(('sorted', s), Req([d], 'position of %s in %s: the value is not larger' % (v, s), 0))
                        st.add(r - idx[0])
        return r

    def product(self, a, st):
        n = self.length(a, 0, st)
        if st.sup(n) == st.inf(n) and 0 < st.sup(n) < 5:
            out = ONE
            for k in range(int(st.sup(n))):
                out = out * self.element(a, [num(k)], st)
            return out
        return OPQ

    def alloc(self, shape, st):
        if is_p(shape):
            return Arr(self.uid(), [shape], contig=True, local=True, size=shape)
        if isinstance(shape, Tup):
            lens = [x if is_p(x) else self.fresh('len', st, True) for x in shape.items]
            size = ONE
            for x in lens:
                size = size * x
            return Arr(self.uid(), lens, contig=True, local=True, size=size)
        if isinstance(shape, Arr):
            n = self.length(shape, 0, st)
            if st.sup(n) == st.inf(n) and 0 < st.sup(n) < 5:
                return self.alloc(Tup([self.element(shape, [num(k)], st) for k in range(int(st.sup(n)))]), st)
        if isinstance(shape, tuple) and shape[0] == 'shape':
            a = shape[1]
            self.length(a, 0, st)
            return Arr(self.uid(), list(a.lens), contig=True, local=True, size=a.size)
        return OPQ

    def method(self, e, st):
        _, name, base, args, kw, line = e
        b = self.eval(base, st)
        vals = [self.eval(a, st) for a in args]
        kws = {k: self.eval(v, st) for k, v in kw.items()}
        if isinstance(b, Arr):
            if name in ('astype', 'copy', 'view', 'round', 'clip', 'cumsum', 'conj'):
                if name == 'view':
                    return OPQ
                lazy = name == 'astype' and 'copy' in kw
                return b.like(name=self.uid(), contig=None if lazy else True if len(b.lens) <= 1 else b.contig)
            if name in ('ravel', 'flatten') or name == 'reshape' and len(vals) == 1 and is_p(vals[0]) and vals[0].const() == -1:
                if b.size is not None:
                    return Arr(self.uid(), [b.size], unsigned=b.unsigned, contig=True, local=b.local, size=b.size)
                if len(b.lens) == 1:
                    return b.like(contig=True)
                return OPQ
            if name in ('argmax', 'argmin') and len(b.lens) == 1:
                return self.call(('call', 'np.' + name, [('val', b)], {}, line), st)
            if name == 'searchsorted' and vals:
                return self.call(('call', 'np.searchsorted', [('val', b)] + [('val', v) for v in vals], {k: ('val', v) for k, v in kws.items()}, line), st)
            if name in ('any', 'all'):
                return FREE
            if name in ('fill', 'sort', 'put'):
                self.bump(b.name, st)
        return OPQ


def sym_name(v, lid):
    return '%s@%d' % (v, lid)


def root_name(v):
    if isinstance(v, Arr):
        return v.name.split('.')[0]
    if isinstance(v, tuple) and v and v[0] == 'row':
        return v[1].name.split('.')[0]
    return None


def text(e):
    if not isinstance(e, tuple):
        return repr(e)
    k = e[0]
    if k == 'num':
        return str(e[1])
    if k == 'var':
        return e[1]
    if k == 'str':
        return repr(e[1])
    if k == 'bin':
        return '%s %s %s' % (text(e[2]), e[1], text(e[3]))
    if k == 'neg':
        return '-' + text(e[1])
    if k == 'idx':
        return '%s[%s]' % (text(e[1]), ', '.join(text(i) for i in e[2]))
    if k == 'attr':
        return '%s.%s' % (text(e[1]), e[2])
    if k in ('postinc', 'preinc'):
        return text(e[1]) + '++'
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(text(a) for a in e[2]))
    if k == 'val':
        return repr(e[1])
    if k == 'slice':
        return ':'
    return '...'


# ---------------------------------------------------------------- functions that are called
class Inline(object):
    """a helper that is looked into at every call"""
    def __init__(self, params, body):
        self.params, self.body = params, body

    def states(self, an, args, kw, st):
        vals = {}
        for p, a in zip(self.params, args):
            vals[p] = an.eval(a, st)
        for k, v in kw.items():
            vals[k] = an.eval(v, st)
        if an.depth > 4:
            return [(OPQ, st)]
        sub = State(vals, st.cons, st.ver)
        an.depth += 1
        try:
            n, _, _, r = an.block(self.body, [sub])
        finally:
            an.depth -= 1
        out = []
        for s in n + r:
            o = st.copy()
            o.cons, o.ver, o._clo = s.cons, s.ver, s._clo
            out.append((s.env.get('return', OPQ), o))
        return out

    def apply(self, an, name, args, kw, st, line):
        rs = self.states(an, args, kw, st)
        if not rs:
            return OPQ
        if len(rs) == 1:
            v, o = rs[0]
        else:
            for v, o in rs:
                o.env['%ret'] = v
            o = an.join([x for _, x in rs])
            v = o.env.pop('%ret', OPQ)
        st.env, st.cons, st.ver, st._clo = o.env, o.cons, o.ver, None
        return v


def hoist(body, inl, top=True):
    """calls of helpers are made statements of their own before the statement they occur in, where that does not change what is evaluated"""
    count = [0]

    def take(e, pre, safe):
        if not isinstance(e, tuple) or not e:
            return e
        if e[0] == 'call' and e[1] in inl and safe:
            args = [take(a, pre, safe) for a in e[2]]
            count[0] += 1
            t = '%%h%d' % count[0]
            pre.append(('inline', t, e[1], args, e[3]))
            return ('var', t)
        if e[0] in ('and', 'or'):
            return (e[0], [take(x, pre, safe and (i == 0 or not inl[nm_of(x, inl)][1] if nm_of(x, inl) else safe)) for i, x in enumerate(e[1])])
        if e[0] in ('not', 'neg', 'attr'):
            return (e[0], take(e[1], pre, safe)) + e[2:]
        if e[0] in ('cmp', 'bin'):
            return (e[0], e[1], take(e[2], pre, safe), take(e[3], pre, safe)) + e[4:]
        if e[0] == 'idx':
            return (e[0], take(e[1], pre, safe), [take(i, pre, safe) for i in e[2]]) + e[3:]
        if e[0] == 'call':
            return (e[0], e[1], [take(a, pre, safe) for a in e[2]]) + e[3:]
        return e

    def nm_of(x, inl):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and x[1] in inl:
                return x[1]
            for y in x[1:]:
                for z in (y if isinstance(y, list) else [y]):
                    n = nm_of(z, inl)
                    if n:
                        return n
        return None

    def walk(ss):
        out = []
        for s in ss:
            pre = []
            k = s[0]
            if k == 'assign':
                v = take(s[2], pre, True)
                out += pre + [(k, take(s[1], pre, False), v) + s[3:]]
            elif k == 'aug':
                v = take(s[3], pre, True)
                out += pre + [(k, s[1], s[2], v) + s[4:]]
            elif k in ('expr', 'return', 'assert') and s[1] is not None:
                v = take(s[1], pre, True)
                out += pre + [(k, v) + s[2:]]
            elif k == 'if':
                c = take(s[1], pre, True)
                out += pre + [(k, c, walk(s[2]), walk(s[3]))]
            elif k == 'while':
                c = take(s[1], pre, True)
                if pre and not (len(s) > 5 and s[5]):
                    out.append((k, ('const', True), pre + [('if', c, [], [('break',)])] + walk(s[2]), walk(s[3])) + s[4:])
                else:
                    out.append((k, s[1], walk(s[2]), walk(s[3])) + s[4:])
            elif k == 'for':
                out.append((k, s[1], s[2], walk(s[3])) + s[4:])
            elif k == 'block':
                out.append((k, walk(s[1])))
            else:
                out.append(s)
        return out
    return walk(body)


class Summary(object):
    """parameters, requirements over their symbols (len(p) for arrays), and whether it can throw"""
    def __init__(self, params, reqs, result=None, name=''):
        self.params, self.reqs, self.result, self.name = params, reqs, result, name

    def apply(self, an, name, args, kw, st, line):
        vals = {}
        for p, a in zip(self.params, args):
            vals[p] = an.eval(a, st)
        for k, v in kw.items():
            vals[k] = an.eval(v, st)
        if an.record:
            an.calls.append((name, line, vals))
            for r in self.reqs:
                self.require(an, r, vals, st, line, name)
        for v in vals.values():
            n = root_name(v)
            if n:
                an.bump(n, st)
        return OPQ

    def subst(self, an, p, vals, st):
        """the polynomial over the caller's values; None if a value is not known"""
        out = ZERO
        for m, c in p.t.items():
            t = num(c)
            for s in m:
                v = self.lookup(an, s, vals, st)
                if v is None:
                    return None
                t = t * v
            out = out + t
        return out

    def lookup(self, an, s, vals, st):
        if s.startswith('len('):
            inner = s[4:-1]
            dim = 0
            if ',' in inner:
                inner, d = inner.rsplit(',', 1)
                dim = int(d)
            v = vals.get(inner)
            while v is None and '.' in inner:
                inner = inner.rsplit('.', 1)[0]
                v = vals.get(inner)
            if isinstance(v, Arr):
                return an.length(v, dim, st)
            return None
        v = vals.get(s)
        return v if is_p(v) else None

    def require(self, an, r, vals, st, line, name):
        done, open_, lost = False, [], False
        for a in r.alts:
            p = self.subst(an, a, vals, st)
            if p is None:
                lost = True
                continue
            if st.sup(p) <= 0:
                done = True
                break
            if p.syms() <= an.base:
                open_.append(p)
        key = (line, '%s: %s' % (name, r.what), 0, '')
        rank = {'proved': 0, 'required': 1, 'assumed': 2, 'undecided': 3, 'violated': 4}

        def put(status, why):
            if key not in an.acc or rank[an.acc[key][0]] < rank[status]:
                an.acc[key] = (status, why)
        if done:
            put('proved', '')
        elif open_:
            q = Req(open_, r.what, r.line)
            an.reqs.setdefault((line, name, q.key()), q)
            put('required', '')
        elif lost:
            put('undecided', 'an argument is not understood')
        else:
            put('violated', 'the arguments do not ensure it')


# ---------------------------------------------------------------- Python front end
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**',
       ast.MatMult: '@'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


class Py(object):
    def __init__(self, modules=('np', 'numpy', 'numba', 'math', 'analysis_functions', 'analysis_utils')):
        self.modules = set(modules)

    def expr(self, n):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return ('const', n.value)
            if isinstance(n.value, int):
                return ('num', n.value)
            if isinstance(n.value, str):
                return ('str', n.value)
            return ('opaque', [])
        if isinstance(n, ast.Name):
            return ('var', n.id)
        if isinstance(n, ast.BinOp):
            return ('bin', OPS.get(type(n.op), '?'), self.expr(n.left), self.expr(n.right))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                return ('neg', self.expr(n.operand))
            if isinstance(n.op, ast.Not):
                return ('not', self.expr(n.operand))
            if isinstance(n.op, ast.UAdd):
                return self.expr(n.operand)
            return ('opaque', [self.expr(n.operand)])
        if isinstance(n, ast.BoolOp):
            return ('and' if isinstance(n.op, ast.And) else 'or', [self.expr(v) for v in n.values])
        if isinstance(n, ast.Compare):
            parts, left = [], n.left
            for op, right in zip(n.ops, n.comparators):
                if type(op) in CMP:
                    parts.append(('cmp', CMP[type(op)], self.expr(left), self.expr(right)))
                else:
                    parts.append(('opaque', [self.expr(left), self.expr(right)]))
                left = right
            return parts[0] if len(parts) == 1 else ('and', parts)
        if isinstance(n, ast.Subscript):
            i = n.slice
            items = i.elts if isinstance(i, ast.Tuple) else [i]
            return ('idx', self.expr(n.value), [self.index(x) for x in items], n.lineno)
        if isinstance(n, ast.Attribute):
            return ('attr', self.expr(n.value), n.attr)
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
            args = [self.expr(a) for a in n.args if not isinstance(a, ast.Starred)]
            kw = {k.arg: self.expr(k.value) for k in n.keywords if k.arg}
            if star:
                return ('opaque', args + list(kw.values()))
            if d and (isinstance(n.func, ast.Name) or d.split('.')[0] in self.modules):
                return ('call', d, args, kw, n.lineno)
            if isinstance(n.func, ast.Attribute):
                return ('method', n.func.attr, self.expr(n.func.value), args, kw, n.lineno)
            return ('opaque', [self.expr(n.func)] + args + list(kw.values()))
        if isinstance(n, (ast.Tuple, ast.List)):
            return ('tuple', [self.expr(e) for e in n.elts])
        if isinstance(n, ast.IfExp):
            return ('cond', self.expr(n.test), self.expr(n.body), self.expr(n.orelse))
        if isinstance(n, ast.NamedExpr):
            return ('assignexpr', self.expr(n.target), self.expr(n.value))
        return ('opaque', [])

    def index(self, x):
        if isinstance(x, ast.Slice):
            return ('slice', self.expr(x.lower) if x.lower else None, self.expr(x.upper) if x.upper else None, self.expr(x.step) if x.step else None)
        return self.expr(x)

    def body(self, stmts):
        out = []
        for s in stmts:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.expr(s.value)
            if len(s.targets) == 1:
                return [('assign', self.expr(s.targets[0]), v, s.lineno)]
            return [('assign', self.expr(t), v, s.lineno) for t in s.targets]
        if isinstance(s, ast.AnnAssign):
            return [('assign', self.expr(s.target), self.expr(s.value), s.lineno)] if s.value is not None else []
        if isinstance(s, ast.AugAssign):
            return [('aug', self.expr(s.target), OPS.get(type(s.op), '?'), self.expr(s.value), False)]
        if isinstance(s, ast.Expr):
            return [('expr', self.expr(s.value))]
        if isinstance(s, ast.If):
            return [('if', self.expr(s.test), self.body(s.body), self.body(s.orelse))]
        if isinstance(s, ast.While):
            if s.orelse:
                raise Undecided('else')
            return [('while', self.expr(s.test), self.body(s.body), [], s.lineno)]
        if isinstance(s, ast.For):
            if s.orelse:
                raise Undecided('else')
            return [('for', self.expr(s.target), self.expr(s.iter), self.body(s.body), s.lineno)]
        if isinstance(s, ast.Break):
            return [('break',)]
        if isinstance(s, ast.Continue):
            return [('continue',)]
        if isinstance(s, ast.Return):
            return [('return', self.expr(s.value) if s.value is not None else None)]
        if isinstance(s, ast.Raise):
            return [('throw', [])]
        if isinstance(s, ast.Assert):
            return [('assert', self.expr(s.test))]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Global, ast.Nonlocal)):
            return []
        if isinstance(s, ast.With):
            return [('expr', self.expr(i.context_expr)) for i in s.items] + self.body(s.body)
        names = {n.id for x in ast.walk(s) for n in [x] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        raise Undecided(type(s).__name__)
