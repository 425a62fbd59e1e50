"""Normal forms of real expressions: quotients of polynomials over symbols, sines, cosines and square roots.

Two expressions that are equal by the field axioms, sin^2 + cos^2 = 1, the addition formulas, sqrt(p)^2 = p and the
definitions of the inverse functions get the same normal form, however they are written.
"""
from fractions import Fraction

ONE = ()


class Tooling(Exception):
    """The expression is outside of what has a normal form."""


RELATION = {}        # symbol -> polynomial its square is equal to
ANGLE = {}           # angle symbol -> (sine, cosine)
RANGE = {'asin': (Fraction(-1, 2), Fraction(1, 2)), 'acos': (Fraction(0), Fraction(1)), 'atan2': (Fraction(-1), Fraction(1)), 'atan': (Fraction(-1, 2), Fraction(1, 2))}   # in units of pi
LIMIT = 4000         # terms


def padd(a, b, f=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c * f
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def mmul(a, b):
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    out = {}
    if len(a) * len(b) > LIMIT * 25:
        raise Tooling('too large')
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return reduce(out)


def reduce(p):
    while True:
        for m in p:
            hit = next(((s, e) for s, e in m if e > 1 and s in RELATION), None)
            if hit:
                break
        else:
            if len(p) > LIMIT:
                raise Tooling('too large')
            return p
        out = {}
        for m, c in p.items():
            part = next(((s, e) for s, e in m if e > 1 and s in RELATION), None)
            if part is None:
                out = padd(out, {m: c})
                continue
            s, e = part
            rest = tuple((x, y) for x, y in m if x != s)
            if e % 2:
                rest = mmul(rest, ((s, 1),))
            q = {rest: c}
            for _ in range(e // 2):
                new = {}
                for m1, c1 in q.items():
                    for m2, c2 in RELATION[s].items():
                        new = padd(new, {mmul(m1, m2): c1 * c2})
                q = new
            out = padd(out, q)
        p = out


def pkey(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def pdiv(a, b):
    """Quotient if b divides a without remainder (both reduced; checked by multiplication), else None."""
    names = sorted({s for p in (a, b) for m in p for s, _ in m}, key=repr)

    def order(m):
        d = dict(m)
        return [sum(d.values())] + [d.get(s, 0) for s in names]
    lead = max(b, key=order)
    rest, q = dict(a), {}
    for _ in range(200):
        if not rest:
            return q if padd(pmul(q, b), a, -1) == {} else None
        m = max(rest, key=order)
        d = dict(m)
        for s, e in lead:
            d[s] = d.get(s, 0) - e
            if d[s] < 0:
                return None
        k = tuple(sorted(((s, e) for s, e in d.items() if e), key=repr))
        t = {k: rest[m] / b[lead]}
        q = padd(q, t)
        rest = padd(rest, pmul(t, b), -1)
    return None


class Num(object):
    """num / den in normal form."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        den = {ONE: Fraction(1)} if den is None else den
        if not den:
            raise Tooling('division by zero')
        if not num:
            den = {ONE: Fraction(1)}
        elif den != {ONE: 1}:
            if len(den) == 1 and ONE in den:
                num, den = {m: c / den[ONE] for m, c in num.items()}, {ONE: Fraction(1)}
            else:
                # a square root in a denominator that is one term goes to the numerator
                if len(den) == 1:
                    (m, c), = den.items()
                    roots = tuple((s, e) for s, e in m if s in RELATION and s[0] == 'sqrt')
                    if roots:
                        num, den = pmul(num, {roots: Fraction(1)}), pmul(den, {roots: Fraction(1)})
                common = None
                for m in list(num) + list(den):
                    d = dict(m)
                    common = d if common is None else {s: min(e, d[s]) for s, e in common.items() if s in d}
                if common:
                    cut = lambda p: {tuple((s, e - common.get(s, 0)) for s, e in m if e > common.get(s, 0)): c for m, c in p.items()}
                    num, den = cut(num), cut(den)
                q = pdiv(num, den) if len(den) > 1 and len(num) < 400 else None
                if q is not None:
                    num, den = q, {ONE: Fraction(1)}
                elif len(den) > 1 and len(num) < 60 and len(den) < 60:
                    # what is under a square root is a likely common factor
                    for s, f in list(RELATION.items()):
                        if s[0] != 'sqrt' or len(f) < 2:
                            continue
                        while len(den) > 1:
                            b = pdiv(den, f)
                            a = pdiv(num, f) if b is not None else None
                            if a is None:
                                break
                            num, den = a, b
                lead = den[max(den, key=repr)]
                if lead != 1:
                    num, den = {m: c / lead for m, c in num.items()}, {m: c / lead for m, c in den.items()}
        self.num, self.den = num, den

    def __add__(self, o, f=1):
        if self.den == o.den:
            return Num(padd(self.num, o.num, f), self.den)
        return Num(padd(pmul(self.num, o.den), pmul(o.num, self.den), f), pmul(self.den, o.den))

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __mul__(self, o):
        return Num(pmul(self.num, o.num), pmul(self.den, o.den))

    def __truediv__(self, o):
        if not o.num:
            raise Tooling('division by zero')
        return Num(pmul(self.num, o.den), pmul(self.den, o.num))

    def __neg__(self):
        return Num({m: -c for m, c in self.num.items()}, self.den)

    def key(self):
        return (pkey(self.num), pkey(self.den))

    def __eq__(self, o):
        return isinstance(o, Num) and not (self - o).num

    def __hash__(self):
        return hash(self.key())

    def const(self):
        """The value, if it is a plain number."""
        if not self.num:
            return Fraction(0)
        if list(self.num) == [ONE] and list(self.den) == [ONE]:
            return self.num[ONE] / self.den[ONE]
        return None

    def symbols(self):
        return {s for p in (self.num, self.den) for m in p for s, _ in m}

    def __repr__(self):
        def one(p):
            t = []
            for m, c in sorted(p.items(), key=repr):
                f = ['%s%s' % (name(s), '' if e == 1 else '^%d' % e) for s, e in m]
                t.append('*'.join(([str(c)] if c != 1 or not f else []) + f))
            return ' + '.join(t) or '0'
        return one(self.num) if self.den == {ONE: 1} else '(%s)/(%s)' % (one(self.num), one(self.den))


def name(s):
    if s[0] == 'sym':
        return s[1]
    if s[0] in ('sin', 'cos'):
        return '%s(%s)' % (s[0], name(s[1]))
    return '%s(..)' % s[0]


def num(v):
    return Num({ONE: Fraction(v)} if v else {})


def sym(n):
    return Num({((('sym', n), 1),): Fraction(1)})


def atom(s):
    return Num({((s, 1),): Fraction(1)})


PI = ('sym', 'pi')
ZERO, UNIT = num(0), num(1)


def _sincos(s):
    if s in ANGLE:
        return ANGLE[s]
    sn, cs = ('sin', s), ('cos', s)
    if sn not in RELATION:
        RELATION[sn] = {ONE: Fraction(1), ((cs, 2),): Fraction(-1)}
    return atom(sn), atom(cs)


def sincos(x):
    """Sine and cosine of an angle that is a sum of whole multiples of symbols and of pi/2."""
    if x.den != {ONE: 1}:
        raise Tooling('angle')
    S, C = ZERO, UNIT
    for m, c in sorted(x.num.items(), key=repr):
        if m == ((PI, 1),):
            k = c * 2
            if k.denominator != 1:
                raise Tooling('angle')
            s, co = [(ZERO, UNIT), (UNIT, ZERO), (ZERO, num(-1)), (num(-1), ZERO)][int(k) % 4]
            S, C = S * co + C * s, C * co - S * s
            continue
        if m == ONE:
            s, co = _sincos(('const', str(abs(c))))
            n = 1 if c > 0 else -1
        else:
            if len(m) != 1 or m[0][1] != 1 or c.denominator != 1 or abs(c) > 6:
                s, co = _sincos(('expr', pkey({m: abs(c)})))
                n = 1 if c > 0 else -1
            else:
                s, co = _sincos(m[0][0])
                n = int(c)
        if n < 0:
            s, n = -s, -n
        for _ in range(n):
            S, C = S * co + C * s, C * co - S * s
    return S, C


def positive(p):
    """Every term is a positive number times even powers (square roots count as positive)."""
    return bool(p) and all(c > 0 and all(e % 2 == 0 or s[0] == 'sqrt' for s, e in m) for m, c in p.items())


def negative(p):
    return positive({m: -c for m, c in p.items()})


def _proot(p):
    """Square root of a polynomial."""
    if not p:
        return ZERO
    if list(p) == [ONE]:
        c = p[ONE]
        if c < 0:
            raise Tooling('root of a negative number')
        for k in (c.numerator, c.denominator):
            if int(k ** 0.5 + 0.5) ** 2 != k:
                break
        else:
            return num(Fraction(int(c.numerator ** 0.5 + 0.5), int(c.denominator ** 0.5 + 0.5)))
    if len(p) == 1:
        (m, c), = p.items()
        if m and all(s[0] == 'sqrt' and e % 2 == 0 for s, e in m) and c == 1:
            return Num({tuple((s, e // 2) for s, e in m): Fraction(1)})
    s = ('sqrt', pkey(p))
    RELATION[s] = p
    return atom(s)


def sqrt(x):
    if x.den == {ONE: 1}:
        return _proot(x.num)
    if positive(x.den):
        return _proot(x.num) / _proot(x.den)
    if positive(x.num):
        return _proot(pmul(x.num, x.den)) / Num(x.den)
    raise Tooling('root of a quotient of unknown sign')


def absolute(x):
    c = x.const()
    if c is not None:
        return num(abs(c))
    if positive(x.num) and positive(x.den):
        return x
    if negative(x.num) and positive(x.den):
        return -x
    return sqrt(x * x)


def _angle(kind, key, s, c):
    t = (kind, key)
    ANGLE[t] = (s, c)
    return atom(t)


def arcsin(u):
    c = u.const()
    if c in (0, 1, -1):
        return Num({((PI, 1),): c / 2} if c else {})
    if u.num and pkey(u.num) > pkey({m: -c for m, c in u.num.items()}):
        return -arcsin(-u)
    return _angle('asin', u.key(), u, sqrt(UNIT - u * u))


def arccos(u):
    c = u.const()
    if c == 1:
        return ZERO
    if c == -1:
        return atom(PI)
    if c == 0:
        return Num({((PI, 1),): Fraction(1, 2)})
    return _angle('acos', u.key(), sqrt(UNIT - u * u), u)


def arctan2(y, x):
    if not y.num:
        if not x.num or positive(x.num) and positive(x.den):
            return ZERO
        if negative(x.num) and positive(x.den):
            return atom(PI)
        r = absolute(x)
        return _angle('atan2', (y.key(), x.key()), ZERO, x / r)
    r = sqrt(x * x + y * y)
    if not x.num:
        if y.const() is not None:
            return Num({((PI, 1),): Fraction(1 if y.const() > 0 else -1, 2)})
    return _angle('atan2', (y.key(), x.key()), y / r, x / r)


def arctan(u):
    r = sqrt(UNIT + u * u)
    return _angle('atan', u.key(), u / r, UNIT / r)


def number(v):
    """Exact value of a literal as written (decimal)."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise Tooling('not a number')
    return num(Fraction(repr(v)) if isinstance(v, float) else Fraction(v))
