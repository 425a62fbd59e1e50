"""C15: frame transformations are rigid and invert each other.

What the geometry functions and the conversions of every DUT class return is brought to a normal form (algebra.py, matval.py) with symbols for all angles, positions and pixel sizes; equal normal forms hold for all values.
R1 rigid - R(alpha, beta, gamma) and the rotations about x, y and z are orthogonal with determinant 1, right-handed, and R is the rotation about x, then y, then z
R2 inverse - the two transformation matrices of the same position and angles are inverses of each other; the one to global applies R and then moves the origin to the position
R3 applied - applying a matrix to coordinates gives its product with them, component by component
R4 angles - the angles recovered from a rotation give that rotation, for every beta including +-pi/2 and 0
R5 conversion - the conversions of a DUT between local, global and index use its position and angles, or for each parameter the value given, and invert each other
R6 index - index to local position and back is the identity for all pixels up to the sensor edges; neighbouring pixels are one pixel size apart and the matrix is centred
R7 intersection - the intersection of a line with a DUT is on the line and in the plane of the DUT; a line parallel to the plane has none (nan)
R8 spherical - a direction converted to spherical coordinates and back is the same
R9 arguments - a position or angle is handed to these functions as what it is (alpha as alpha), and all of them belong to the same DUT
"""
import ast
from fractions import Fraction

from .. import algebra as A
from ..algebra import Num
from ..loader import pos, dotted
from ..matval import Eval, Arr, Obj, UNK, NAN, Cond, val, col, scal, dot, det, transpose, elementwise, eye, flat, Tooling

ID = 'C15'
TECHNIQUE = 'value numbering to algebraic normal forms (polynomials in sines, cosines and roots), with symbols for all inputs'
MINIMUM = {'proved': 25}
LEVEL_NOTE = 'exact arithmetic is assumed (no rounding); values are generic, the special values beta = +-pi/2 and 0 and directions in the planes between the axes are treated separately; the pixels of the Diamond types are not covered'
GEO = 'tools.geometry_utils.'
SIX = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
# pixels of different shapes: several indices share a position, so there is no inverse to ask for
OTHER_PIXELS = {'Diamond3DpCVD', 'DiamondPseudo3DpCVD'}


def half(k):
    return scal(Num({((A.PI, 1),): Fraction(k, 2)} if k else {}))


def basic(axis, a):
    s, c = A.sincos(a.data[0])
    i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[axis]
    m = eye(3)
    for r, q, v in ((i, i, c), (i, j, -s), (j, i, s), (j, j, c)):
        m.data[r * 3 + q] = v
    return m


def spec_rotation(a, b, c):
    return dot(dot(basic('z', c), basic('y', b)), basic('x', a))


def spec_to_global(p):
    """4x4 matrix for the six values."""
    r = spec_rotation(*p[3:])
    m = eye(4)
    for i in range(3):
        for j in range(3):
            m.data[i * 4 + j] = r.data[i * 3 + j]
        m.data[i * 4 + 3] = p[i].data[0]
    return m


def spec_to_local(p):
    r = transpose(spec_rotation(*p[3:]))
    t = dot(r, Arr((3,), [x.data[0] for x in p[:3]]))
    m = eye(4)
    for i in range(3):
        for j in range(3):
            m.data[i * 4 + j] = r.data[i * 3 + j]
        m.data[i * 4 + 3] = -t.data[i]
    return m


def times(m, xyz):
    v = dot(m, Arr((4, 'N'), [x.data[0] for x in xyz] + [A.UNIT]))
    return [Arr(('N',), [v.data[i]]) for i in range(3)]


class Check(object):
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.ev = Eval(prog)
        self.proved, self.open = [], []

    def equal(self, rule, construct, where, what, body):
        """body(ev) -> [(label, value, expected)], equal on every path."""
        got = self.ev.paths(body)
        values = [g for g in got if g[2] == 'value']
        if not values:
            raised = [g for g in got if g[2] == 'raise']
            if raised and len(raised) == len(got):
                self.res.add(rule, construct + ':raises', pos(raised[0][0]) if raised[0][0] is not None and hasattr(raised[0][0], '_module') else where, '%s: an error is raised for all values' % what)
            else:
                self.open.append('%s %s' % (construct, getattr(self.ev, 'why', '')))
            return
        # an error raised although nothing was left open
        ok = all(g[2] != 'unknown' for g in got)
        for pairs, taken, _ in values:
            for label, v, want in pairs:
                d = self.differ(v, want)
                if d is None:
                    ok = False
                elif d:
                    cond = [('' if t else 'not ') + repr(c)[:80] for c, t in taken if c.t[0] not in ('is',)]
                    self.res.add(rule, construct, where, '%s: %s is %s, expected %s%s' % (what, label, d[0], d[1], ' (where %s)' % ' and '.join(cond[:3]) if cond and len(values) > 1 else ''))
                    return
        (self.proved if ok else self.open).append(construct)

    def differ(self, v, want):
        """() if equal, (got, expected) if not, None if not known."""
        if isinstance(v, (tuple, list)) and isinstance(want, (tuple, list)):
            if len(v) != len(want):
                return ('%d values' % len(v), '%d' % len(want))
            ds = [self.differ(x, y) for x, y in zip(v, want)]
            bad = [d for d in ds if d]
            return bad[0] if bad else None if any(d is None for d in ds) else ()
        if v is UNK or not isinstance(v, Arr):
            return None
        if len(v.data) != len(want.data) or [d for d in v.shape if d not in (1, 'N')] != [d for d in want.shape if d not in (1, 'N')]:
            return ('of shape %s' % (v.shape,), 'shape %s' % (want.shape,))
        unknown = False
        for x, y in zip(v.data, want.data):
            if x is UNK or not isinstance(x, Num) and x is not NAN:
                unknown = True
            elif x is NAN or y is NAN:
                if x is not y:
                    return (repr(x)[:120], repr(y)[:120])
            elif not x == y:
                return (repr(x)[:120], repr(y)[:120])
        return None if unknown else ()


def run(prog, res, tier):
    for k, v in (l.strip().split(' - ', 1) for l in __doc__.splitlines() if l[:1] == 'R' and l[1:2].isdigit()):
        res.rule(k, v)
    c = Check(prog, res)
    matrices(prog, c)
    angles(prog, c)
    intersections(prog, c)
    spherical(prog, c)
    duts(prog, c)
    res.cover('call_arguments', arguments(prog, res))
    res.cover('proved', sorted(set(c.proved)))
    res.cover('not_decided', sorted(set(c.open) - set(c.proved)))


def geo(prog, name):
    return prog.fn(GEO + name)


def six():
    return [val('X'), val('Y'), val('Z'), val('alpha'), val('beta'), val('gamma')]


def matrices(prog, c):
    for axis, par in (('x', 'alpha'), ('y', 'beta'), ('z', 'gamma')):
        f = geo(prog, 'rotation_matrix_' + axis)
        c.equal('R1 rigid', f.name, pos(f.node), 'rotation about ' + axis, lambda e: [('the matrix', e.call_fn(f, [val(par)], {}), basic(axis, val(par)))])
    f = geo(prog, 'rotation_matrix')
    p = six()

    def rigid(e):
        r = e.call_fn(f, [], dict(alpha=p[3], beta=p[4], gamma=p[5]))
        return [('R R^T', dot(r, transpose(r)), eye(3)), ('the determinant', scal(det(r)), scal(A.UNIT))]
    c.equal('R1 rigid', f.name, pos(f.node), 'rotation by alpha, beta, gamma', rigid)
    c.equal('R1 rigid', f.name + ':order', pos(f.node), 'rotation about x, then y, then z', lambda e: [('the matrix', e.call_fn(f, [], dict(alpha=p[3], beta=p[4], gamma=p[5])), spec_rotation(*p[3:]))])
    g, l = geo(prog, 'local_to_global_transformation_matrix'), geo(prog, 'global_to_local_transformation_matrix')
    kw = dict(zip(['x', 'y', 'z', 'alpha', 'beta', 'gamma'], p))
    c.equal('R2 inverse', 'inverse', pos(l.node), 'global to local after local to global', lambda e: [('the product', dot(e.call_fn(l, [], dict(kw)), e.call_fn(g, [], dict(kw))), eye(4))])
    c.equal('R2 inverse', g.name, pos(g.node), 'transformation to global', lambda e: [('the matrix', e.call_fn(g, [], dict(kw)), spec_to_global(p))])
    c.equal('R2 inverse', l.name, pos(l.node), 'transformation to local', lambda e: [('the matrix', e.call_fn(l, [], dict(kw)), spec_to_local(p))])
    xyz = [col('x'), col('y'), col('z')]
    f4 = geo(prog, 'apply_transformation_matrix')
    m4 = Arr((4, 4), [A.sym('m%d%d' % (i, j)) if i < 3 else A.num(int(j == 3)) for i in range(4) for j in range(4)])
    c.equal('R3 applied', f4.name, pos(f4.node), 'coordinates with a transformation applied', lambda e: [('the result', e.call_fn(f4, [], dict(x=xyz[0], y=xyz[1], z=xyz[2], transformation_matrix=m4)), tuple(times(m4, xyz)))])
    f3 = geo(prog, 'apply_rotation_matrix')
    m3 = Arr((3, 3), [A.sym('m%d%d' % (i, j)) for i in range(3) for j in range(3)])
    want = dot(m3, Arr((3, 'N'), [x.data[0] for x in xyz]))
    c.equal('R3 applied', f3.name, pos(f3.node), 'coordinates with a rotation applied', lambda e: [('the result', e.call_fn(f3, [], dict(x=xyz[0], y=xyz[1], z=xyz[2], rotation_matrix=m3)), tuple(Arr(('N',), [v]) for v in want.data))])
    f = geo(prog, 'translation_matrix')

    def move(e):
        m = e.call_fn(f, [], dict(x=p[0], y=p[1], z=p[2]))
        w = eye(4)
        for i in range(3):
            w.data[i * 4 + 3] = p[i].data[0]
        return [('the matrix', m, w)]
    c.equal('R2 inverse', f.name, pos(f.node), 'translation', move)


def angles(prog, c):
    f = geo(prog, 'euler_angles')
    cases = [('any angles', val('alpha'), val('beta'), val('gamma')), ('beta = pi/2', val('alpha'), half(1), val('gamma')), ('beta = -pi/2', val('alpha'), half(-1), val('gamma')),
             ('beta = 0', val('alpha'), half(0), val('gamma')), ('alpha = 0', half(0), val('beta'), val('gamma')), ('gamma = 0', val('alpha'), val('beta'), half(0)), ('no rotation', half(0), half(0), half(0)),
             ('beta = pi', val('alpha'), half(2), val('gamma')), ('alpha = pi', half(2), val('beta'), val('gamma')), ('gamma = pi/2', val('alpha'), val('beta'), half(1))]
    for label, a, b, g in cases:
        def body(e):
            r = spec_rotation(a, b, g)
            out = e.call_fn(f, [], dict(R=Arr(r.shape, r.data)))
            if not isinstance(out, (tuple, list)) and isinstance(out, Arr):
                out = e.items(out)
            if len(out) != 3 or any(x is UNK for x in out):
                raise Tooling('angles')
            out = [e.arr(x) for x in out]
            return [('the rotation by them', spec_rotation(*out), r)]
        c.equal('R4 angles', '%s:%s' % (f.name, label), pos(f.node), 'angles recovered from a rotation (%s)' % label, body)


def intersections(prog, c):
    p = six()
    rows = lambda n: Arr(('N', 3), [A.sym(n + k) for k in 'xyz'])
    o, d = rows('o'), rows('d')
    f, g = geo(prog, 'get_line_intersections_with_dut'), geo(prog, 'get_line_intersections_with_plane')

    def on(pt, point, normal):
        line = Eval(prog).numpy('numpy.cross', 'cross', [elementwise(lambda x, y: x - y, pt, o), d], {}, None)
        dist = dot(elementwise(lambda x, y: x - y, pt, point), normal)
        return [('the distance to the line', line, Arr(('N', 3), [A.ZERO] * 3)), ('the distance to the plane', dist, Arr(('N',), [A.ZERO]))]

    def dut(e):
        pt = e.call_fn(f, [], dict(line_origins=o, line_directions=d, **dict(zip(SIX, p))))
        if pt is UNK:
            raise Tooling('unknown')
        normal = Arr((3,), spec_rotation(*p[3:]).data[2::3])
        return on(pt, Arr((3,), [x.data[0] for x in p[:3]]), normal)

    def plane(e):
        point, normal = Arr((3,), [A.sym('p' + k) for k in 'xyz']), Arr((3,), [A.sym('n' + k) for k in 'xyz'])
        pt = e.call_fn(g, [], dict(line_origins=o, line_directions=d, position_plane=point, normal_plane=normal))
        if pt is UNK:
            raise Tooling('unknown')
        return on(pt, point, normal)
    flat_line = Arr(('N', 3), [A.sym('dx'), A.sym('dy'), A.ZERO])
    nothing = Arr(('N', 3), [NAN] * 3)

    def parallel(e):
        pt = e.call_fn(g, [], dict(line_origins=o, line_directions=flat_line, position_plane=Arr((3,), [A.sym('p' + k) for k in 'xyz']), normal_plane=Arr((3,), [A.ZERO, A.ZERO, A.sym('nz')])))
        return [('the intersection', pt, nothing)]
    c.equal('R7 intersection', g.name + ':parallel', pos(g.node), 'intersection of a line with a plane it is parallel to', parallel)
    c.equal('R7 intersection', f.name, pos(f.node), 'intersection of a line with a DUT', dut)
    c.equal('R7 intersection', g.name, pos(g.node), 'intersection of a line with a plane', plane)


def spherical(prog, c):
    f, g = geo(prog, 'cartesian_to_spherical'), geo(prog, 'spherical_to_cartesian')
    zero = Arr(('N',), [A.ZERO])
    for label, v in (('any direction', [col('x'), col('y'), col('z')]), ('x = 0', [zero, col('y'), col('z')]), ('y = 0', [col('x'), zero, col('z')]), ('z = 0', [col('x'), col('y'), zero])):
        def body(e):
            out = e.call_fn(f, [Arr(x.shape, x.data) for x in v], {})
            return [('the result', e.call_fn(g, list(e.items(out)), {}), tuple(v))]
        c.equal('R8 spherical', '%s:%s' % (f.name, label), pos(f.node), 'spherical coordinates and back (%s)' % label, body)


# -- DUT classes -----------------------------------------------------------------
def duts(prog, c):
    base = prog.cls('telescope.dut.RectangularPixelDut')
    done = []
    for cls in sorted(prog.subclasses(base), key=lambda k: k.qual):
        if cls.name in OTHER_PIXELS:
            continue
        init = prog.find_method(cls, '__init__')
        if init is None:
            continue
        p = six()
        size = {'column_size': val('w'), 'row_size': val('h'), 'n_columns': val('nc'), 'n_rows': val('nr')}
        kw = dict(zip(SIX, p), name='D')
        for a in init.params[1:]:
            if a in size:
                kw[a] = size[a]
            elif a not in kw and a not in init.defaults:
                kw = None
                break
        if kw is None:
            continue
        done.append(cls.name)
        # methods, so that what is shared is reported once
        who = lambda m: prog.find_method(cls, m)
        where = lambda m: pos(who(m).node)
        name = lambda m: who(m).qual.split('.', 3)[-1]
        make = lambda e: e.make(cls, [], dict(kw))
        call = lambda e, o, m, **k: e.call(e.attribute(o, m), [], k)
        xyz = [col('x'), col('y'), col('z')]
        given = [val('given_' + n) for n in SIX]
        zero = Arr(('N',), [A.ZERO])
        if all(who(m) for m in ('local_to_global_position', 'global_to_local_position')):
            sets = [('own position', {}, p, zero), ('position given', dict(zip(SIX, given)), given, xyz[2])]
            for i, n in enumerate(SIX):
                sets.append((n + ' given', {n: given[i]}, p[:i] + [given[i]] + p[i + 1:], xyz[2]))
                sets.append((n + ' = 0 given', {n: scal(A.ZERO)}, p[:i] + [scal(A.ZERO)] + p[i + 1:], xyz[2]))
            for label, k, want, z in sets:
                m = 'local_to_global_position'
                c.equal('R5 conversion', '%s:%s' % (name(m), label), where(m), '%s, local to global with %s' % (cls.name, label),
                        lambda e: [('the result', call(e, make(e), m, x=xyz[0], y=xyz[1], z=z, **k), tuple(times(spec_to_global(want), [xyz[0], xyz[1], z])))])
                m = 'global_to_local_position'

                def back(e):
                    g = times(spec_to_global(want), [xyz[0], xyz[1], z])
                    return [('the result', call(e, make(e), m, x=g[0], y=g[1], z=g[2], **k), (xyz[0], xyz[1], z))]
                c.equal('R5 conversion', '%s:%s' % (name(m), label), where(m), '%s, global to local with %s' % (cls.name, label), back)
            m = 'local_to_global_position'
            c.equal('R5 conversion', name(m) + ':no z', where(m), '%s, local to global without z' % cls.name,
                    lambda e: [('the result', call(e, make(e), m, x=xyz[0], y=xyz[1]), tuple(times(spec_to_global(p), [xyz[0], xyz[1], zero])))])
        if all(who(m) for m in ('index_to_local_position', 'local_position_to_index')):
            index(prog, c, cls, make, call, who, where, name)
        if all(who(m) for m in ('index_to_global_position', 'global_position_to_index', 'index_to_local_position', 'local_position_to_index')):
            cr = [col('c'), col('r')]
            for label, k, want in [('own position', {}, p), ('position given', dict(zip(SIX, given)), given)]:
                def fwd(e):
                    o = make(e)
                    l = call(e, o, 'index_to_local_position', column=cr[0], row=cr[1])
                    return [('the result', call(e, o, 'index_to_global_position', column=cr[0], row=cr[1], **k), tuple(times(spec_to_global(want), [l[0], l[1], zero])))]
                m = 'index_to_global_position'
                c.equal('R5 conversion', '%s:%s:%s' % (cls.name, m, label), where(m), '%s, index to global with %s' % (cls.name, label), fwd)

                def rev(e):
                    o = make(e)
                    l = call(e, o, 'index_to_local_position', column=cr[0], row=cr[1])
                    g = times(spec_to_global(want), [l[0], l[1], zero])
                    return [('the result', call(e, o, 'global_position_to_index', x=g[0], y=g[1], z=g[2], **k), tuple(cr))]
                m = 'global_position_to_index'
                c.equal('R5 conversion', '%s:%s:%s' % (cls.name, m, label), where(m), '%s, global to index with %s' % (cls.name, label), rev)
    c.res.cover('dut_types', done)


def index(prog, c, cls, make, call, who, where, name):
    cr, xy = [col('c'), col('r')], [col('x'), col('y')]
    to, back = 'index_to_local_position', 'local_position_to_index'
    zero = Arr(('N',), [A.ZERO])

    def there(e):
        o = make(e)
        l = e.items(call(e, o, to, column=cr[0], row=cr[1]))
        return [('the index', call(e, o, back, x=l[0], y=l[1], z=l[2]), tuple(cr)), ('z', l[2], zero)]
    c.equal('R6 index', cls.name + ':there and back', where(back), '%s, index to local position and back' % cls.name, there)

    def again(e):
        o = make(e)
        i = e.items(call(e, o, back, x=xy[0], y=xy[1]))
        return [('the position', call(e, o, to, column=i[0], row=i[1]), tuple(xy) + (zero,))]
    c.equal('R6 index', cls.name + ':back and there', where(to), '%s, local position to index and back' % cls.name, again)

    def grid(e):
        o = make(e)
        w, h, nc, nr = [e.arr(e.attribute(o, a)) for a in ('column_size', 'row_size', 'n_columns', 'n_rows')]
        plus = lambda a, b: elementwise(lambda x, y: x + y, a, b)
        one = scal(A.UNIT)
        at = lambda i, j: e.items(call(e, o, to, column=i, row=j))
        l, n = at(*cr), at(plus(cr[0], one), plus(cr[1], one))
        minus = lambda a, b: elementwise(lambda x, y: x - y, a, b)
        m = at(minus(plus(nc, one), cr[0]), minus(plus(nr, one), cr[1]))
        sized = lambda v: Arr(('N',), v.data)
        return [('the distance of neighbouring columns', minus(n[0], l[0]), sized(w)), ('the distance of neighbouring rows', minus(n[1], l[1]), sized(h)),
                ('x of opposite columns together', plus(l[0], m[0]), zero), ('y of opposite rows together', plus(l[1], m[1]), zero)]
    c.equal('R6 index', cls.name + ':grid', where(to), '%s, positions of the pixels' % cls.name, grid)
    limits(c, cls, make, call, who, where, to, back, cr, xy)


def limits(c, cls, make, call, who, where, to, back, cr, xy):
    """Everything from edge to edge is accepted."""
    info = {}

    def size(e):
        o = make(e)
        info['n'] = [e.arr(e.attribute(o, a)).data[0] for a in ('n_columns', 'n_rows')]
        info['s'] = [e.arr(e.attribute(o, a)).data[0] for a in ('column_size', 'row_size')]
        return None
    c.ev.paths(size)
    if 's' not in info or not all(isinstance(x, Num) for x in info['n'] + info['s']):
        return
    h = A.num(Fraction(1, 2))
    for m, args, syms, ends in ((to, dict(column=cr[0], row=cr[1]), cr, [(h, n + h) for n in info['n']]),
                                (back, dict(x=xy[0], y=xy[1]), xy, [(-h * n * s, h * n * s) for n, s in zip(info['n'], info['s'])])):
        got = c.ev.paths(lambda e: call(e, make(e), m, **args))
        good = [g for g in got if g[2] == 'value']
        bad = [g for g in got if g[2] == 'raise']
        if not bad:
            if good and len(good) == len(got):
                c.proved.append('%s:%s accepts all' % (cls.name, m))
            continue
        if len(good) != 1:
            continue
        ok = True
        for cond, t in good[0][1]:
            if cond.t[0] != 'cmp':
                continue
            op, d = cond.t[1:]
            if not t:
                d, op = -d, {'<': '<=', '<=': '<', '==': None}[op]
            if op is None:
                continue
            for s, (lo, hi) in zip(syms, ends):
                key = next(iter(s.data[0].num))
                if key[0][0] not in d.symbols():
                    continue
                for end, label in ((lo, 'first'), (hi, 'last')):
                    v = subst(d, key[0][0], end)
                    sg = None if v is None else sign(c.ev, v)
                    if sg is None:
                        ok = False
                    elif sg > 0 or sg == 0 and op == '<':
                        which = 'column' if s is syms[0] else 'row'
                        c.res.add('R6 index', '%s:%s:%s edge of the %ss' % (who(m).qual.split('.', 3)[-1], m, label, which), where(m), '%s.%s does not accept the edge of the %s %s (%r %s 0 is asked for)' % (cls.name, m, label, which, d, op))
                        ok = False
        if ok:
            c.proved.append('%s:%s accepts all' % (cls.name, m))


def subst(d, s, v):
    """d with the symbol replaced, if it is linear in it."""
    def one(p):
        out = A.ZERO
        for m, k in p.items():
            e = dict(m).get(s, 0)
            if e > 1:
                return None
            rest = Num({tuple((x, y) for x, y in m if x != s): k})
            out = out + (rest * v if e else rest)
        return out
    n, q = one(d.num), one(d.den)
    return None if n is None or q is None or not q.num else n / q


def sign(ev, v):
    """Sign of a form in which all symbols are positive numbers (sizes and numbers of pixels)."""
    if not v.num:
        return 0
    if v.const() is not None:
        return 1 if v.const() > 0 else -1
    if not all(k > 0 for k in v.den.values()):
        return None
    if all(k > 0 for k in v.num.values()):
        return 1
    if all(k < 0 for k in v.num.values()):
        return -1
    # at least one pixel
    for s in sorted(v.symbols(), key=repr):
        if s[0] == 'sym' and s[1] in ('nc', 'nr'):
            w = subst(v, s, A.sym('more') + A.UNIT)
            if w is not None:
                if all(k > 0 for k in w.num.values()):
                    return 1
                if all(k < 0 for k in w.num.values()):
                    return -1
    return None


# -- arguments -------------------------------------------------------------------
TOKENS = {'alpha': {'alpha', 'beta', 'gamma'}, 'x': {'translation_x', 'translation_y', 'translation_z'}}


def meaning(name):
    """Which of the six values a name says it is."""
    hits = {k for k in SIX if name == k or name.endswith('_' + k)}
    parts = name.split('_')
    for a in ('alpha', 'beta', 'gamma'):
        if a in parts:
            hits.add('rotation_' + a)
    return next(iter(hits)) if len(hits) == 1 else None


def arguments(prog, res):
    n = 0
    names = {'alpha': 'rotation_alpha', 'beta': 'rotation_beta', 'gamma': 'rotation_gamma', 'x': 'translation_x', 'y': 'translation_y', 'z': 'translation_z'}
    names.update({k: k for k in SIX})
    targets = {}
    for f in prog.fns.values():
        mine = [q for q in f.all_params if q in names]
        if len(mine) and (len([q for q in mine if q in SIX]) or f.qual.endswith(tuple('geometry_utils.' + k for k in ('rotation_matrix', 'rotation_matrix_x', 'rotation_matrix_y', 'rotation_matrix_z', 'translation_matrix',
                                                                                                               'global_to_local_transformation_matrix', 'local_to_global_transformation_matrix')))):
            targets.setdefault(f.name if f.name != '__init__' else f.cls.name, []).append(f)
    for f in prog.fns.values():
        for call in ast.walk(f.node):
            if not isinstance(call, ast.Call):
                continue
            d = dotted(call.func)
            short = call.func.attr if isinstance(call.func, ast.Attribute) else d
            if short not in targets:
                continue
            params = targets[short][0].params
            if targets[short][0].cls is not None:
                params = params[1:]
            bound = [(p, a) for p, a in zip(params, call.args)] + [(k.arg, k.value) for k in call.keywords if k.arg]
            owners = {}
            for p, a in bound:
                if p not in names:
                    continue
                n += 1
                a0 = a
                while isinstance(a0, ast.UnaryOp):
                    a0 = a0.operand
                if isinstance(a0, ast.IfExp):
                    alts = [a0.body, a0.orelse]
                else:
                    alts = [a0]
                for x in alts:
                    if isinstance(x, ast.Call) and len(x.args) == 1 and not x.keywords:
                        x = x.args[0]
                    term = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else x.slice.value if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str) else None
                    m = meaning(term) if term else None
                    if m is None:
                        continue
                    if m != names[p]:
                        res.add('R9 arguments', '%s:%s:%s=%s' % (f.qual.split('.', 1)[1], short, p, term), pos(a), 'in %s, %s is given as %s of %s' % (f.name, ast.unparse(a)[:80], p, short))
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and m in SIX and not isinstance(a0, ast.IfExp):
                        owners.setdefault(ast.unparse(x.value), []).append(p)
            if len(owners) > 1:
                res.add('R9 arguments', '%s:%s:owners' % (f.qual.split('.', 1)[1], short), pos(call), 'in %s, position and angles given to %s belong to different objects: %s' % (f.name, short, '; '.join('%s of %s' % (', '.join(v), k) for k, v in sorted(owners.items()))))
    return n
