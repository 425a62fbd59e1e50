"""C10: a telescope configuration survives saving and loading.

R1 complete   - the parameters of every DUT type are exactly the settings it saves (`dut_attributes`)
R2 restored   - constructing a DUT puts every saved setting back under its own name
R3 plain      - a setting is kept as plain data (numbers, text, None, tuples of them) and setting it to its own value changes nothing
R4 assign     - an assignment to a DUT attribute is carried out or refused
R5 saved      - the file holds every telescope setting and, for every DUT under its number, every setting and the type, nothing left over from before
R6 loaded     - loading constructs every DUT of the file from its type and all its settings under its number, and sets every telescope setting
"""
import ast

from ..loader import AnalysisError, pos, PKG, dotted
from ..symeval import Eval, Sym, alts, rooted

ID = 'C10'
TECHNIQUE = 'symbolic evaluation of the constructors, setters, getters and of the save and load functions into dictionary shapes; comparison of the shapes'
MINIMUM = {'dut_types': 18, 'settings': 200, 'saved_entries': 4, 'loaded_entries': 2}
LEVEL_NOTE = 'static analysis of every DUT type, its settings and the save and load functions'

SELF = ('self',)
BUILTIN_CASTS = {'float', 'int', 'str', 'bool'}
KEEP = {'round', 'abs', 'min', 'max', 'sorted', 'tuple', 'list'}
SOURCE = ('source', 'yaml')


def literal(prog, cls, node, seen=0):
    """Value of a class-level list of names."""
    if seen > 8:
        return None
    if isinstance(node, (ast.List, ast.Tuple)):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                x = literal(prog, cls, e.value, seen + 1)
                if x is None:
                    return None
                out += x
            elif isinstance(e, ast.Constant):
                out.append(e.value)
            else:
                return None
        return out
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = literal(prog, cls, node.left, seen + 1), literal(prog, cls, node.right, seen + 1)
        return None if a is None or b is None else a + b
    if isinstance(node, ast.Call) and dotted(node.func) in ('list', 'tuple') and len(node.args) == 1:
        return literal(prog, cls, node.args[0], seen + 1)
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and node.slice.lower is None and node.slice.upper is None:
        return literal(prog, cls, node.value, seen + 1)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'copy':
        return literal(prog, cls, node.func.value, seen + 1)
    if isinstance(node, ast.Name):
        if node.id in cls.attrs:
            return literal(prog, cls, cls.attrs[node.id], seen + 1)
        g = cls.module.globals.get(node.id)
        return literal(prog, cls, g, seen + 1) if g is not None else None
    if isinstance(node, ast.Attribute):
        r = prog.resolve_in_module(cls.module, dotted(node.value) or '')
        if r and r[0] == 'cls':
            return class_list(prog, r[1], node.attr, seen + 1)
    return None


def class_list(prog, cls, name, seen=0):
    for k in prog.mro(cls):
        if name in k.attrs:
            return literal(prog, k, k.attrs[name], seen)
    return None


def contains(v, what):
    if v == what:
        return True
    if isinstance(v, Sym):
        return any(contains(k, what) or contains(x, what) for k, x, _ in v.entries)
    return isinstance(v, tuple) and any(contains(x, what) for x in v)


def params_in(v, out=None):
    out = set() if out is None else out
    if isinstance(v, Sym):
        for k, x, _ in v.entries:
            params_in(x, out)
    elif isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'param':
            out.add(v[1])
        else:
            for x in v:
                params_in(x, out)
    return out


def branches(v, conds=()):
    """Alternatives of a value with the conditions they are chosen under."""
    for a in (v[1] if isinstance(v, tuple) and v and v[0] == 'phi' else (v,)):
        if isinstance(a, tuple) and a and a[0] == 'phi':
            for x in branches(a, conds):
                yield x
        elif isinstance(a, tuple) and a and a[0] == 'cond':
            for x in branches(a[2], conds + ((True, a[1]),)):
                yield x
            for x in branches(a[3], conds + ((False, a[1]),)):
                yield x
        elif isinstance(a, tuple) and a and a[0] == 'op' and a[1] in ('Or', 'And'):
            for x in a[2]:
                for y in branches(x, conds + ((None, a),)):
                    yield y
        else:
            yield a, conds


def is_none_test(c, p):
    """(pol, test) says that p is None / is not None: returns True (None), False (not None) or None."""
    pol, t = c[0], c[1]
    if pol not in (True, False):
        return None
    while isinstance(t, tuple) and t[:2] == ('op', 'Not'):
        pol, t = not pol, t[2][0]
    if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('Is', 'IsNot', 'Eq', 'NotEq') and set(map(repr, t[2])) == {repr(p), repr(('const', None))}:
        return pol == (t[1] in ('Is', 'Eq'))
    if t == p:
        return False if pol else None
    return None


def plain(v, p, conds, problems, top=True):
    """The stored value is builtin data and applying the setter to it gives it again."""
    if isinstance(v, Sym):
        if v.kind not in ('tuple', 'list'):
            return
        ks = [k for k, _, _ in v.entries]
        vals = [x for _, x, _ in v.entries]
        kinds = []
        for k, x in zip(ks, vals):
            core = x
            while isinstance(core, tuple) and core[0] == 'call' and core[1] in BUILTIN_CASTS | {'round', 'abs'} and core[2]:
                core = core[2][0]
            if isinstance(core, tuple) and core[0] == 'item' and core[2][0] == 'const' and k[0] == 'const' and core[1] == p and core[2][1] != k[1] \
                    and not (isinstance(core[2][1], int) and core[2][1] < 0 and core[2][1] + len(ks) == k[1]):
                problems.append('element %s is taken from element %s of the value' % (k[1], core[2][1]))
            if isinstance(core, tuple) and core[0] == 'call' and core[1] in ('min', 'max', 'np.min', 'np.max', 'numpy.min', 'numpy.max') and len(core[2]) == 1:
                kinds.append(core[1][-3:])
            for a, c in branches(x, conds):
                plain_scalar(a, p, c, problems)
        if kinds == ['max', 'min']:
            pass        # idempotent as well
        if len(kinds) == 2 and kinds[0] == kinds[1]:
            problems.append('both elements are the %s of the value' % kinds[0])
        return
    plain_scalar(v, p, conds, problems)


def plain_scalar(v, p, conds, problems, cast=False):
    if isinstance(v, Sym):
        return plain(v, p, conds, problems)
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'const':
        return
    if v[0] in ('param', 'item', 'elem', 'val'):
        if cast or not contains(v, p):
            return
        if any(is_none_test(c, p) for c in conds):
            return
        problems.append('the value is kept as it is given, not as builtin data')
        return
    if v[0] == 'op':
        if v[1] in ('Mod',) and contains(v[2][0], p):
            return plain_scalar(v[2][0], p, conds, problems, cast)
        if v[1] in ('Or', 'And', 'Is', 'IsNot', 'Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE', 'Not', 'In', 'NotIn', 'lambda', 'JoinedStr'):
            return
        if contains(v, p):
            problems.append('the value is changed by arithmetic (%s) each time it is set' % v[1])
        return
    if v[0] == 'cond':
        for a, c in branches(v, conds):
            plain_scalar(a, p, c, problems, cast)
        return
    if v[0] == 'call':
        name = v[1] if isinstance(v[1], str) else ''
        if name in BUILTIN_CASTS and v[2]:
            for a in v[2]:
                plain_scalar(a, p, conds, problems, True)
            return
        if name in KEEP or name.split('.')[-1] in ('tolist', 'item'):
            for a in v[2]:
                plain_scalar(a, p, conds, problems, cast or name.split('.')[-1] in ('tolist', 'item'))
            return
        if name == 'map' and len(v[2]) == 2 and v[2][0][0] == 'global' and v[2][0][1] in BUILTIN_CASTS:
            return
        if name.split('.')[0] in ('np', 'numpy') and contains(v, p):
            if name.split('.')[-1] in ('min', 'max', 'amin', 'amax', 'sort', 'round', 'around', 'abs', 'float64', 'float32', 'int64', 'int32', 'asarray', 'array', 'ravel',
                                       'mod', 'clip'):
                if not cast:
                    problems.append('the value is kept as numpy data (%s)' % name)
                return
            problems.append('the value is changed by %s each time it is set' % name)
        return


def rel(conds, base):
    """Conditions beyond those the base statement is under anyway."""
    i = 0
    while i < len(conds) and i < len(base) and conds[i] == base[i]:
        i += 1
    return conds[i:]


def show(v):
    if isinstance(v, Sym):
        return 'a dictionary' if v.kind == 'dict' else 'a sequence'
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    if k == 'const':
        return repr(v[1])
    if k in ('param', 'global'):
        return v[1]
    if k == 'self':
        return 'self'
    if k == 'attr':
        return '%s.%s' % (show(v[1]), v[2])
    if k == 'item':
        return '%s[%s]' % (show(v[1]), show(v[2]))
    if k in ('key', 'val', 'elem'):
        return '%s of %s' % ({'key': 'key', 'val': 'value', 'elem': 'element'}[k], show(v[1]))
    if k == 'call':
        return '%s(%s)' % (v[1] if isinstance(v[1], str) else show(v[1]), ', '.join(show(a) for a in v[2]))
    if k == 'op':
        return '%s(%s)' % (v[1], ', '.join(show(a) if isinstance(a, tuple) else str(a) for a in v[2]))
    if k == 'cond':
        return '%s | %s' % (show(v[2]), show(v[3]))
    if k == 'phi':
        return ' | '.join(show(x) for x in v[1])
    if k == 'source':
        return 'the file'
    return k


class Rule(object):
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.dut = prog.cls('telescope.dut.Dut')
        self.tel = prog.cls('telescope.telescope.Telescope')
        self.settings, self.types, self.saved, self.loaded = set(), set(), set(), set()

    def add(self, rule, construct, node, msg):
        self.res.add(rule, construct, pos(node), msg)

    # ------------------------------------------------------------------ R1 R2 R3 R4
    def duts(self):
        for c in sorted(self.prog.subclasses(self.dut), key=lambda c: c.name):
            self.types.add(c.name)
            init = self.prog.find_method(c, '__init__')
            attrs = class_list(self.prog, c, 'dut_attributes')
            if init is None or attrs is None:
                raise AnalysisError('%s: constructor or list of settings cannot be read' % c.name)
            ps = [p for p in init.params[1:]] + init.kwonly
            if init.kwarg is None:
                for p in ps:
                    if p not in attrs:
                        self.add('complete', '%s.%s' % (c.name, p), init.node, 'constructor parameter %s of %s is not among the settings it saves' % (p, c.name))
                for a in attrs:
                    if a not in ps:
                        self.add('complete', '%s.%s' % (c.name, a), init.node, 'setting %s of %s is saved but its constructor does not take it' % (a, c.name))
            for a in sorted(set(a for a in attrs if attrs.count(a) > 1)):
                pass
            self.construct(c, init, attrs)
            for a in attrs:
                self.settings.add('%s.%s' % (c.name, a))
                self.setting(c, a)
        sa = self.prog.find_method(self.dut, '__setattr__')
        overrides = set()
        for c in self.prog.subclasses(self.dut):
            if '__setattr__' in c.methods:
                overrides.add(c.methods['__setattr__'])
        for fn in overrides:
            self.setattr_(fn)

    def construct(self, c, init, attrs):
        ev = Eval(self.prog, cls=init.cls, module=init.module)
        ev.top = c
        kw = [] if init.kwarg is None else [(a, ('param', a)) for a in attrs if a not in init.params]
        ev.call_fn(init, [('param', p) for p in init.params[1:]], [(k, ('param', k)) for k in init.kwonly] + kw)
        got = {}
        for e in ev.effects:
            if e[0] == 'setattr' and e[1] == SELF and (isinstance(e[2], str) or (isinstance(e[2], tuple) and e[2][0] == 'const')):
                name = e[2] if isinstance(e[2], str) else e[2][1]
                got.setdefault(name, []).append((e[3], e[4], e[5]))
            elif e[0] == 'setattr' and e[1] == SELF:
                got.setdefault('*', []).append((e[3], e[4], e[5]))
        for a in attrs:
            sets = got.get(a) or got.get('_' + a)
            what = '%s.%s' % (c.name, a)
            if not sets:
                if '*' not in got:
                    self.add('restored', what, init.node, 'the constructor of %s does not set %s' % (c.name, a))
                continue
            # the assignments after (and including) the last unconditional one count
            last = max([i for i, s in enumerate(sets) if not s[1]] or [-1])
            live = sets[max(last, 0):]
            own = False
            for v, conds, node in live:
                for x, cs in branches(v):
                    cs = tuple(conds) + cs
                    ps = params_in(x)
                    if ps - {a}:
                        self.add('restored', what, node, 'the constructor of %s sets %s from %s' % (c.name, a, ', '.join(sorted(ps - {a}))))
                    if a in ps:
                        own = True
                        pr = []
                        if x != ('param', a):
                            plain(x, ('param', a), cs, pr)
                        for m in pr:
                            if 'arithmetic' in m or 'changed' in m or 'element' in m:
                                self.add('restored', what, node, 'the constructor of %s changes %s: %s' % (c.name, a, m))
                    elif not ps and a in init.all_params and self.accepts_none(c, a) and x != ('const', None):
                        # a default in place of the given value: harmless unless None is a legal setting
                        if any(is_none_test(t, ('param', a)) for t in cs) or any(t[0] is None for t in cs):
                            self.add('restored', what, node, 'a saved value None of %s of %s is replaced by %s on construction' % (a, c.name, show(x)))
                    for t in cs:
                        other = params_in(t[1] if t[0] is not None else ()) - {a}
                        if other and t[0] is not None:
                            self.add('restored', what, node, 'whether the constructor of %s sets %s depends on %s' % (c.name, a, ', '.join(sorted(other))))
            if not own:
                self.add('restored', what, live[-1][2], 'the constructor of %s does not use its parameter %s' % (c.name, a))

    def accepts_none(self, c, a):
        pr = self.prog.find_prop(c, a)
        if not pr or 'set' not in pr:
            return False
        for e in self.setter(c, pr['set']):
            for x, cs in branches(e[3]):
                cs = tuple(e[4]) + cs
                if (x == ('const', None) or x == ('param', 'value')) and any(is_none_test(t, ('param', 'value')) for t in cs):
                    return True
        return False

    def setter(self, c, fn):
        ev = Eval(self.prog, cls=fn.cls, module=fn.module)
        ev.top = c
        ev.call_fn(fn, [('param', 'value')], [])
        return [e for e in ev.effects if e[0] == 'setattr' and e[1] == SELF]

    def setting(self, c, a):
        what = '%s.%s' % (c.name, a)
        pr = self.prog.find_prop(c, a)
        if pr is None:
            if not any(a in k.attrs for k in self.prog.mro(c)):
                self.add('plain', what, c.node, 'setting %s of %s is not converted to builtin data when it is set' % (a, c.name))
            return
        if 'get' not in pr or 'set' not in pr:
            self.add('plain', what, c.node, 'setting %s of %s cannot be %s' % (a, c.name, 'read' if 'get' not in pr else 'set'))
            return
        owner = pr['set'].cls
        what = '%s.%s' % (owner.name, a)
        ev = Eval(self.prog, cls=pr['get'].cls, module=pr['get'].module)
        ev.top = c
        got = ev.call_fn(pr['get'], [], [])
        stored = got[2] if isinstance(got, tuple) and got[0] == 'attr' and got[1] == SELF else None
        if stored is None:
            ok = False
            if isinstance(got, tuple) and got and got[0] == 'call' and got[1] in BUILTIN_CASTS | {'tuple', 'list'} and got[2] and got[2][0][0] == 'attr' and got[2][0][1] == SELF:
                stored, ok = got[2][0][2], True
            if not ok:
                self.add('plain', what, pr['get'].node, 'reading setting %s of %s does not give the value that was set but %s' % (a, owner.name, show(got)))
                return
        sets = [e for e in self.setter(c, pr['set']) if e[2] == stored or e[2] == ('const', stored)]
        if not sets:
            self.add('plain', what, pr['set'].node, 'setting %s of %s does not change the value that is read' % (a, owner.name))
            return
        problems, used = [], False
        for e in sets:
            for x, cs in branches(e[3]):
                cs = tuple(e[4]) + cs
                used = used or contains(x, ('param', 'value'))
                plain(x, ('param', 'value'), cs, problems)
                if not contains(x, ('param', 'value')) and not any(contains(t, ('param', 'value')) for t in cs):
                    problems.append('the given value is not used')
        for m in sorted(set(problems)):
            self.add('plain', what, pr['set'].node, 'setting %s of %s: %s' % (a, owner.name, m))

    def setattr_(self, fn):
        ev = Eval(self.prog, cls=fn.cls, module=fn.module)
        ev.call_fn(fn, [('param', 'name'), ('param', 'value')], [])
        acts = [e for e in ev.effects if e[0] == 'super' and e[1] == '__setattr__'] + \
               [e for e in ev.effects if e[0] == 'call' and e[1] == '__setattr__']
        if not acts:
            # unknown form (e.g. self.__dict__[name] = value)
            return
        for e in acts:
            args = list(e[2]) if e[0] == 'super' else list(e[3])
            if args[-2:] != [('param', 'name'), ('param', 'value')]:
                self.add('assign', fn.cls.name, e[-1], 'an assignment to a DUT attribute does not store the given value under the given name')
            conds = e[4] if e[0] == 'super' else e[4]
            if conds and not ev.raises:
                self.add('assign', fn.cls.name, e[-1], 'an assignment to a DUT attribute is silently dropped in some cases')

    # ------------------------------------------------------------------ R5
    def canon(self, v):
        """Key/value of a loop over self.dut under one name, whatever way it is written."""
        if isinstance(v, tuple) and v:
            v = tuple(self.canon(x) if isinstance(x, tuple) else x for x in v)
            d = ('attr', SELF, 'dut')
            if v == ('elem', d) or v == ('elem', ('keys', d)):
                return ('key', d)
            if v[0] == 'item' and v[1] in (d, SELF) and v[2] == ('key', d):
                return ('val', d)
            if v[0] == 'call' and v[1] == 'type' and len(v[2]) == 1:
                return ('attr', v[2][0], '__class__')
        return v

    def evaluate(self, fn, source=True):
        ev = Eval(self.prog, cls=fn.cls, module=fn.module)
        ev.top = fn.cls
        self.nsrc = 0

        def src(args, kws):
            return Sym('dict', SOURCE)
        for n in ('yaml.safe_load', 'yaml.load'):
            ev.hooks[n] = src
        for n in ('yaml.safe_dump', 'yaml.dump'):
            ev.hooks[n] = lambda args, kws: ('call', 'yaml.dump', (), ())
        ev.call_fn(fn, [('param', p) for p in fn.params[1:]], [(k, ('param', k)) for k in fn.kwonly])
        return ev

    def handle(self, v):
        """(path, mode) of an opened file."""
        if isinstance(v, tuple) and v and v[0] == 'call' and isinstance(v[1], str) and v[1].split('.')[-1] == 'open':
            mode = v[2][1] if len(v[2]) > 1 else dict(v[3]).get('mode', ('const', 'r'))
            return (v[2][0] if v[2] else dict(v[3]).get('file')), (mode[1] if mode[0] == 'const' else None)
        return None, None

    def save(self):
        fn = self.prog.find_method(self.tel, 'save_configuration')
        if fn is None:
            raise AnalysisError('anchor vanished: Telescope.save_configuration')
        ev = self.evaluate(fn)
        dumps = [e for e in ev.effects if e[0] == 'hook' and e[1] in ('yaml.safe_dump', 'yaml.dump')]
        if not dumps:
            raise AnalysisError('anchor vanished: no YAML dump in save_configuration')
        q = 'Telescope.save_configuration'
        for e in dumps:
            kws = dict(e[3])
            if e[1] == 'yaml.dump' and not (len(e[2]) > 2 or 'Safe' in repr(kws.get('Dumper', ''))):
                self.add('saved', q + ':safe', e[5], 'the configuration is not written as plain YAML data, safe_load cannot read it back')
            data = e[2][0] if e[2] else kws.get('data')
            out = e[2][1] if len(e[2]) > 1 else kws.get('stream')
            path, mode = self.handle(out) if out is not None else (None, None)
            if mode is not None and not mode.startswith(('w', 'x')):
                self.add('saved', q + ':mode', e[5], 'the configuration is written into a file opened with mode %r' % mode)
            for c in e[4]:
                if not self.about_file(c[1]):
                    self.add('saved', q + ':always', e[5], 'the configuration is only written if %s' % show(c[1]))
            for d in alts(data):
                if not isinstance(d, Sym):
                    raise AnalysisError('save_configuration: written data %s not understood' % show(d))
                self.shape(d, e, q)

    def about_file(self, t):
        if isinstance(t, tuple):
            if t[0] in ('const', 'source'):
                return True
            if t[0] == 'param':
                return 'file' in t[1]
            if t[0] == 'attr':
                return 'file' in t[2]
            if t[0] == 'global':
                return True
            if t[0] in ('op', 'call'):
                return all(self.about_file(x) for x in t[2])
            if t[0] in ('phi', 'cond'):
                return all(self.about_file(x) for x in alts(t))
            if t[0] == 'item':
                return self.about_file(t[1]) and self.about_file(t[2])
        return not isinstance(t, tuple)

    def find(self, d, key):
        return [e for e in d.entries if e[0] == key]

    def shape(self, d, e, q):
        base = e[4]
        tel = self.find(d, ('const', 'TELESCOPE'))
        inner = [x for _, v, _ in tel for x in alts(v) if isinstance(x, Sym)]
        if d.origin is not None:
            inner += [c for k, c in d.__dict__.get('children', {}).items() if k == ('const', 'TELESCOPE')]
        elif not [x for x in tel if self.harmless(rel(x[2], base))]:
            self.add('saved', q + ':TELESCOPE', e[5], 'the file does not always get a TELESCOPE section')
            return
        tattrs = class_list(self.prog, self.tel, 'telescope_attributes')
        if tattrs is None:
            raise AnalysisError('telescope_attributes cannot be read')
        seen = set()
        for t in inner:
            if t.id in seen:
                continue
            seen.add(t.id)
            self.attributes(t, ('attr', SELF, 'telescope_attributes'), tattrs, SELF, base, q, 'telescope setting', e[5])
            duts = self.find(t, ('const', 'DUT'))
            full = [x for x in duts if not rel(x[2], base)]
            if not full:
                self.add('saved', q + ':DUT', e[5], 'the DUT section is not written in all cases' if duts else 'the file gets no DUT section')
                continue
            for _, v, _ in duts:
                for x in alts(v):
                    if not isinstance(x, Sym) or x.origin is not None:
                        self.add('saved', q + ':DUT', e[5], 'DUTs of an older file are kept in the DUT section')
                    else:
                        self.dutsection(x, base, q, e[5])

    def harmless(self, conds):
        return all(c[0] in (True, False) and isinstance(c[1], tuple) and c[1][:2] in (('op', 'NotIn'), ('op', 'In'), ('op', 'Not')) for c in conds)

    def attributes(self, d, listv, names, obj, base, q, what, node):
        """Every name of the list maps to getattr(obj, name)."""
        lists = [listv]
        if obj != SELF:
            lists += [('attr', ('attr', obj, '__class__'), listv[2])]
        missing = set(names) if names is not None else None
        generic = False
        for k, v, cs in d.entries:
            k, v = self.canon(k), self.canon(v) if isinstance(v, tuple) else v
            rc = rel(cs, base)
            if any(k == ('elem', l) for l in lists):
                good = v in (('call', 'getattr', (obj, k), ()), ('item', ('attr', obj, '__dict__'), k))
                if not good:
                    self.add('saved', '%s:%s' % (q, what), node, '%s is saved as %s instead of its value' % (what, show(v)))
                elif rc:
                    self.add('saved', '%s:%s' % (q, what), node, 'a %s is only saved if %s' % (what, show(rc[0][1])))
                self.saved.add('%s *' % what)
                generic = True
            elif k[0] == 'const' and names is not None and k[1] in names:
                if v != ('attr', obj, k[1]):
                    self.add('saved', '%s:%s' % (q, k[1]), node, '%s %s is saved as %s instead of its value' % (what, k[1], show(v)))
                elif rc:
                    self.add('saved', '%s:%s' % (q, k[1]), node, '%s %s is only saved if %s' % (what, k[1], show(rc[0][1])))
                self.saved.add('%s %s' % (what, k[1]))
                missing.discard(k[1])
        if not generic and (missing is None or missing):
            self.add('saved', '%s:%s' % (q, what), node, 'not every %s is saved%s' % (what, ': ' + ', '.join(sorted(missing)) if missing else ''))

    def dutsection(self, d, base, q, node):
        dd = ('attr', SELF, 'dut')
        key, val = ('key', dd), ('val', dd)
        ents = [(self.canon(k), v, c) for k, v, c in d.entries]
        if not ents:
            # `if not section: section = {}`
            return
        hit = [x for x in ents if x[0] == key]
        if not hit:
            self.add('saved', q + ':number', node, 'DUTs are not saved under their numbers but under %s' % ', '.join(sorted(show(k) for k, _, _ in ents)))
            return
        for k, v, cs in hit:
            self.saved.add('DUT number')
            if rel(cs, base):
                self.add('saved', q + ':every DUT', node, 'a DUT is only saved if %s' % show(rel(cs, base)[0][1]))
            for x in alts(v):
                if not isinstance(x, Sym):
                    raise AnalysisError('save_configuration: DUT entry %s not understood' % show(x))
                self.attributes(x, ('attr', val, 'dut_attributes'), None, val, tuple(base) + tuple(rel(cs, base)), q, 'DUT setting', node)
                t = [(kk, vv, cc) for kk, vv, cc in x.entries if self.canon(vv) in (('attr', ('attr', val, '__class__'), '__name__'),)] if True else []
                t = [y for y in t if y[0][0] == 'const']
                if not t:
                    self.add('saved', q + ':type', node, 'the type of a DUT is not saved')
                for kk, vv, cc in t:
                    self.saved.add('DUT type')
                    self.typekey = kk[1]
                    if rel(cc, tuple(base) + tuple(rel(cs, base))):
                        self.add('saved', q + ':type', node, 'the type of a DUT is only saved if %s' % show(rel(cc, base)[0][1]))

    # ------------------------------------------------------------------ R6
    def permitted(self, c, keys):
        """The condition only says that the file has the section in question or what kind of value an entry is."""
        pol, t = c
        if pol == 'except' or not isinstance(t, tuple) or not t:
            return False
        if t[0] == 'op' and t[1] == 'Not':
            return self.permitted((not pol, t[2][0]), keys)
        if t[0] == 'op' and (t[1], pol) in (('And', True), ('Or', False)):
            return all(self.permitted((pol, x), keys) for x in t[2])
        if t[0] == 'op' and t[1] in ('In', 'NotIn'):
            k, d = t[2]
            if d == ('attr', SELF, 'telescope_attributes') or d == ('attr', ('attr', SELF, '__class__'), 'telescope_attributes'):
                return pol == (t[1] == 'In')
            return pol == (t[1] == 'In') and self.content(d) and (k[0] in ('elem', 'key') or k[0] == 'const' and k[1] in keys)
        if t[0] == 'op' and t[1] in ('Is', 'IsNot') and ('const', None) in t[2]:
            return pol == (t[1] == 'IsNot') and any(self.content(x) for x in t[2])
        if t[0] == 'const':
            return True
        if self.about_file(t) and t[0] != 'op':
            return True
        if t[0] == 'call' and isinstance(t[1], str) and t[1].split('.')[-1] in ('isinstance', 'isclass', 'issubclass', 'hasattr'):
            return True
        if t[0] == 'call' and t[1] in ('len', 'bool') and len(t[2]) == 1:
            return pol is True and self.content(t[2][0])
        return pol is True and self.content(t)

    def content(self, t):
        """A section of the file (not a single value of it)."""
        if isinstance(t, tuple) and t and t[0] in ('phi', 'cond'):
            return all(self.content(x) or x == ('const', None) for x in alts(t))
        if isinstance(t, Sym):
            t = t.origin
        return t == SOURCE or t == self.TEL or t == self.DUTS or t == ('val', self.DUTS)

    TEL = ('item', SOURCE, ('const', 'TELESCOPE'))
    DUTS = ('item', TEL, ('const', 'DUT'))

    def load(self):
        fn = self.prog.find_method(self.tel, 'load_configuration')
        if fn is None:
            raise AnalysisError('anchor vanished: Telescope.load_configuration')
        ev = self.evaluate(fn)
        q = 'Telescope.load_configuration'
        srcs = [e for e in ev.effects if e[0] == 'hook' and e[1] in ('yaml.safe_load', 'yaml.load')]
        if not srcs:
            raise AnalysisError('anchor vanished: no YAML load in load_configuration')
        tel = ('item', SOURCE, ('const', 'TELESCOPE'))
        duts = ('item', tel, ('const', 'DUT'))
        key, val = ('key', duts), ('val', duts)
        stores = [e for e in ev.effects if e[0] == 'store' and e[1] in (('attr', SELF, 'dut'), SELF)]
        stores += [('store', ('attr', SELF, 'dut'), e[3][0], e[3][1], e[4], e[5]) for e in ev.effects if e[0] == 'call' and e[1] == '__setitem__' and len(e[3]) == 2]
        applies = {id(e[5]): e for e in ev.effects if e[0] == 'apply'}
        made = 0
        for e in stores:
            k, v, cs, node = self.keyof(e[2], duts), e[3], e[4], e[5]
            if k != key:
                self.add('loaded', q + ':number', node, 'a DUT of the file is put under %s instead of its number' % show(e[2]))
            for c in cs:
                if not self.permitted(c, ('TELESCOPE', 'DUT', 'dut_type', getattr(self, 'typekey', None))):
                    self.add('loaded', q + ':every DUT', node, 'a DUT of the file is only restored if %s' % show(c[1]))
            for x in alts(v):
                made += 1
                self.constructed(x, val, q, node, applies)
        if not stores:
            self.add('loaded', q + ':DUT', fn.node, 'the DUTs of the file are not restored (no store into self.dut for them)')
        elif made:
            self.loaded.add('DUT')
        # telescope settings
        tattrs = class_list(self.prog, self.tel, 'telescope_attributes')
        listv = ('attr', SELF, 'telescope_attributes')
        missing, generic = set(tattrs), False
        for e in ev.effects:
            if e[0] != 'setattr' or e[1] != SELF:
                continue
            name, v, cs, node = e[2], e[3], e[4], e[5]
            v = v.origin if isinstance(v, Sym) and v.origin is not None else v
            bad = [c for c in cs if not self.permitted(c, ('TELESCOPE',) + tuple(tattrs))]
            if isinstance(name, tuple) and name[0] == 'const':
                name = name[1]
            if isinstance(name, tuple):
                pairs = [(('key', tel), ('val', tel)), (('elem', listv), ('item', tel, ('elem', listv)))]
                nm = [p for p in pairs if p[0] == name]
                if nm:
                    generic = True
                    self.loaded.add('telescope settings')
                    if v != nm[0][1]:
                        self.add('loaded', q + ':telescope', node, 'a telescope setting is restored as %s instead of its saved value' % show(v))
                    if bad:
                        self.add('loaded', q + ':telescope', node, 'a telescope setting is only restored if %s' % show(bad[0][1]))
            elif name in tattrs:
                self.loaded.add('telescope settings')
                if v != ('item', tel, ('const', name)):
                    self.add('loaded', q + ':' + name, node, 'telescope setting %s is restored as %s instead of its saved value' % (name, show(v)))
                elif bad:
                    self.add('loaded', q + ':' + name, node, 'telescope setting %s is only restored if %s' % (name, show(bad[0][1])))
                missing.discard(name)
        if not generic and missing:
            self.add('loaded', q + ':telescope', fn.node, 'telescope settings are not restored: %s' % ', '.join(sorted(missing)))
        # what the Telescope class itself keeps
        init = self.prog.find_method(self.tel, '__init__')
        for p in init.params[1:] + init.kwonly:
            if p not in tattrs and 'file' not in p:
                self.add('complete', 'Telescope.' + p, init.node, 'constructor parameter %s of Telescope is not among the settings it saves' % p)
        self.construct(self.tel, init, tattrs)
        for a in tattrs:
            self.settings.add('Telescope.' + a)
            self.setting(self.tel, a)

    def keyof(self, k, duts):
        if isinstance(k, Sym):
            return k.origin
        if k == ('elem', duts) or k == ('elem', ('keys', duts)):
            return ('key', duts)
        return k

    def constructed(self, v, val, q, node, applies):
        tkey = getattr(self, 'typekey', 'dut_type')
        typ = ('item', val, ('const', tkey))
        if not isinstance(v, tuple) or v[0] != 'call':
            raise AnalysisError('load_configuration: constructed value %s not understood' % show(v))
        callee = v[1] if not isinstance(v[1], str) else ('global', v[1])
        if not any(contains(callee, t) for t in (typ, ('item', ('item', ('item', SOURCE, ('const', 'TELESCOPE')), ('const', 'DUT')), val))):
            self.add('loaded', q + ':type', node, 'a DUT of the file is constructed with %s instead of its saved type' % show(callee))
        if callee[0] == 'call' and callee[1] == 'getattr':
            mod = callee[2][0]
            name = None
            if mod[0] == 'call' and mod[2] and mod[2][0][0] == 'const':
                name = mod[2][0][1]
            elif mod[0] == 'global':
                name = self.tel.module.imports.get(mod[1])
            m = self.prog.modules.get(name) if name else None
            if name and m is None:
                self.add('loaded', q + ':module', node, 'DUT types are looked up in %s, which does not exist' % name)
            elif m is not None:
                for c in self.prog.subclasses(self.dut):
                    if c.name not in m.classes and c.name not in m.imports:
                        self.add('loaded', q + ':module', node, 'DUT type %s cannot be found in %s' % (c.name, name))
        ap = [e for e in applies.values() if e[5] is not None and self.same_call(e, v)]
        for e in ap:
            stars = [x for k, x in e[3] if k is None]
            named = [k for k, x in e[3] if k is not None]
            ds = [d for s in stars for d in alts(s) if isinstance(d, Sym)]
            if not ds:
                self.add('loaded', q + ':settings', node, 'a DUT of the file is not constructed with its saved settings')
            for d in ds:
                if d.origin != val:
                    self.add('loaded', q + ':settings', node, 'a DUT of the file is not constructed with its saved settings')
                    continue
                gone = set(k[1] for k in d.removed if k[0] == 'const')
                if tkey not in gone:
                    self.add('loaded', q + ':settings', node, 'the entry %s of the file is handed to the constructor as if it was a setting' % tkey)
                for g in sorted(gone - {tkey} - set(named)):
                    self.add('loaded', q + ':settings', node, 'the saved setting %s is dropped on loading' % g)
                for k, x, cs in d.entries:
                    if not any(c[0] is True and isinstance(c[1], tuple) and c[1][:2] == ('op', 'NotIn') or c[0] is False and isinstance(c[1], tuple) and c[1][:2] == ('op', 'In')
                               for c in cs):
                        if not (k[0] == 'const' and contains(x, ('item', val, k))):
                            self.add('loaded', q + ':settings', node, 'the saved setting %s is replaced by %s on loading' % (show(k), show(x)))

    @staticmethod
    def same_call(e, v):
        return v[1] == e[1] or (isinstance(v[1], str) and e[1] == ('global', v[1]))

    def run(self):
        self.res.rule('complete', 'constructor parameters of every DUT type == the settings it saves')
        self.res.rule('restored', 'the constructor stores parameter p in attribute p, for every setting p')
        self.res.rule('plain', 'every setting is converted to builtin data, unchanged when set to its own value, and read back as stored')
        self.res.rule('assign', 'Dut.__setattr__ stores the value or raises')
        self.res.rule('saved', 'shape of the dumped dictionary')
        self.res.rule('loaded', 'shape of the constructor calls on loading')
        self.duts()
        self.save()
        self.load()
        self.res.cover('dut_types', self.types)
        self.res.cover('settings', self.settings)
        self.res.cover('saved_entries', self.saved)
        self.res.cover('loaded_entries', self.loaded)
        self.res.assumptions += ['yaml.safe_dump and yaml.safe_load reproduce numbers, text, None, lists and dictionaries exactly (tuples come back as lists)',
                                 'constructors, setters and the load function are only reached in the ways written in the classes themselves']


def run(prog, res, tier):
    Rule(prog, res).run()
