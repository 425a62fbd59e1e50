"""File names as templates over the parameters of a step, and every place where a file is opened, written or removed.

A file name is a set of templates; a template is a tuple of literal strings and pieces.  A piece stands for the value of a
parameter (or an element of a parameter), its stem (os.path.splitext(..)[0]), its directory, or text of unknown content.
"""
import ast

from .interp import Interp, Plugin, Val, T, C, Env, Frame, mkstr, norm_tmpl, ck, NONE_T, NonePiece
from .loader import PKG, dotted, pipeline_fns, walk_local
from .model import Model

INWORDS = ('input', 'raw_data_file', 'telescope_configuration', 'merged_file', 'prealigned_track_candidates_file', 'mask_file')


class Piece(Val):
    __slots__ = ()
    nonempty = True

    def __eq__(self, o):
        return isinstance(o, Piece) and o.term == self.term

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.term)


def piece(*term):
    return Piece(term=T.mk(*term))


def is_output(p):
    return p.startswith('output') and ('file' in p or 'configuration' in p)


def is_input(p):
    return not is_output(p) and (('file' in p and not p.endswith('_pdf')) or p.endswith('configuration'))


def path_val(p, out=False, optional=False):
    """Opaque value of a file name parameter p (one name or a list of names)."""
    kind = 'out' if out else 'in'
    a, e = piece('path', kind, p), piece('path', kind, p + '[]')
    ev = Val(tmpls=frozenset([(e,)]), term=e.term, deps=frozenset([('param', p)]))
    return Val(tmpls=frozenset([(a,)]) | (NONE_T if optional else frozenset()), elem=ev, term=a.term, deps=frozenset([('param', p)]), roots=frozenset([('param', p)]))


def given_val(p):
    """Value of an output parameter that the caller named (a constant, so that comparisons with None are decided)."""
    n = '<%s>' % p
    if p.endswith('s'):
        ev = mkstr({('<%s[]>' % p,)}, frozenset([('param', p)]), T.mk('const', ck('<%s[]>' % p)))
        return Val(elem=ev, consts=frozenset([ck(n)]), term=T.mk('const', ck(n)), deps=frozenset([('param', p)]))
    return mkstr({(n,)}, frozenset([('param', p)]), T.mk('const', ck(n)))


def is_given(v):
    return v.isconst() and isinstance(v.const(), str) and v.const().startswith('<') and v.const().endswith('>')


EXT = ('.h5', '.hdf5', '.yaml', '.yml', '')


def classify(t):
    """(kind, parameter, text) of one template.

    in        the very file of an input parameter (or a name that can be equal to it)
    out       the very file of an output parameter
    derived   a name made from a parameter that differs from it
    fixed     a fixed name in the directory of a parameter
    unknown   anything else
    """
    head = t[0] if t else ''
    if isinstance(head, NonePiece):
        return ('none', None, '')
    text = ''.join(x if isinstance(x, str) else '*' for x in t[1:])
    if isinstance(head, str):
        if head.startswith('<') and head.endswith('>') and len(t) == 1:
            return ('out', head[1:-1].replace('[]', ''), '')
        if head.startswith('<') and '>' in head:
            p, rest = head[1:].split('>', 1)
            return ('derived', p.replace('[]', ''), rest + text)
        return ('const', None, head + text) if all(isinstance(x, str) for x in t) else ('unknown', None, head + text)
    k = T.rev[head.term]
    if k[0] == 'path':
        if len(t) == 1:
            return (k[1], k[2].replace('[]', ''), '')
        return ('derived', k[2].replace('[]', ''), text) if text.strip('*') or k[1] == 'out' else (k[1], k[2].replace('[]', ''), text)
    if k[0] == 'stemp':
        p = root_of(k[1])
        if p is None:
            return ('unknown', None, text)
        if p[0] == 'given':
            return ('derived', p[1], text)
        base = text.replace('*', '')
        if base in EXT or 'commonp' in repr_term(k[1]):
            return (p[0], p[1], text)
        return ('derived', p[1], text)
    if k[0] in ('commonp', 'basep'):
        p = root_of(k[1])
        if p is not None and p[0] == 'in' and (k[0] == 'commonp' or text.replace('*', '') in EXT):
            return ('in', p[1], text)
        return ('derived', p[1], text) if p is not None else ('unknown', None, text)
    if k[0] == 'dirp':
        p = root_of(k[1])
        return ('fixed', p[1] if p else None, text) if text.strip('/*') or p is None else ('unknown', p[1], text)
    if k[0] == 'replp':
        p = root_of(k[1])
        return ('derived', p[1], '~%s>%s~%s' % (k[2], k[3], text)) if p else ('unknown', None, text)
    return ('unknown', None, text)


def repr_term(t):
    k = T.rev[t]
    return (k[0],) + tuple(y for x in k[1:] if isinstance(x, int) and not isinstance(x, bool) for y in repr_term(x)) if k[0] in ('stemp', 'dirp', 'basep', 'replp', 'commonp', 'tmpl') else (k[0],)


def root_of(term):
    """(in/out/given, parameter) at the bottom of a piece term."""
    k = T.rev[term]
    if k[0] == 'path':
        return (k[1], k[2].replace('[]', ''))
    if k[0] == 'const' and isinstance(k[1][1], str) and k[1][1].startswith('<'):
        return ('given', k[1][1][1:].split('>')[0].replace('[]', ''))
    if k[0] in ('stemp', 'dirp', 'basep', 'replp', 'commonp'):
        return root_of(k[1])
    if k[0] == 'tmpl':
        for x in k[1:]:
            if isinstance(x, int):
                return root_of(x)
        return None
    return None


def tmpl_term(t):
    if len(t) == 1 and not isinstance(t[0], str):
        return t[0].term
    if len(t) == 1:
        return T.mk('const', ck(t[0]))
    return T.mk('tmpl', *[x if isinstance(x, str) else x.term for x in t])


PASS = {'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser', 'os.path.expandvars', 'os.fspath', 'pathlib.Path'}
OPENERS = {'tables.open_file': ('filename', 'mode', 'r'), 'tables.File': ('filename', 'mode', 'r'), 'builtins.open': ('file', 'mode', 'r'), 'io.open': ('file', 'mode', 'r'),
           'h5py.File': ('name', 'mode', 'r')}
PDF = {'matplotlib.backends.backend_pdf.PdfPages': 'filename'}
REMOVE = {'os.remove': (0,), 'os.unlink': (0,), 'os.rename': (0, 1), 'os.replace': (0, 1), 'shutil.move': (0, 1), 'shutil.rmtree': (0,), 'shutil.copy': (1,), 'shutil.copyfile': (1,),
          'shutil.copy2': (1,), 'tables.copy_file': (1,), 'os.truncate': (0,), 'numpy.save': (0,), 'numpy.savez': (0,), 'numpy.savetxt': (0,), 'matplotlib.pyplot.savefig': (0,)}


WRITERS = {'to_hdf': 0, 'to_csv': 0, 'to_pickle': 0, 'to_json': 0, 'tofile': 0, 'savefig': 0, 'copy_file': 0, 'save_configuration_dict': 0}


def rejoin(t):
    """os.path.join(os.path.dirname(x), os.path.basename(x)) is x."""
    for i in range(len(t) - 2):
        a, s, b = t[i:i + 3]
        if isinstance(a, Piece) and s == '/' and isinstance(b, Piece) and T.rev[a.term][0] == 'dirp' and T.rev[b.term][0] == 'basep' and T.rev[a.term][1] == T.rev[b.term][1]:
            k = T.rev[T.rev[a.term][1]]
            x = (Piece(term=T.rev[a.term][1]),) if k[0] == 'path' else None
            return norm_tmpl(t[:i] + x + t[i + 3:]) if x else t
    return t


class Paths(Plugin):
    name = 'paths'

    def __init__(self):
        self.sinks = []        # (function, node, what, templates or None, mode)
        self.returned = []
        self.checked = set()
        self.pairs = set()
        self.paired = []

    def tm(self, v):
        if v is None:
            return None
        return v.tmpls

    def pieces(self, v, kind):
        """Templates of a file name operation applied to every template of v."""
        if v.tmpls is None:
            return None
        return frozenset([(piece(kind, tmpl_term(t)),) for t in v.tmpls])

    def stem(self, v):
        if v.tmpls is None:
            return None
        out = set()
        for t in v.tmpls:
            last = t[-1]
            # a stem of a name that ends in a literal extension is known
            if isinstance(last, str) and '.' in last and '/' not in last.split('.')[-1] and len(t) > 1:
                out.add(norm_tmpl(t[:-1] + (last.rsplit('.', 1)[0],)))
            else:
                out.add((piece('stemp', tmpl_term(t)),))
        return frozenset(out)

    def branch(self, it, fr, env, cond, node):
        """'if a in b: raise' / 'if a == b: raise': from here on a differs from b."""
        if not isinstance(node, ast.If):
            return
        tests = node.test.values if isinstance(node.test, ast.BoolOp) else [node.test]
        for c in tests:
            if not isinstance(c, ast.Compare) or len(c.ops) != 1:
                continue
            pos_, neg = isinstance(c.ops[0], (ast.In, ast.Eq)), isinstance(c.ops[0], (ast.NotIn, ast.NotEq))
            if pos_ and it.only_raises(node.body) or neg and len(tests) == 1 and node.orelse and it.only_raises(node.orelse):
                l, r = it.eval_quiet(c.left, env, fr), it.eval_quiet(c.comparators[0], env, fr)
                if isinstance(c.ops[0], (ast.In, ast.NotIn)):
                    r = it.elem_of(r, env, fr, c)
                if l.tmpls:
                    self.checked |= l.tmpls
                if l.tmpls and r.tmpls:
                    self.pairs |= {(x, y) for x in l.tmpls for y in r.tmpls} | {(y, x) for x in l.tmpls for y in r.tmpls}

    def sub_load(self, it, fr, env, base, idx, val, n):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and base.tmpls is not None and (base.consts is None or is_given(base)):
            lo, up = n.slice.lower, n.slice.upper
            if lo is None and n.slice.step is None and isinstance(up, ast.UnaryOp) and isinstance(up.op, ast.USub) and isinstance(up.operand, ast.Constant):
                return val.with_(tmpls=self.stem(base))
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice) and idx is not None:
            k = T.rev[base.term]
            p = k[2] if k[0] == 'path' else k[1] if k[0] == 'param' else k[1][1][1:-1] if k[0] == 'const' and is_given(base) else None
            if p is not None:
                val = val.settag('at', (p, idx.term))
        return val

    def call(self, it, fr, env, callee, args, kwargs, val, n):
        if callee[0] != 'ext':
            if callee[0] == 'unknown' and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                return self.method(it, fr, env, args, val, n)
            return val
        d = callee[1]
        a0 = args[0] if args else None
        if d == 'os.path.splitext' and a0 is not None and val.seq is not None:
            s = val.seq[0]
            ts = self.stem(a0)
            if ts is not None:
                val = val.with_(seq=(s.with_(tmpls=ts), val.seq[1]))
        elif d == 'os.path.commonprefix' and a0 is not None:
            e = it.elem_of(a0, env, fr, n)
            val = val.with_(tmpls=self.pieces(e, 'commonp'))
        elif d == 'os.path.dirname' and a0 is not None:
            val = val.with_(tmpls=self.pieces(a0, 'dirp'))
        elif d in PASS and a0 is not None:
            return a0
        elif d == 'os.path.basename' and a0 is not None:
            val = val.with_(tmpls=self.pieces(a0, 'basep'))
        elif d == 'os.path.join' and val.tmpls is not None:
            val = val.with_(tmpls=frozenset(rejoin(t) for t in val.tmpls))
        elif d == 'os.path.split' and a0 is not None:
            ts = self.pieces(a0, 'dirp')
            val = val.with_(seq=(Val(tmpls=ts, deps=a0.deps), Val(tmpls=self.pieces(a0, 'basep'), deps=a0.deps)))
        if d in OPENERS:
            key, mkey, dm = OPENERS[d]
            p = kwargs.get(key, a0)
            m = kwargs.get(mkey, args[1] if len(args) > 1 else C(dm))
            self.sink(fr, n, 'open', p, m)
        elif d in PDF:
            self.sink(fr, n, 'pdf', kwargs.get('filename', a0), C('w'))
        elif d in REMOVE:
            for i in REMOVE[d]:
                if i < len(args):
                    self.sink(fr, n, 'remove' if d.split('.')[-1] in ('remove', 'unlink', 'rmtree') else 'write', args[i], C('w'))
        return val

    def method(self, it, fr, env, args, val, n):
        if n.func.attr in WRITERS and len(args) > WRITERS[n.func.attr]:
            self.sink(fr, n, 'write', args[WRITERS[n.func.attr]], C('w'))
        if n.func.attr in ('rsplit', 'rpartition', 'split', 'partition') and args and args[0].isconst('.'):
            b = it.eval_quiet(n.func.value, env, fr)
            if b.tmpls is not None and b.consts is None:
                return val.with_(seq=(Val(tmpls=self.stem(b), deps=b.deps), Val(deps=b.deps)))
        if n.func.attr == 'replace' and len(args) >= 2 and args[0].isconst() and args[1].isconst():
            b = it.eval_quiet(n.func.value, env, fr)
            old, new = args[0].const(), args[1].const()
            if b.tmpls is not None and isinstance(old, str) and isinstance(new, str) and val.consts is None:
                known = any(pol and isinstance(g, (ast.If, ast.IfExp)) and contains_test(g.test, old, n.func.value) for _, pol, g in fr.all_guards()) \
                    or any(not pol and isinstance(g, (ast.If, ast.IfExp)) and contains_test(g.test, old, n.func.value, True) for _, pol, g in fr.all_guards())
                if known and new != old:
                    return val.with_(tmpls=frozenset([(piece('replp', tmpl_term(t), old, new),) for t in b.tmpls]))
                return val.with_(tmpls=b.tmpls)
        return val

    def precall(self, it, fr, env, callee, args, kwargs, n):
        if callee[0] == 'fn':
            at = {v.tag('at') for v in list(args) + list(kwargs.values()) if v.tag('at') is not None}
            if len(at) > 1:
                self.paired.append((fr.fn.qual if fr.fn else '?', n, callee[1], at))
        if callee[0] == 'cls' and callee[1].endswith('.tools.smc.SMC'):
            names = ['input_filename', 'output_filename']
            b = dict(zip(names, args))
            b.update({k: v for k, v in kwargs.items()})
            self.sink(fr, n, 'open', b.get('input_filename'), C('r'))
            init = it.prog.find_method(it.prog.classes[callee[1]], '__init__')
            d = init.defaults.get('mode') if init is not None else None
            self.sink(fr, n, 'open', b.get('output_filename'), b.get('mode', C(d.value if isinstance(d, ast.Constant) else 'w')))
            return Val(term=T.mk('smc', id(n)))
        return None

    def sink(self, fr, n, what, p, m):
        mode = '?'
        if m is not None and m.consts is not None:
            w = {c[1] for c in m.consts}
            mode = w.pop() if len(w) == 1 else '?' if any(x not in ('r', 'rb', 'rt') for x in w) else 'r'
        self.sinks.append((fr.chain(), fr.fn.qual if fr.fn else '?', n, what, p.tmpls if p is not None else None, mode))

    def ret(self, it, fr, env, val, n):
        if fr.depth == 0:
            self.returned.append((val, n))


def contains_test(test, old, subject, neg=False):
    """Does the condition say that the text `old` occurs in the expression `subject`?"""
    for x in ([test] if not isinstance(test, ast.BoolOp) else ([] if neg else test.values if isinstance(test.op, ast.And) else [])):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.NotIn if neg else ast.In) and isinstance(x.left, ast.Constant) and x.left.value == old \
                and ast.dump(x.comparators[0]) == ast.dump(subject):
            return True
    return False


# steps whose purpose is to update the telescope configuration they are given
IN_PLACE = {('dut_alignment.align_telescope', 'telescope_configuration'): 'updates the given configuration (documented)',
            ('dut_alignment.calculate_transformation', 'telescope_configuration'): 'updates the given configuration (documented)'}


def short(q):
    return q[len(PKG) + 1:]


class Steps(Plugin):
    """Calls to other steps with all output names given are not entered: the callee is analysed on its own."""
    name = 'steps'

    def __init__(self, steps, top, paths):
        self.steps, self.top, self.paths = steps, top, paths

    def precall(self, it, fr, env, callee, args, kwargs, n):
        if callee[0] != 'fn' or callee[1] not in self.steps or callee[1] == self.top.qual:
            return None
        fn = it.prog.fns[callee[1]]
        vals = it.bind_args(fn, args, kwargs, env, fr, n)
        outs = [p for p in fn.all_params if is_output(p)]
        inpl = [p for p in fn.all_params if (short(fn.qual), p) in IN_PLACE]
        for p in outs:
            v = vals[p]
            if v.tmpls is None or NONE_T & v.tmpls:
                return None
        if not outs and not inpl:
            return None
        for p in fn.all_params:
            if p in outs or p in inpl:
                self.paths.sink(fr, n, 'open', vals[p], C('w'))
            elif is_input(p):
                self.paths.sink(fr, n, 'open', vals[p], C('r'))
        if not outs:
            return C(None)
        r = vals[outs[0]]
        if fn.name == 'combine_files':
            return Val(seq=(r, Val(deps=r.deps)), term=T.mk('u', id(n)))
        return r


def steps_of(prog):
    return [f for f in pipeline_fns(prog) if f.is_public() and any(is_output(p) for p in f.all_params) or (short(f.qual), 'telescope_configuration') in IN_PLACE]


def analyse(prog, fn, mode):
    """Interpret fn with its output names given or left out; mode 'given' / 'none' / 'any'."""
    pl = Paths()
    it = Interp(prog, plugins=[Model(), pl, Steps({f.qual for f in steps_of(prog)}, fn, pl)])
    params = {}
    for p in fn.all_params:
        if is_output(p):
            params[p] = given_val(p) if mode == 'given' else C(None) if mode == 'none' and p in fn.defaults else path_val(p, True)
        elif is_input(p):
            d = fn.defaults.get(p)
            params[p] = path_val(p, optional=isinstance(d, ast.Constant) and d.value is None)
    val, env = it.analyse_entry(fn, params)
    return pl, val, it


def analyse_smc(prog):
    """The parallel map: constructed with an input and an output name, then every method that runs in a thread."""
    cls = prog.cls('tools.smc.SMC')
    init = prog.find_method(cls, '__init__')
    pl = Paths()
    it = Interp(prog, plugins=[pl])
    fr = Frame(init, 0)
    fr.uid = it.newuid()
    env = Env()
    self_v = Val(obj=frozenset([('inst', cls.qual, 'smc')]), term=T.mk('self', cls.qual))
    args = {p: path_val(p, p.startswith('output')) if 'file' in p else Val(term=T.mk('param', p)) for p in init.params[1:]}
    mode = Val(term=T.mk('param', 'mode'))
    it.stack.append(fr)
    it.inline(init, [self_v], args, env, fr, init.node)
    for name, m in sorted(cls.methods.items()):
        if name != '__init__':
            it.inline(m, [self_v], {}, env, fr, m.node)
    it.stack.pop()
    return pl, it


_cache = {}


def results(prog, mode):
    """{qual: (fn, Paths, returned value, interpreter)} for all entry points, analysed once per program and mode."""
    key = (id(prog), mode)
    if key not in _cache:
        d = {}
        for f in pipeline_fns(prog, ('tools.plot_utils',)):
            if f.is_public():
                pl, val, it = analyse(prog, f, mode)
                d[f.qual] = (f, pl, val, it)
        _cache[key] = (prog, d)
    return _cache[key][1]


def open_sites(fn):
    """Calls in fn that open, write or remove files, found by name."""
    out = []
    for n in walk_local(fn.node):
        if isinstance(n, ast.Call):
            d = dotted(n.func) or ''
            if d.split('.')[-1] in ('open_file', 'PdfPages') or d in ('open', 'os.remove', 'os.unlink', 'os.rename', 'os.replace') or d.startswith('shutil.'):
                out.append(n)
    return out
