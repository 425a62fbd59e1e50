"""C12: track selections keep the tracks in which every listed DUT meets the requirement, and every flag bit belongs to its DUT.

R1 select    - select_tracks stores a track only if it meets the five requirements, and no requirement removes a track that meets all of them
R2 fit       - fit_tracks stores the tracks with a hit in every required DUT and at least the minimum number of hits in the DUTs used for the fit,
               and the Kalman alignment reads only tracks with a hit in every required DUT
R3 bit       - the quality, isolated-track and isolated-hit flag get the bit of the DUT of the loop, under the condition of that flag and that DUT
R4 hit       - the hit flag has the bit of every DUT with a finite position of the same DUT
R5 column    - every flag column of the stored tracks is filled from the flag of the same name
"""
import ast

from ..bits import Eval, Space, R, T, B
from ..defs import Defs, bind_args
from ..inline import inlined, same_module
from ..loader import AnalysisError, dotted, pos, walk_local
from ..normalize import normalise

ID = 'C12'
TECHNIQUE = ('evaluation of the mask and selection expressions over the truth tables of all flag patterns and DUT lists of two DUTs (the bit operations act on '
             'each DUT alike); definition-use analysis of the flag writers and columns')
MINIMUM = {'requirements': 8, 'flag_writers': 3, 'flag_columns': 2, 'patterns': 100000}
LEVEL_NOTE = 'static analysis of select_tracks, fit_tracks, the Kalman alignment and the writers of the four flag columns; the query string and the random selection of events only narrow the result'

LISTS = ['select_hit_duts', 'select_no_hit_duts', 'select_quality_duts', 'select_isolated_track_duts', 'select_isolated_hit_duts']


class Tables(object):
    def __init__(self, sp):
        self.sp = sp

    def exists(self, t, keep):
        """Drop the variables that are not wanted: true if true for one of their values."""
        sp = self.sp
        for name in list(sp.names):
            if keep(name):
                continue
            v = sp.names[name]
            k = list(sp.names).index(name)
            sh = 1 << k
            lo, hi = t & ~v & sp.full, t & v
            t = lo | (lo << sh) | hi | (hi >> sh)
            t &= sp.full
        return t

    def show(self, t, names):
        """One pattern of a non-empty table."""
        i = (t & -t).bit_length() - 1
        on = []
        for name, v in self.sp.names.items():
            if name[0] in names and v >> i & 1:
                on.append('%s[DUT %s]' % (name[1], name[2]) if len(name) > 2 and name[0] != 'count' else str(name[1]))
        return 'set: ' + (', '.join(on) or 'nothing')


def evaluate(prog, fn, lists, sinks, minimum=(), node=None, skip=()):
    sp = Space()
    for n in ('hit_flag',):
        for b in (0, 1):
            sp.var(('flag', n, b))
    nested = {k: f.node for k, f in fn.module.functions.items() if k != fn.name and k not in skip and not f.decorators}
    ev = Eval(sp, lists, minimum, sinks, nested)
    env = {p: ('lists', p) for p in lists}
    ev.block((node or fn.node).body, env)
    return sp, ev


def implies(sp, a, b):
    return a & ~b & sp.full


def flags(sp, kind):
    return [sp.var(('flag', kind, b)) for b in (0, 1)]


def req(sp, name):
    return [sp.var(('req', name, b)) for b in (0, 1)]


def check_select(prog, res):
    fn = prog.fn('tools.data_selection.select_tracks')
    missing = [p for p in LISTS if p not in fn.all_params]
    if missing:
        raise AnalysisError('select_tracks has no parameter %s' % missing)
    sp, ev = evaluate(prog, fn, LISTS, {'append'})
    rows = [(c, v) for c, k, v in ev.hits if isinstance(v, R) and k == 0]
    if not rows:
        raise AnalysisError('select_tracks: rows appended to the output table not found')
    hit, qual, itr, ihi = [flags(sp, k + '_flag') for k in ('hit', 'quality', 'isolated_track', 'isolated_hit')]
    rh, rn, rq, rt, ri = [req(sp, n) for n in LISTS]
    full = sp.full
    strict = {n: full for n in LISTS}
    lenient = dict(strict)
    for b in (0, 1):
        for n, want in ((LISTS[0], ~rh[b] | hit[b]), (LISTS[1], ~rn[b] | ~hit[b]), (LISTS[2], ~rq[b] | ~hit[b] | qual[b]), (LISTS[4], ~ri[b] | ~hit[b] | ihi[b])):
            strict[n] &= want & full
            lenient[n] &= want & full
        strict[LISTS[3]] &= (~rt[b] | itr[b]) & full
        lenient[LISTS[3]] &= (~rt[b] | ~hit[b] | itr[b]) & full
    tb = Tables(sp)
    n = 0
    for c, r in rows:
        for name in LISTS:
            n += 1
            bad = implies(sp, r.t, lenient[name])
            if bad:
                res.add('select', 'select_tracks:%s' % name, pos(c), 'a track that does not meet %s is stored (%s)' % (name, tb.show(bad, ('flag', 'req'))))
        allowed = tb.exists(r.t, lambda nm: nm[0] in ('flag', 'req'))
        all_ok = full
        for t in strict.values():
            all_ok &= t
        bad = implies(sp, all_ok, allowed)
        if bad:
            res.add('select', 'select_tracks:removed', pos(c), 'a track that meets all requirements is not stored (%s)' % tb.show(bad, ('flag', 'req')))
        n += 1
    return n, 1 << len(sp.names)


def check_fit(prog, res):
    n = 0
    pats = 0
    fn = prog.fn('track_analysis.fit_tracks')
    sp, ev = evaluate(prog, fn, ['select_hit_duts', 'select_fit_duts'], {'store_track_data'}, ('min_track_hits',), skip=('fit_tracks',))
    target = prog.fn('track_analysis.store_track_data')
    k = target.params.index('select_tracks_for_storage') if 'select_tracks_for_storage' in target.params else None
    got = [(c, v) for c, key, v in ev.hits if key in ('select_tracks_for_storage', k)]
    if not got:
        raise AnalysisError('fit_tracks: selection of the stored tracks not found')
    hit, rh, rf = flags(sp, 'hit_flag'), req(sp, 'select_hit_duts'), req(sp, 'select_fit_duts')
    tb = Tables(sp)
    for c, v in got:
        if not isinstance(v, T):
            raise AnalysisError('fit_tracks: selection of the stored tracks not readable')
        need = sp.full
        for b in (0, 1):
            need &= ~rh[b] | hit[b]
        n += 1
        bad = implies(sp, v.t, need & sp.full)
        if bad:
            res.add('fit', 'fit_tracks:select_hit_duts', pos(c), 'a track without a hit in a DUT of select_hit_duts is stored (%s)' % tb.show(bad, ('flag', 'req')))
        # minimum number of hits in the DUTs used for the fit
        n += 1
        good = None
        for name, (op, b, key) in ev.counts.items():
            if op != 'GtE' or not ({key} if not isinstance(key, tuple) else set(key)) <= {'minimum'}:
                continue
            if all(not implies(sp, b.t[i], hit[i] & rf[i]) for i in (0, 1)) and (b.t[0] or b.t[1]) and not implies(sp, v.t, sp.names[name]):
                good = name
        if good is None:
            res.add('fit', 'fit_tracks:min_track_hits', pos(c), 'the stored tracks are not limited to those with at least min_track_hits hits in the DUTs used for the fit')
            continue
        bits = ev.counts[good][1]
        used = list(rf)
        for nm in sp.names:
            # the DUT whose own hit is left out of its fit
            if nm[0] == 'single' and nm[2] in (0, 1):
                used[nm[2]] &= ~sp.var(nm)
        if any(implies(sp, hit[i] & used[i], bits.t[i]) for i in (0, 1)):
            res.add('fit', 'fit_tracks:fit_duts', pos(c), 'hits of a DUT used for the fit are not counted for min_track_hits')
        n += 1
        allowed = tb.exists(v.t, lambda nm: nm[0] in ('flag', 'req') or nm == good)
        if implies(sp, need & sp.names[good] & sp.full, allowed):
            res.add('fit', 'fit_tracks:removed', pos(c), 'a track that meets the hit requirements is not stored')
    pats += 1 << len(sp.names)
    fn = prog.fn('dut_alignment._duts_alignment_kalman')
    node = fn.node
    sp, ev = evaluate(prog, fn, ['select_hit_duts', 'select_fit_duts'], set(), ('min_track_hits',), node=node)
    rows = [(e, v) for e, _, v in ev.reads if isinstance(v, R)]
    if not rows:
        raise AnalysisError('_duts_alignment_kalman: hit positions read from the tracks not found')
    hit, rh = flags(sp, 'hit_flag'), req(sp, 'select_hit_duts')
    tb = Tables(sp)
    need = sp.full
    for b in (0, 1):
        need &= ~rh[b] | hit[b]
    need &= sp.full
    for e, v in rows:
        n += 1
        bad = implies(sp, v.t, need)
        if bad:
            res.add('fit', 'align_kalman:select_hit_duts', pos(e), 'tracks without a hit in a DUT of select_hit_duts are used for the alignment (%s)' % tb.show(bad, ('flag', 'req')))
        if implies(sp, need, tb.exists(v.t, lambda nm: nm[0] in ('flag', 'req'))):
            res.add('fit', 'align_kalman:removed', pos(e), 'tracks with a hit in every DUT of select_hit_duts are not used for the alignment')
    return n, pats + (1 << len(sp.names))


# ---------------------------------------------------------------------------------------------- writers of the flags
def shift_of(e):
    """Loop variable of 1 << v (through casts), None if it is no single bit."""
    while isinstance(e, ast.Call) and len(e.args) == 1:
        e = e.args[0]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.LShift) and isinstance(e.left, (ast.Constant, ast.Call)):
        left = e.left.args[0] if isinstance(e.left, ast.Call) and e.left.args else e.left
        if isinstance(left, ast.Constant) and left.value == 1 and isinstance(e.right, ast.Name):
            return e.right.id
        return ''
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and isinstance(e.left, ast.Constant) and e.left.value == 2:
        return e.right.id if isinstance(e.right, ast.Name) else ''
    return None


def root_of(e, neg=False):
    """(name, negated) of a selection: ~x[rows].astype(..) -> (x, True)."""
    while True:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert, ast.Not)):
            e, neg = e.operand, not neg
        elif isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('logical_not', 'invert', 'bitwise_not') and e.args:
            e, neg = e.args[0], not neg
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('astype', 'copy'):
            e = e.func.value
        elif isinstance(e, ast.Subscript):
            e = e.value
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (False, 0, True, 1):
            neg = neg != ((not e.comparators[0].value) == isinstance(e.ops[0], ast.Eq))
            e = e.left
        elif isinstance(e, ast.Name):
            return e.id, neg
        else:
            return None, neg


def resolve_root(defs, e):
    name, neg = root_of(e)
    for _ in range(6):
        if name is None:
            break
        ds = defs.of(name)
        plain = [d for d in ds if d.kind == 'expr']
        if len(ds) == 1 and plain and not defs.of(name + '[]'):
            n2, g2 = root_of(plain[0].value)
            if n2 is not None and n2 != name:
                name, neg = n2, neg != g2
                continue
        break
    return name, neg


def lineage(defs, name, seen=None):
    """Names the value of a name is computed from (stores into it included)."""
    seen = set() if seen is None else seen
    if name in seen:
        return seen
    seen.add(name)
    for d in defs.of(name) + defs.of(name + '[]'):
        if d.value is not None:
            for x in ast.walk(d.value):
                if isinstance(x, ast.Name):
                    lineage(defs, x.id, seen)
    return seen


def exprs_of(defs, name, seen=None):
    """All expressions that contribute to a name."""
    seen = set() if seen is None else seen
    out = []
    if name in seen:
        return out
    seen.add(name)
    for d in defs.of(name) + defs.of(name + '[]'):
        if d.value is not None and d.kind not in ('iter',):
            out.append(d.value)
            for x in ast.walk(d.value):
                if isinstance(x, ast.Name):
                    out += exprs_of(defs, x.id, seen)
    return out


def loop_var(defs, node, name):
    """The for statement around the node that binds the name as DUT number, and whether it runs over all DUTs."""
    for f in defs.enclosing(node, ast.For):
        t = f.target
        if isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name) and t.elts[0].id == name and isinstance(f.iter, ast.Call) and dotted(f.iter.func) == 'enumerate':
            return f, len(f.iter.args) == 1 and not f.iter.keywords
        if isinstance(t, ast.Name) and t.id == name:
            it = f.iter
            ok = isinstance(it, ast.Call) and dotted(it.func) in ('range', 'np.arange') and len(it.args) == 1 and not isinstance(it.args[0], (ast.BinOp, ast.Constant))
            return f, ok
    return None, False


def dut_indices(e, defs=None):
    """[(node, index name)] of the DUT numbers in column templates and per-DUT lists of an expression."""
    out = []
    for x in ast.walk(e):
        if defs is not None and isinstance(x, ast.Name):      # name of a column
            ds = defs.of(x.id)
            if len(ds) == 1 and ds[0].kind == 'expr' and not isinstance(ds[0].value, ast.Subscript):
                out += dut_indices(ds[0].value)
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and '_dut_%' in x.left.value:
            r = x.right
            if isinstance(r, ast.Tuple):
                r = r.elts[-1]
            out.append((x, ast.unparse(r), x.left.value.split('%')[0]))
        elif isinstance(x, ast.JoinedStr):
            vs = [v for v in x.values if isinstance(v, ast.FormattedValue)]
            cs = ''.join(v.value for v in x.values if isinstance(v, ast.Constant))
            if vs and '_dut_' in cs:
                out.append((x, ast.unparse(vs[-1].value), cs))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant) and '_dut_{' in str(x.func.value.value) and x.args:
            out.append((x, ast.unparse(x.args[-1]), str(x.func.value.value).split('{')[0]))
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and isinstance(x.left, ast.Constant) and str(x.left.value).endswith('_dut_') and isinstance(x.right, ast.Call) and x.right.args:
            out.append((x, ast.unparse(x.right.args[0]), str(x.left.value)))
        elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in ('quality_distances', 'isolation_distances', 'telescope'):
            out.append((x, ast.unparse(x.slice), x.value.id))
    return out


def bit_writes(node):
    """(statement, flag expression, selection, bit) of x[sel] |= 1 << v, x |= sel << v and the like."""
    for st in walk_local(node):
        if isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.BitOr, ast.Add, ast.BitXor)):
            tgt, val = st.target, st.value
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, (ast.BitOr, ast.Add, ast.BitXor)):
            tgt = st.targets[0]
            t = ast.unparse(tgt)
            if ast.unparse(st.value.left) == t:
                val = st.value.right
            elif ast.unparse(st.value.right) == t:
                val = st.value.left
            else:
                continue
        else:
            continue
        yield st, tgt, val


def column_of(e):
    """'hit_flag' of tracks['hit_flag'] and hit_flag."""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return e.slice.value
    return None


def flat_bits(defs, st, tgt, val):
    """(flag name, selection, index name or '') of a statement that sets one bit of a flag array, else None."""
    v = shift_of(val)
    if v is None and isinstance(val, ast.Name):
        ds = [d for d in defs.of(val.id) if d.kind == 'expr']
        if len(ds) == 1:
            v = shift_of(ds[0].value)
    if v is not None and isinstance(tgt, ast.Subscript) and column_of(tgt) is None:
        return tgt.value, tgt.slice, v
    if isinstance(val, ast.BinOp) and isinstance(val.op, ast.LShift):
        return tgt, val.left, val.right.id if isinstance(val.right, ast.Name) else ''
    if isinstance(val, ast.BinOp) and isinstance(val.op, ast.Mult):
        for a, b in ((val.left, val.right), (val.right, val.left)):
            if shift_of(a) is not None:
                return tgt, b, shift_of(a)
    if isinstance(val, ast.Call) and (dotted(val.func) or '').split('.')[-1] in ('left_shift',) and len(val.args) == 2:
        return tgt, val.args[0], val.args[1].id if isinstance(val.args[1], ast.Name) else ''
    while isinstance(val, ast.Call) and isinstance(val.func, ast.Attribute) and val.func.attr == 'astype':
        val = val.func.value
    if isinstance(val, ast.Call) and (dotted(val.func) or '').split('.')[-1] == 'where' and len(val.args) == 3:
        if shift_of(val.args[1]) is not None:
            return tgt, val.args[0], shift_of(val.args[1])
        if shift_of(val.args[2]) is not None:
            return tgt, ast.copy_location(ast.UnaryOp(ast.Invert(), val.args[0]), val), shift_of(val.args[2])
    return None


def check_bits(prog, res):
    n = 0
    fn = prog.fn('track_analysis.store_track_data')
    view = inlined(fn, same_module(fn, private=False, exclude=('create_results_array', '_find_small_distance')))
    view = normalise(view)
    defs = Defs(view.node)
    # which array becomes which column
    kind = {}
    target = prog.fn('track_analysis.create_results_array')
    for c in walk_local(view.node):
        if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == 'create_results_array':
            b = bind_args(c, target.params)
            if b is None:
                raise AnalysisError('arguments of create_results_array not readable')
            for p, e in b.items():
                if p.endswith('_flag'):
                    r, neg = resolve_root(defs, e)
                    kind.setdefault(r, set()).add(p)
    # which selection marks close hits and close tracks
    near = {}
    small = prog.fn('track_analysis._find_small_distance')
    for c in walk_local(view.node):
        if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == '_find_small_distance':
            b = bind_args(c, small.params)
            if b is None or 'small_distance_flag_array' not in b:
                raise AnalysisError('arguments of _find_small_distance not readable')
            r, _ = root_of(b['small_distance_flag_array'])
            near.setdefault(r, []).append((c, b))

    def names_in(e):
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                out |= lineage(defs, x.id)
        return out

    for st, tgt, val in bit_writes(view.node):
        w = flat_bits(defs, st, tgt, val)
        if w is None:
            continue
        flag, sel, v = w
        fname, _ = root_of(flag)
        cols = kind.get(fname) or ({column_of(flag)} if column_of(flag) else None)
        if not cols:
            continue
        for col in sorted(cols):
            n += 1
            where = pos(st)
            if not v:
                res.add('bit', 'store_track_data:%s' % col, where, '%s is not set at the bit of the DUT of the loop' % col)
                continue
            loop, all_duts = loop_var(defs, st, v)
            if loop is None or not all_duts:
                res.add('bit', 'store_track_data:%s:loop' % col, where, '%s is not set for every DUT at the bit of its number' % col)
                continue
            root, neg = resolve_root(defs, sel)
            if root is None:
                raise AnalysisError('condition of %s not readable' % col)
            wants_near = col in ('isolated_track_flag', 'isolated_hit_flag')
            if wants_near != (root in near):
                res.add('bit', 'store_track_data:%s:condition' % col, where, '%s is set under the condition of another flag' % col)
                continue
            if neg != wants_near:
                res.add('bit', 'store_track_data:%s:negated' % col, where, '%s is set where its condition does not hold' % col)
                continue
            exprs = []
            if wants_near:
                for c, b in near[root]:
                    xs = [b.get(p) for p in ('position_array_x', 'position_array_y', 'max_distance_x', 'max_distance_y')]
                    hits = [any('_dut_' in str(t[2]) for t in dut_indices(e, defs)) or any(any('_dut_' in str(t[2]) for t in dut_indices(y, defs)) for x in ast.walk(e) if isinstance(x, ast.Name) for y in direct(defs, x.id)) for e in xs[:2] if e is not None]
                    if col == 'isolated_hit_flag' and not all(hits) or col == 'isolated_track_flag' and any(hits):
                        res.add('bit', 'store_track_data:%s:positions' % col, where, '%s is computed from the positions of the %s' % (col, 'tracks' if col == 'isolated_hit_flag' else 'hits'))
                    for e in xs:
                        if e is not None:
                            exprs.append(e)
                            for x in ast.walk(e):
                                if isinstance(x, ast.Name):
                                    exprs += exprs_of(defs, x.id)
                    if not any('isolation_distances' in names_in(e) for e in xs[2:] if e is not None):
                        res.add('bit', 'store_track_data:%s:distance' % col, where, '%s does not use isolation_distances' % col)
            else:
                exprs += exprs_of(defs, root)
                if 'quality_distances' not in lineage(defs, root):
                    res.add('bit', 'store_track_data:%s:distance' % col, where, '%s does not use quality_distances' % col)
            for e in exprs:
                for x, i, what in dut_indices(e):
                    if i != v:
                        res.add('bit', 'store_track_data:%s:%s' % (col, what), pos(x), '%s of DUT %s is computed from %s of DUT %s' % (col, v, what.rstrip('_'), i))
    # hit flag
    for q in ('track_analysis.find_tracks', 'hit_analysis.merge_cluster_data'):
        fn = prog.fn(q)
        view = normalise(inlined(fn, same_module(fn)))
        defs = Defs(view.node)
        m = 0
        for st, tgt, val in bit_writes(view.node):
            w = flat_bits(defs, st, tgt, val)
            if w is None:
                continue
            flag, sel, v = w
            m += 1
            if not v:
                res.add('hit', '%s:bit' % fn.name, pos(st), 'the hit flag is not set at the bit of the DUT of the loop')
                continue
            loop, all_duts = loop_var(defs, st, v)
            if loop is None or not all_duts:
                res.add('hit', '%s:loop' % fn.name, pos(st), 'the hit flag is not set for every DUT at the bit of its number')
            e = sel
            neg = False
            for _ in range(12):
                if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert, ast.Not)):
                    e, neg = e.operand, not neg
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('astype', 'copy'):
                    e = e.func.value
                elif isinstance(e, ast.Name) and len([d for d in defs.of(e.id)]) == 1 and defs.of(e.id)[0].kind == 'expr':
                    e = defs.of(e.id)[0].value
                elif isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('isnan', 'isfinite', 'logical_not') and e.args:
                    neg = neg != ((dotted(e.func) or '').split('.')[-1] != 'isfinite')
                    e = e.args[0]
                else:
                    break
            ix = dut_indices(e, defs)
            if not ix:
                m -= 1
                continue
            if neg:
                res.add('hit', '%s:negated' % fn.name, pos(st), 'the hit flag is set for DUTs without a finite position')
            for x, i, what in ix:
                if i != v:
                    res.add('hit', '%s:index' % fn.name, pos(st), 'the hit flag of DUT %s is computed from the position of DUT %s' % (v, i))
        n += m
    return n


def direct(defs, name):
    """Expressions directly assigned to a name (copies followed)."""
    out = []
    for d in defs.of(name):
        if d.kind == 'expr':
            out.append(d.value)
            if isinstance(d.value, ast.Name) and d.value.id != name:
                out += [x.value for x in defs.of(d.value.id) if x.kind == 'expr']
    return out


def check_columns(prog, res):
    fn = prog.fn('track_analysis.create_results_array')
    view = normalise(inlined(fn, same_module(fn, private=False)))
    defs = Defs(view.node)
    seen, cleared = set(), {}
    for st in walk_local(view.node):
        if not isinstance(st, ast.Assign):
            continue
        for t in st.targets:
            col = None
            x = t
            while isinstance(x, ast.Subscript):
                col = column_of(x) or col
                x = x.value
            if col is None or not col.endswith('_flag'):
                continue
            names = set()
            for y in ast.walk(st.value):
                if isinstance(y, ast.Name):
                    names |= {z for z in lineage(defs, y.id) if z.endswith('_flag')}
            cols = {column_of(y) for y in ast.walk(st.value) if isinstance(y, ast.Subscript)} - {None}
            got = {z for z in names if z in fn.params} | {z for z in cols if z.endswith('_flag')}
            if not got:
                cleared.setdefault(col, pos(st))
                continue
            seen.add((col, ast.unparse(t)))
            if got != {col}:
                res.add('column', 'create_results_array:%s' % col, pos(st), 'the column %s is filled from %s' % (col, ', '.join(sorted(got))))
    for col, where in cleared.items():
        if col not in {c for c, _ in seen}:
            seen.add((col, ''))
            res.add('column', 'create_results_array:%s' % col, where, 'the column %s is never filled from the flag of its name' % col)
    return len({c for c, _ in seen})


def run(prog, res, tier):
    res.rule('select', 'over all flag patterns: stored tracks meet the requirements, tracks meeting all of them are stored')
    res.rule('fit', 'tracks are stored if and only if every required DUT has a hit and the fit DUTs have the minimum number of hits')
    res.rule('bit', 'bit v of a flag is set under the condition of this flag for DUT v')
    res.rule('hit', 'bit v of the hit flag is set where the position of DUT v is finite')
    res.rule('column', 'a flag column is filled from the flag of its name')
    res.assumptions += ['two DUTs stand for any number: the selection uses only bitwise operations and comparisons of masks, which treat all DUTs alike',
                        'the isolated track flag may be tested with or without the hit of the DUT (documentation and code differ)']
    a, p1 = check_select(prog, res)
    b, p2 = check_fit(prog, res)
    res.cover('requirements', a + b)
    res.cover('patterns', p1 + p2)
    res.cover('flag_writers', check_bits(prog, res))
    res.cover('flag_columns', check_columns(prog, res))
