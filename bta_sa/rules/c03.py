"""C03: output is written to and returned under the requested name.

R1 target   - with its output names given, a step writes data only to those names (and to temporary files that it removes),
              and it writes every one of them
R2 returned - it returns the name it was given
R3 default  - with the output names left out, it writes to names derived from its input and returns just those
R4 listed   - a step that returns one name per DUT adds exactly one name on every path through its loop over the DUTs
R5 paired  - calls of a step for one DUT take the input and the output name at the same position of their lists
R6 stamped  - the decorator that stores the arguments appends them to the returned file and hands the result through
"""
import ast

from ..interp import NONE_T
from ..loader import pos, PKG, dotted
from ..paths import results, classify, is_output, short, steps_of, Piece, IN_PLACE
from .c02 import save_arguments

ID = 'C03'
TECHNIQUE = ('context-sensitive abstract interpretation of file names with the output parameters given and left out; comparison of the names written '
             'with the names returned; path counting of the result lists')
MINIMUM = {'steps': 22, 'outputs': 24, 'returns': 40, 'result_lists': 1, 'paired_calls': 1, 'decorated': 12}
LEVEL_NOTE = 'static analysis of every step that has an output file parameter; the names of plot files are not constrained'

# name: reason
NO_NAME = {
    'result_analysis.calculate_purity': 'returns the purities (documented)',
    'result_analysis.calculate_residual_correlation': 'returns nothing (documented), results go to the output file',
    'converter.pybar_fei4_converter.analyze_raw_data': 'helper that hands its names to the external interpreter',
}
# output names that the external interpreter writes
EXTERNAL = {('converter.pybar_fei4_converter.process_dut', 'output_filename'), ('converter.pybar_fei4_converter.analyze_raw_data', 'output_filename'),
            ('converter.pymosa_converter.process_dut', 'output_filename')}
PDF = ('_pdf', 'pdf_file', 'pdf_files')


def data_out(fn):
    return [p for p in fn.all_params if is_output(p) and not p.endswith(PDF)]


def primary(v):
    """Templates of the name(s) a step returns: a name, a list of names, or a tuple with the name first."""
    if v.tmpls is not None:
        return v.tmpls
    if v.seq:
        return primary(v.seq[0])
    if v.elem is not None:
        return primary(v.elem)
    return None


def is_tmp(text):
    return 'tmp' in text


def writes(pl):
    """Templates of the data files that are created (not plots, not removals)."""
    out = {}
    for chain, q, n, what, ts, mode in pl.sinks:
        if what == 'open' and mode not in ('r', 'rb', 'rt') and ts is not None:
            for t in ts:
                if classify(t)[0] != 'none' and not is_tmp(classify(t)[2]):
                    out.setdefault(t, n)
    return out


def norm(t):
    """The parameter and what is added to it (an element of a list of names and a name are the same here)."""
    return classify(t)


def adds(stmts, name):
    """Set of numbers of elements that paths through the statements add to the list, with the way they end.

    Returns {(count, end)}; end is 'next' (falls through), 'cont', 'break', 'exit' (return) or 'raise'."""
    st = {(0, 'next')}
    for s in stmts:
        new = set()
        for c, e in st:
            if e != 'next':
                new.add((c, e))
                continue
            for c2, e2 in stmt_adds(s, name):
                new.add((min(c + c2, 3), e2))
        st = new
    return st


def expr_adds(n, name):
    k = 0
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
            if x.func.attr == 'append':
                k += 1
            elif x.func.attr in ('insert', 'extend', 'pop', 'remove', 'clear', 'sort', 'reverse'):
                k += 9
    return k


def stmt_adds(s, name):
    if isinstance(s, ast.If):
        k = expr_adds(s.test, name)
        return {(k + c, e) for c, e in adds(s.body, name) | adds(s.orelse, name)}
    if isinstance(s, (ast.For, ast.While)):
        inner = adds(s.body, name)
        if all(c == 0 for c, e in inner):
            out = {(0, 'next')} | {(0, e) for c, e in inner if e in ('exit', 'raise')}
            return out
        return {(0, 'next'), (1, 'next'), (2, 'next')}
    if isinstance(s, ast.With):
        k = sum(expr_adds(i.context_expr, name) for i in s.items)
        return {(k + c, e) for c, e in adds(s.body, name)}
    if isinstance(s, ast.Try):
        body = adds(s.body, name)
        out = set()
        for c, e in body:
            out |= {(c + c2, e2) for c2, e2 in adds(s.orelse, name)} if e == 'next' else {(c, e)}
        for h in s.handlers:
            # the exception may come before or after an element was added
            for c0 in {0} | {c for c, e in body}:
                out |= {(c0 + c2, e2) for c2, e2 in adds(h.body, name)}
        fin = adds(s.finalbody, name)
        return {(c + c2, e if e2 == 'next' else e2) for c, e in out for c2, e2 in fin}
    if isinstance(s, ast.Continue):
        return {(0, 'cont')}
    if isinstance(s, ast.Break):
        return {(0, 'break')}
    if isinstance(s, ast.Return):
        return {(expr_adds(s, name), 'exit')}
    if isinstance(s, ast.Raise):
        return {(0, 'raise')}
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
        n = len(s.value.elts) if isinstance(s.value, (ast.List, ast.Tuple)) and isinstance(s.op, ast.Add) else 9
        return {(n, 'next')}
    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
        v = s.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == name and isinstance(v.right, (ast.List, ast.Tuple)):
            return {(len(v.right.elts), 'next')}
        return {(9, 'next')}
    return {(expr_adds(s, name), 'next')}


def list_rule(fn, res):
    """Every loop that fills a returned list adds one element per iteration."""
    names = set()
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Name):
            names.add(s.value.id)
    n = 0
    for s in fn.node.body:
        if isinstance(s, ast.Return) and isinstance(s.value, ast.ListComp):
            n += 1
            if any(g.ifs for g in s.value.generators) or len(s.value.generators) != 1:
                res.add('listed', '%s:returned' % short(fn.qual), pos(s), '%s: the returned list does not get one name per item' % short(fn.qual))
    for name in sorted(names):
        if name in fn.all_params:
            continue
        loops = [s for s in fn.node.body if isinstance(s, (ast.For, ast.While)) and any(expr_adds(x, name) or c for x in s.body for c, e in stmt_adds(x, name))]
        comps = [s for s in fn.node.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.ListComp)]
        for s in comps:
            n += 1
            if any(g.ifs for g in s.value.generators) or len(s.value.generators) != 1:
                res.add('listed', '%s:%s' % (short(fn.qual), name), pos(s), '%s: the returned list %s does not get one name per item' % (short(fn.qual), name))
        for s in loops:
            n += 1
            bad = [(c, e) for c, e in adds(s.body, name) if e != 'raise' and (c != 1 or e == 'break')]
            if bad:
                res.add('listed', '%s:%s' % (short(fn.qual), name), pos(s), '%s: a path through the loop adds %s elements to the returned list %s%s' % (
                    short(fn.qual), '/'.join(sorted({str(min(c, 3)) for c, e in bad})), name, ' and leaves the loop' if any(e == 'break' for c, e in bad) else ''))
        # after the loop the order must be kept
        for s in fn.node.body:
            if s in loops or s in comps:
                continue
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name \
                        and x.func.attr in ('sort', 'reverse', 'pop', 'remove', 'clear', 'insert') and (loops or comps):
                    res.add('listed', '%s:%s' % (short(fn.qual), name), pos(x), '%s: the order of the returned names is changed' % short(fn.qual))
    return n


def decorator_rule(prog, res):
    """save_arguments: the wrapper returns what the step returned and opens exactly that file."""
    m = prog.modules.get(PKG + '.tools.storage_utils')
    if m is None:
        return 0
    fn = prog.fns.get(PKG + '.tools.storage_utils.save_arguments')
    if fn is None:
        return 0
    inner = [n for n in ast.walk(fn.node) if isinstance(n, ast.FunctionDef) and n is not fn.node]
    if len(inner) != 1:
        return 0
    w = inner[0]
    func = fn.params[0]
    call = [n for n in ast.walk(w) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == func]
    rets = [n for n in ast.walk(w) if isinstance(n, ast.Return)]
    if len(call) == 1 and isinstance(call[0].targets[0], ast.Name):
        r = call[0].targets[0].id
        c = call[0].value
        stars = any(isinstance(a, ast.Starred) for a in c.args) and any(k.arg is None for k in c.keywords)
        if not stars:
            res.add('stamped', 'save_arguments:call', pos(c), 'save_arguments does not hand all arguments to the step')
        for x in rets:
            if not (isinstance(x.value, ast.Name) and x.value.id == r):
                res.add('stamped', 'save_arguments:return', pos(x), 'save_arguments does not return what the step returned')
        if not rets:
            res.add('stamped', 'save_arguments:return', pos(w), 'save_arguments does not return what the step returned')
        stores = [n for n in ast.walk(w) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == r]
        if len(stores) != 1:
            res.add('stamped', 'save_arguments:return', pos(stores[-1]), 'save_arguments changes what the step returned')
    return 1


def run(prog, res, tier):
    res.rule('target', 'output names given: data is written to exactly those names')
    res.rule('returned', 'output name given: it is returned')
    res.rule('default', 'output names left out: the names written, derived from the input, are the names returned')
    res.rule('listed', 'one name per DUT is added to the result list on every path through the loop')
    res.rule('paired', 'elements of lists of file names handed to one call have the same index')
    res.rule('stamped', 'save_arguments returns the result of the step unchanged')
    res.assumptions += ['temporary files carry "tmp" in their name', 'the external raw data interpreters write the file they are told to']
    given, none = results(prog, 'given'), results(prog, 'none')
    steps = nout = nret = nlist = ndeco = 0
    npair = set()
    for fn in steps_of(prog):
        outs = data_out(fn)
        name = short(fn.qual)
        ndeco += save_arguments(fn)
        nlist += list_rule(fn, res)
        if not outs or fn.qual not in given:
            continue
        steps += 1
        _, pl, val, it = given[fn.qual]
        w = writes(pl)
        for q, n, callee, at in pl.paired:
            npair.add(pos(n))
            if len({i for p, i in at}) > 1:
                res.add('paired', '%s->%s' % (short(q), short(callee)), pos(n), '%s hands different positions of %s to one call of %s' % (short(q), ', '.join(sorted({p for p, i in at})), short(callee)))
        hit = set()
        for t, n in sorted(w.items(), key=lambda x: str(x[0])):
            k, p, text = norm(t)
            if k == 'out' and p in outs:
                hit.add(p)
            elif k == 'in' and ((name, p) in IN_PLACE):
                pass
            elif k == 'derived' and p in fn.all_params and is_output(p) and p.endswith(PDF):
                pass
            elif k == 'unknown' and text.strip('*') == '':
                pass
            else:
                res.add('target', '%s:%s%s' % (name, p, text), pos(n), '%s writes to %s%s although its output name is given' % (name, {'derived': 'a name derived from ', 'fixed': 'a fixed name next to ', 'in': 'the input ', 'const': 'the fixed name '}.get(k, ''), (p or '') + text))
        for p in outs:
            nout += 1
            if p not in hit and (name, p) not in EXTERNAL:
                res.add('target', '%s:%s' % (name, p), pos(fn.node), '%s never writes to the output file it is given as %s' % (name, p))
        if name not in NO_NAME:
            for v, n in pl.returned:
                nret += 1
                ts = primary(v)
                ks = {norm(t)[:2] for t in ts} if ts is not None else None
                want = {('out', outs[0])}
                if ks != want and not (name, outs[0]) in EXTERNAL or ks is not None and not all(k == 'out' and p in outs for k, p in ks):
                    res.add('returned', name, pos(n), '%s returns %s instead of the output name it is given as %s' % (name, show(ts), outs[0]))
            if not pl.returned:
                res.add('returned', name, pos(fn.node), '%s does not return the name of its output' % name)
        if any(p not in fn.defaults for p in outs):
            continue
        _, pl, val, it = none[fn.qual]
        w = writes(pl)
        for t, n in sorted(w.items(), key=lambda x: str(x[0])):
            k, p, text = norm(t)
            if k in ('const', 'out'):
                res.add('default', '%s:%s' % (name, text), pos(n), '%s writes to %s, which is not derived from its input' % (name, text))
        if name in NO_NAME:
            continue
        for v, n in pl.returned:
            nret += 1
            ts = primary(v)
            if ts is None or ts & NONE_T:
                res.add('default', name, pos(n), '%s does not return the name of the file it wrote' % name)
                continue
            have = {norm(t) for t in w}
            ret = {norm(t) for t in ts}
            first = {x for x in have if x in ret}
            if have and not first or ret - have and have:
                res.add('default', name, pos(n), '%s returns %s but writes to %s' % (name, show(ts), show(w)))
            elif len(outs) == 1 and have - ret and (name, outs[0]) not in EXTERNAL:
                extra = {x for x in have - ret if not (x[0] == 'in' and (name, x[1]) in IN_PLACE)}
                if extra:
                    res.add('default', name, pos(n), '%s writes to %s but returns %s' % (name, show(w), show(ts)))
    ndec = decorator_rule(prog, res)
    res.cover('steps', steps)
    res.cover('outputs', nout)
    res.cover('returns', nret)
    res.cover('result_lists', nlist)
    res.cover('paired_calls', npair)
    res.cover('decorated', ndeco)
    res.cover('decorators', ndec)
    res.cover('exceptions', sorted('%s: %s' % x for x in NO_NAME.items()))


def show(ts):
    if ts is None:
        return 'no file name'
    out = []
    for t in ts:
        k, p, text = classify(t)
        out.append({'none': 'None', 'out': 'the given %s' % p, 'in': 'the input %s%s' % (p, text)}.get(k, '<%s>%s' % (p, text)))
    return ' or '.join(sorted(set(out)))
