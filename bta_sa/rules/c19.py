"""C19: every option reaches the code it controls.

For every function of the steps and their tools the dependence of each expression on the parameters is computed (deps.py).
R1 dead    - every parameter of a step takes effect: something other than a check of the argument, a log line or its own default depends on it
R2 forward - where a function calls another function of the package that has a parameter of the same name (or the singular of it), what is passed depends on it; leaving it out, or passing a constant or another parameter, is reported
R3 lost    - where one value given for all DUTs is turned into a list (a branch on the kind of the value), what replaces the argument depends on it
"""
import ast
import re

from ..calls import bound, callee, handed
from ..deps import Deps
from ..loader import dotted, pos

ID = 'C19'
TECHNIQUE = 'interprocedural parameter-dependence analysis: liveness of every option and same-name forwarding at every call inside the package'
MINIMUM = {'steps': 15, 'options': 150, 'forwarded': 80}
LEVEL_NOTE = 'parameter dependences, flow-sensitive in each function and through every call inside the package; that an option is combined correctly with the data is not decided, and an option used in one of several places counts as used'
STEPS = ['hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'tools.data_selection']
TOOLS = ['tools.plot_utils', 'tools.analysis_utils', 'tools.kalman', 'tools.smc', 'tools.geometry_utils', 'tools.storage_utils']
STEP = re.compile(r'telescope_configuration|_files?$|^input_')
# names that carry data or say where it is: each step of a chain has its own
DATA = re.compile(r'^(input|output)_|telescope_configuration$|^self$|^telescope$|^(x|y|z|data|array|values|index|name|title|node|pdf|kwargs|args)$')


def singular(n):
    if n.endswith('ies'):
        return n[:-3] + 'y'
    return n[:-1] if n.endswith('s') else n


class Table(object):
    """Parameters without effect, per function of the package."""
    def __init__(self, prog):
        self.prog, self.done, self.busy = prog, {}, set()

    def of(self, fn):
        k = id(fn.node)
        if k not in self.done:
            if k in self.busy:
                return None
            self.busy.add(k)
            self.done[k] = Deps(fn, lambda call: self.args(fn, call))
            self.busy.discard(k)
        return self.done[k]

    def args(self, fn, call):
        out = list(handed(self.prog, fn, call))
        g, skip = callee(self.prog, fn, call.func)
        if g is not None and g.parent is None:
            b = bound(g, skip, call)
            if b is None:
                return None
            d = self.of(g)
            return b, (set(g.all_params) - set(d.effect) if d is not None else set())
        if len(out) == 1:
            d = self.of(out[0][0])
            return out[0][1], (set(out[0][0].all_params) - set(d.effect) if d is not None else set())
        return None


def is_step(fn, short):
    return short in STEPS and fn.is_public() and any(STEP.search(p) for p in fn.all_params)


def run(prog, res, tier):
    steps = options = forwarded = 0
    table = Table(prog)
    fns = [(q, fn, fn.module.name.split('.', 1)[1]) for q, fn in sorted(prog.fns.items()) if not isinstance(fn.node, ast.Lambda) and fn.parent is None]
    names = {p for q, fn, short in fns if is_step(fn, short) for p in fn.all_params if not DATA.search(p)}
    names |= {singular(p) for p in names}
    for q, fn, short in fns:
        if short not in STEPS:
            continue
        d = table.of(fn)
        step = is_step(fn, short)
        steps += step
        for p in fn.all_params:
            if step and not p.endswith('telescope_configuration') or fn.name.startswith('_') and p in names:
                options += 1
                if p not in d.effect:
                    res.add('dead', '%s:%s' % (q.split('.', 1)[1], p), pos(fn.node), 'the parameter %s of %s has no effect: nothing but its own check depends on it' % (p, fn.name))
        for p, node in d.lost:
            if step or p in names:
                res.add('lost', '%s:%s' % (q.split('.', 1)[1], p), pos(node), '%s replaces the value given as %s by "%s", which does not depend on it' % (fn.name, p, ast.unparse(node)[:70]))
        seen = set()
        for call in d.calls:
            if id(call) in seen:
                continue
            seen.add(id(call))
            g, skip = callee(prog, fn, call.func)
            todo = list(handed(prog, fn, call))
            if g is not None:
                b = bound(g, skip, call)
                if b is not None:
                    todo.append((g, b))
            ctl = d.at.get(('ctl', id(call)), frozenset())
            if not todo:
                outside = [(k.arg, k.value) for k in call.keywords if k.arg]
                if isinstance(call.func, ast.Attribute) and call.func.attr.startswith('set_') and len(call.args) == 1:
                    outside.append((call.func.attr[4:], call.args[0]))
                for p, e in outside:
                    if p in names and p in fn.all_params and not DATA.search(p):
                        forwarded += 1
                        if p not in d.at.get(id(e), frozenset()) | ctl:
                            res.add('forward', '%s:%s:%s' % (q.split('.', 1)[1], dotted(call.func), p), pos(call), '%s sets %s of %s to %s, which does not depend on its own option %s' % (fn.name, p, dotted(call.func), ast.unparse(e)[:60], p))
            for g, b in todo:
                for p in g.all_params:
                    mine = [x for x in fn.all_params if (x == p or singular(x) == p or singular(x) == singular(p)) and x in names]
                    if DATA.search(p) or not mine:
                        continue
                    forwarded += 1
                    if set(mine) & ctl:
                        continue
                    key = '%s:%s:%s' % (q.split('.', 1)[1], g.name, p)
                    if p not in b:
                        res.add('forward', key, pos(call), '%s calls %s without %s, so that its own option %s has no influence there' % (fn.name, g.name, p, mine[0]))
                    elif isinstance(b[p], ast.Constant) and b[p].value is None and any(x in d.effect for x in mine):
                        continue     # no restriction at this place, the option acts at another
                    elif not set(mine) & d.at.get(id(b[p]), frozenset()):
                        res.add('forward', key, pos(call), '%s passes %s as %s of %s, which does not depend on its own option %s' % (fn.name, ast.unparse(b[p])[:60], p, g.name, mine[0]))
    res.cover('steps', steps)
    res.cover('options', options)
    res.cover('forwarded', forwarded)
