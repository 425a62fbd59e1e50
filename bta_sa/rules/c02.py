"""C02: steps never modify the files they are given as input.

R1 write   - no file that a step opens for writing, writes a plot to, renames or removes can be one of its input files:
             every such name is the output name of the caller or differs from every input name by a literal text
R2 guard   - the steps that refuse an output name equal to their input do so
R3 append  - a step that appends its arguments to the file it returns never returns an input file
Functions that open files and are only handed over as callbacks are analysed on their own.
"""
import ast

from ..loader import pipeline_fns, pos, PKG, dotted
from ..paths import results, analyse, analyse_smc, classify, open_sites, IN_PLACE, short

ID = 'C02'
TECHNIQUE = ('context-sensitive abstract interpretation of file names: every opened, plotted, renamed or removed name is a template over the '
             'parameters of the step and is compared with the input parameters')
MINIMUM = {'steps': 50, 'guards': 1, 'write_sites': 35, 'read_sites': 30, 'resolved_writes': 60, 'file_functions': 35}

LEVEL_NOTE = ('static analysis of all entry points, with the output names given and left out; input and output names chosen equal by the caller are not '
              'covered; fixed output names (Correlated.h5, Merged.h5, Track_Candidates.h5, Tracks_*.h5) are taken to differ from the input names')

# functions that open files but are not entered from a step: file, class or helper with a reason
OUTSIDE = {
    'tools.smc': 'analysed on its own (analyse_smc)',
    'tools.simulate_data': 'creates data from parameters, has no input file',
    'tools.storage_utils': 'decorator: appends to the file the step returns (rule append)',
    'tools.test_tools': 'helper of the unit tests',
    'telescope.telescope': 'entered from the steps that save a configuration',
    'setup': 'not part of the package',
}


# steps that check that the output is not one of the inputs (output, input)
GUARDS = {'dut_alignment.prealign': ('output_telescope_configuration', 'telescope_configuration'),
          'dut_alignment.align': ('output_telescope_configuration', 'telescope_configuration'),
          'dut_alignment.align_kalman': ('output_telescope_configuration', 'telescope_configuration'),
          'tools.data_selection.combine_files': ('output_file', 'input_files')}


def save_arguments(fn):
    return any((dotted(d) or dotted(getattr(d, 'func', None)) or '').split('.')[-1] == 'save_arguments' for d in fn.node.decorator_list)


def in_templates(ts):
    for t in ts or ():
        k, p, text = classify(t)
        if k == 'in':
            yield t, p, text


def elems(v, depth=0):
    """The values a returned value consists of."""
    if v is None or depth > 4:
        return
    yield v
    for x in v.seq or ():
        for y in elems(x, depth + 1):
            yield y
    if v.elem is not None:
        for y in elems(v.elem, depth + 1):
            yield y


def run(prog, res, tier):
    res.rule('write', 'a name opened for writing, renamed or removed is not an input name')
    res.rule('guard', 'prealign, align, align_kalman and combine_files raise if the output name given is the input name')
    res.rule('append', 'a function decorated with save_arguments does not return an input name')
    res.assumptions += ['the caller does not pass the same name as input and output (align, align_kalman and combine_files check it themselves)',
                        'os.path.splitext(x)[0] + "_suffix.h5" differs from x: the suffix is part of the new name only',
                        'fixed output names per kind of data (Correlated.h5, Merged.h5, Track_Candidates.h5, Tracks_<fit>.h5) are not used as input names of the step that writes them']
    writes, reads, resolved, entered = set(), set(), 0, set()
    steps = set()
    guards = 0

    def look(name, pl, deco=False, val=None):
        nonlocal resolved
        steps.add(name)
        for chain, q, n, what, ts, mode in pl.sinks:
            w = what != 'open' or mode not in ('r', 'rb', 'rt')
            (writes if w else reads).add((q, pos(n)))
            for c in chain:
                entered.add(c)
            entered.add(q)
            if not w or ts is None:
                continue
            resolved += 1
            for t, p, text in in_templates(ts):
                if t in pl.checked or (name, p) in IN_PLACE:
                    continue
                how = {'pdf': 'overwritten by a plot file', 'remove': 'removed'}.get(what, 'opened for writing (mode %s)' % mode)
                res.add('write', '%s:%s' % (name, p), pos(n), '%s: the file given as %s is %s here%s' % (name, p, how, ' (the derived name can be equal to it)' if text else ''))
        if deco:
            for v in elems(val):
                for t, p, text in in_templates(v.tmpls):
                    if t not in pl.checked and (name, p) not in IN_PLACE:
                        res.add('append', '%s:%s' % (name, p), name, '%s returns its input file %s, to which save_arguments appends' % (name, p))

    for mode in ('given', 'none'):
        for q, (fn, pl, val, it) in sorted(results(prog, mode).items()):
            look(short(q), pl, save_arguments(fn), val)
            if mode == 'given' and short(q) in GUARDS:
                guards += 1
                want = GUARDS[short(q)]
                if not any(classify(a)[:2] == ('out', want[0]) and classify(b)[:2] == ('in', want[1]) for a, b in pl.pairs):
                    res.add('guard', '%s:%s' % (short(q), want[0]), pos(fn.node), '%s no longer refuses %s equal to %s and would overwrite its input' % ((short(q),) + want))
    if PKG + '.tools.smc' in prog.modules:
        pl, it = analyse_smc(prog)
        look('tools.smc.SMC', pl)
    # functions that open files and are only handed over as callbacks
    nfn = 0
    for fn in prog.fns.values():
        if not open_sites(fn):
            continue
        nfn += 1
        s = short(fn.qual)
        if fn.qual in entered or any(e.startswith(fn.qual + '.') for e in entered) or s.split('.')[0] + '.' + s.split('.')[1] in OUTSIDE or s.split('.')[0] in OUTSIDE:
            continue
        pl, val, it = analyse(prog, fn, 'any')
        look(s, pl)
    res.cover('guards', guards)
    res.cover('steps', len(steps))
    res.cover('write_sites', len(writes))
    res.cover('read_sites', len(reads))
    res.cover('resolved_writes', resolved)
    res.cover('file_functions', nfn)
    res.cover('in_place', sorted('%s %s: %s' % (k + (v,)) for k, v in IN_PLACE.items()))
