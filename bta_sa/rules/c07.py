"""C07: local and global coordinates never mix; residuals are hit minus track.

The same abstract interpretation as C06 with other tags: frame (local, global), kind (hit, track position, direction), the DUT number a column or
transformation belongs to, and, in the correlation with a reference DUT, the side.  Columns of hit, cluster and track tables are local; the
conversions state what they take and give.
R1 assign, append, return, argument - a value of one frame is never stored, collected, returned or passed as one of the other; a hit position never as a track position or direction
R2 compare, subtract, add, joined, histogram - operands share the frame
R3 sign           - a difference of a hit and a track position is hit minus track (squares and absolute values of it may have either sign)
R4 owner          - data of a DUT is converted by that DUT, a reference hit by the reference DUT
R5 transformation - the positions and angles given for one transformation are those of one DUT, the DUT that is asked to convert
R6 vector         - directions are converted without translation, positions with it, and the two are not mixed in one conversion
"""
import ast
import re
from ..coords import CFG, apply, CONTRACTS, PAIRS, ELEM, RED, TRIPLES, LISTS
from ..tags import Config, tokens
ID = 'C07'
TECHNIQUE = 'abstract interpretation of every function over frame, kind and owner tags seeded from columns, names and conversion contracts; clashes where two tagged values meet'
MINIMUM = {'functions': 200, 'tag_meetings': 600}
LEVEL_NOTE = 'static analysis of all functions of the analysis, alignment, telescope and tool modules; values whose frame is told neither by a name nor by a column or conversion (state vectors of the Kalman filter, products with matrices) carry no tag and are not judged'
GLOBAL = {('calculate_transformation', 'offsets'), ('calculate_transformation', 'slopes')}      # the line of the track that the DUT is moved to


def sided(fn):
    """Functions that correlate a DUT with a reference DUT."""
    if not hasattr(fn, '_sided'):
        fn._sided = sided_(fn)
    return fn._sided


def sided_(fn):
    return {'ref', 'dut'} <= set(fn.all_params) or {'ref_index', 'dut_index'} <= {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)}


def columns(text, t, fn):
    t = dict(t)
    if re.fullmatch(r'(mean_)?[xyz]', text):
        t['frame'] = 'local'
    m = re.fullmatch(r'([xyz])(_err)?_dut_.*', text)
    if m:
        t['frame'] = 'local'
        if not m.group(2):
            t['kind'] = 'hit'
    m = re.fullmatch(r'(offset|slope)_[xyz](_.*)?', text)
    if m:
        t['frame'] = 'local'
        t['kind'] = 'track' if m.group(1) == 'offset' else 'direction'
    return by_name(text, t, fn)
def by_name(name, t, fn):
    t = dict(t)
    toks = tokens(name)
    if toks and toks[0] in ('ref', 'dut') and t.get('axis') and sided(fn) and name not in ('ref', 'dut'):
        t['side'] = toks[0]
    if sided(fn) and name in ('ref', 'dut') and name in fn.all_params:
        t['side'] = name
    if re.fullmatch(r'(ref|dut)_[xyz]_pos', name) and sided(fn) or (fn.name, name) in GLOBAL:
        t['frame'] = 'global'
    if toks[:1] == ['hit'] and len(toks) > 1 and toks[1] in 'xyz':
        t['kind'] = 'hit'
    if toks[:1] == ['translation'] and toks[1:2] and toks[1] in 'xyz':
        t['frame'] = 'global'
    if 'slope' in toks or 'slopes' in toks:
        t['kind'] = 'direction'
    if 'intersection' in toks or 'intersections' in toks:
        t['kind'] = 'track'
    return t
C = Config(pairs=PAIRS, contracts=CONTRACTS, columns=columns, names=by_name, elementwise=ELEM, reducers=RED, triples=TRIPLES, lists=LISTS)
def run(prog, res, tier):
    apply(prog, res, ('frame', 'kind', 'dut', 'side'), C, lambda rule, what, a, b, fn: '%s: %s in %s meets %s' % (what, b, fn.name, a))
