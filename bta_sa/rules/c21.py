"""C21: what passes is counted within what is counted in total.

The steps that calculate an efficiency or purity are interpreted over row selections (counts.py); every quotient of two counts is an obligation.
R1 within - the passing entries fulfil every condition of the total, are counted with the same coordinates, binning and number of times, and whenever passing entries are added the total is
R2 region - the conditions passing entries fulfil beyond those of the total are about the association of hit and track, not about the region, the mask or the chunk
R3 unbiased - the total is selected, and added, without regard to what decides passing: for an efficiency the hit of the DUT, for a purity the track
R4 distance - passing requires a cut on the distance of hit and track in both coordinates
R5 average - an average kept over chunks is weighted with the number of entries of the total, which is updated by those of the chunk
"""
import re

from ..counts import Walk, Cnt, text, FULL

ID = 'C21'
TECHNIQUE = 'abstract interpretation over row selections: the conditions, coordinates and binning of every numerator and denominator, with path conditions'
MINIMUM = {'ratios': 3}
LEVEL_NOTE = 'static analysis of every quotient of counts in the two steps; the counts of the first and later chunks are taken from one turn of the loop, resizing of the in-pixel histograms between chunks is not modelled'
# step -> (columns that decide whether an entry passes, by prefix: hit of the DUT or track)
HIT = ('x_dut', 'y_dut', 'z_dut', 'charge_dut', 'frame_dut', 'n_hits_dut', 'cluster_shape', 'n_cluster', 'cluster_ID', 'hit_flag', 'quality_flag', 'isolated_hit', 'x_err', 'y_err')
TRACK = ('offset_', 'slope_', 'track_chi', 'quality_flag', 'isolated_track')
STEPS = {'result_analysis.calculate_efficiency': ('hit', HIT, TRACK), 'result_analysis.calculate_purity': ('track', TRACK, HIT)}
# entry by entry: the angles of each track
ROWWISE = {'get_angles', 'data_aligned_at_events', 'voronoi_finite_polygons_2d'}


def run(prog, res, tier):
    for k, v in (l.strip().split(' - ', 1) for l in __doc__.splitlines() if l[:1] == 'R' and l[1:2].isdigit()):
        res.rule(k, v)
    seen, done = [], []
    for name, (what, deciding, other) in STEPS.items():
        fn = prog.fn(name)
        if fn is None:
            continue
        c = Client(prog, fn, res, what, deciding, other)
        w = Walk(prog, fn, c, ROWWISE, {'plot_utils'})
        w.run(fn.node)
        done.append(name)
        seen += c.seen.values()
    res.cover('ratios', sorted(set(seen)))
    res.cover('steps', done)


def has(cols, prefixes):
    return {c for c in cols if any(c.startswith(p) for p in prefixes)}


def plain(t):
    """Text with the abbreviations written out (one level)."""
    return re.sub('#[0-9a-f]{12}', lambda m: FULL.get(m.group(), m.group()), t)


def show(atoms):
    return '; '.join(sorted(plain(a.text)[:130] for a in atoms)) or 'none'


class Client(object):
    def __init__(self, prog, fn, res, what, deciding, other):
        self.prog, self.fn, self.res, self.what, self.deciding, self.other = prog, fn, res, what, deciding, other
        self.seen = {}
        self.averages = []

    def bad(self, rule, node, walk, what, msg):
        at = walk.stack[0] if walk.stack else node
        where = '%s:%d' % (self.fn.module.rel, at.lineno)
        via = ' (in %s)' % walk.fn.name if walk.stack else ''
        self.res.add(rule, '%s %s' % (self.fn.name, what), where, msg + via)

    def ratio(self, num, den, node, walk):
        if not num.terms or not den.terms or walk.tests:
            return
        if den.summed and not num.summed and set(num.terms) == set(den.terms):
            return  # a distribution normalised to one
        at = walk.stack[0] if walk.stack else node
        for (coords, bins, sel), (conds, times) in sorted(num.terms.items(), key=lambda x: (x[0][0], x[0][1], sorted(a.text for a in x[0][2]))):
            label = 'passing by [%s]' % (plain(coords)[:100] or 'number')
            key = (at.lineno, label)
            same = [(k, v) for k, v in den.terms.items() if k[0] == coords and k[1] == bins]
            if not same:
                self.seen[key] = '%s %s' % (self.fn.name, label)
                self.bad('R1 within', node, walk, label + ' not the total', 'the passing count is by [%s], %s, the total by %s'
                         % (plain(coords)[:90], plain(bins)[:90], ' or '.join('[%s], %s' % (plain(k[0])[:90], plain(k[1])[:90]) for k in den.terms)))
                continue
            best = min(same, key=lambda kv: (len(kv[0][2] - sel), -len(kv[0][2] & sel)))
            (_, _, tsel), (tconds, ttimes) = best
            self.seen[key] = '%s %s: conditions of the total [%s], of passing in addition [%s]' % (self.fn.name, label, show(tsel), show(sel - tsel))
            if tsel - sel:
                self.bad('R1 within', node, walk, label + ' conditions', 'passing entries need not fulfil a condition of the total: %s' % show(tsel - sel))
            if times > ttimes:
                self.bad('R1 within', node, walk, label + ' times', 'passing entries are counted %d times, those of the total %d times' % (times, ttimes))
            free = [c for c in tconds - conds if not implied(c, sel)]
            if free:
                self.bad('R1 within', node, walk, label + ' added', 'the total is only added when %s, passing entries also otherwise' % ', '.join(map(repr, free))[:200])
            extra = sel - tsel
            for a in sorted(extra, key=lambda a: a.text):
                if not has(a.may, self.deciding):
                    self.bad('R2 region', node, walk, label + ' ' + a.text[:80], 'passing entries are restricted by a condition that is not about the %s and the total is not: %s' % (self.what, show([a])))
            for a in sorted(tsel, key=lambda a: a.text):
                d = has(a.may, self.deciding)
                if d:
                    self.bad('R3 unbiased', node, walk, label + ' ' + a.text[:80], 'the total is selected by the %s (%s): %s' % (self.what, ', '.join(sorted(d)), show([a])))
            for c in sorted(tconds, key=repr):
                if has(c.cols, self.deciding) and not implied(c, tsel):
                    self.bad('R3 unbiased', node, walk, label + ' added ' + repr(c)[:80], 'whether the total is added depends on the %s: %s' % (self.what, repr(c)[:150]))
            got = frozenset().union(*[a.must for a in sel]) if sel else frozenset()
            may = frozenset().union(*[a.may for a in extra]) if extra else frozenset()
            need = [p for p in ('x_dut', 'y_dut', 'offset_x', 'offset_y') if not has(got, (p,))]
            if not [c for c in may if 'cut_distance' in c]:
                need.append('the cut value')
            if need:
                self.bad('R4 distance', node, walk, label, 'the passing entries are not selected by the distance of hit and track: %s missing' % ', '.join(need))
        prod = [b for b in num.base if getattr(b, 'factors', ())]
        if prod and den.base:
            old = {text(b) for b in den.base}
            for p in prod:
                if not old & {text(f) for f in p.factors}:
                    self.bad('R5 average', node, walk, 'average weight ' + p.text[:60], 'the previous average is weighted with %s, the total holds %s' % (p.text[:80], ', '.join(sorted(old))))
            self.averages.append((num, den, node, walk.fn, list(walk.stack)))
        elif den.base and num.base:
            pass  # both hold what was counted before this turn
        elif den.base or num.base:
            b = (num.base or den.base)[0]
            self.bad('R1 within', node, walk, 'other summands ' + text(b)[:60], 'one of the two counts holds more than the other: %s' % text(b)[:100])

    def turn(self, walk):
        """At the end of a turn: the weight of an average has been updated."""
        rest = []
        for num, den, node, fn, stack in self.averages:
            old = {text(b) for b in den.base}
            ok = False
            vals = [v for v in list(walk.env.values()) + list(walk.elems.values()) if isinstance(v, Cnt)]
            for v in vals:
                if {text(b) for b in v.base} == old:
                    if set(v.terms) == set(den.terms):
                        ok = True
            if not ok:
                w = walk
                self.bad('R5 average', node, w, 'average ' + ', '.join(sorted(old)), 'the weight %s is not updated by the entries of the total' % ', '.join(sorted(old)))
        self.averages = rest


def implied(c, sel):
    """The condition holds whenever there is an entry with these conditions."""
    return c.sel is not None and c.pol and c.sel <= sel
