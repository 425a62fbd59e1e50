"""Project knowledge of the coordinate rules: which names are pairs, what the conversions take and give, which functions keep the tags of their argument."""
import re

from .loader import pos
from .tags import Config, Tagger, V

MODULES = ['hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis', 'telescope.dut', 'telescope.telescope', 'tools.data_selection',
           'tools.geometry_utils', 'tools.analysis_utils', 'tools.plot_utils', 'tools.kalman', 'tools.residuals']
AX = lambda a, **k: V(dict(k, axis=a))
def triple(frame=None, **k):
    return V({'frame': frame} if frame else {}, [V(dict(k, axis=a, frame=frame)) for a in 'xyz'])
P = [('x', V({'axis': 'x'})), ('y', V({'axis': 'y'})), ('z', V({'axis': 'z'}))]
def fr(f):
    return [(n, v.with_(frame=f)) for n, v in P]
IDX = [('column', V({'axis': 'x'})), ('row', V({'axis': 'y'}))]
LINE = [('line_origins', V({'frame': 'global'})), ('line_directions', V({'frame': 'global', 'kind': 'direction'}))]
CONTRACTS = {
    'index_to_local_position': (IDX, triple('local')),
    'index_to_global_position': (IDX, triple('global')),
    'local_position_to_index': (fr('local'), V({}, [AX('x'), AX('y')])),
    'global_position_to_index': (fr('global'), V({}, [AX('x'), AX('y')])),
    'local_to_global_position': (fr('local'), triple('global')),
    'global_to_local_position': (fr('global'), triple('local')),
    'map_to_primitive_cell': (fr('local'), V({'frame': 'local'}, [AX('x', frame='local'), AX('y', frame='local')])),
    'apply_transformation_matrix': (P, triple()),
    'apply_rotation_matrix': (P, triple()),
    'get_line_intersections_with_dut': (LINE, triple('global')),
    'rotation_matrix_x': ([('alpha', V({'rot': 'alpha'}))], V()),
    'rotation_matrix_y': ([('beta', V({'rot': 'beta'}))], V()),
    'rotation_matrix_z': ([('gamma', V({'rot': 'gamma'}))], V()),
    'passthrough': {'find_inliers': (0, 'x')},
    'get_line_intersections_with_plane': (LINE, triple('global')),
}
ELEM = 'abs absolute square sqrt float int round around rint ceil floor isfinite isnan logical_not logical_and logical_or where float64 astype copy nan_to_num masked_invalid masked_array min max minimum maximum amin amax append linspace arange subtract uint32 tolist flatten ravel compressed array_equal clip deg2rad rad2deg arctan tan unique'.split()
RED = 'mean median std sum nanmean nanstd nanmedian average count_nonzero nanmin nanmax ptp percentile any all argmax argmin cumsum var diff reshape'.split()
PAIRS = 'resolution in_pixel_resolution extend_area in_pixel_extend_area pixel_size cut_distances cut_distance quality_distance isolation_distance region plot_range in_pixel_plot_range'.split()
TRIPLES = 'translation translation_average slopes offsets slope offset dut_slopes dut_intersection new_position_vector initial_position_vector'.split()
LISTS = 'resolutions in_pixel_resolutions extend_areas in_pixel_extend_areas cut_distances quality_distances isolation_distances regions efficiency_regions plot_ranges in_pixel_plot_ranges translation fit_quality_distances'.split()
PAIRS += [x for x in LISTS if x != 'translation']


def by_name(name, t, fn=None):
    m = re.fullmatch(r'[uvw]_([012])', name)
    return dict(t, axis='xyz'[int(m.group(1))]) if m else t


CFG = Config(pairs=PAIRS, contracts=CONTRACTS, elementwise=ELEM, reducers=RED, triples=TRIPLES, lists=LISTS, names=by_name,
             unnamed=[('prealign', 'find_inliers')], sixes=['track_hits'],
             skip_names=[('plot_2d_pixel_hist', 'plot_range')],
             exempt=[('euler_angles', 'assign'), ('cluster_hits', 'add'), ('find_intercept_point', 'add'), ('plot_masked_pixels', 'divide')])


def apply(prog, res, dims, cfg, label, modules=MODULES):
    """Tags every function of the modules; counts the functions and the meetings of two tagged values."""
    n = met = 0

    def report(fn, rule, node, what, a, b, dim):
        res.add(rule, '%s:%s:%s/%s' % (fn.qual.split('.', 1)[1], what[:80], a, b), pos(node), label(rule, what, a, b, fn))

    for q, fn in sorted(prog.fns.items()):
        if fn.name == '<lambda>' or not any(fn.module.name.endswith('.' + m) for m in modules):
            continue
        t = Tagger(prog, cfg, fn, dims, report).run()
        n += 1
        met += len(t.met)
    res.cover('functions', n)
    res.cover('tag_meetings', met)
