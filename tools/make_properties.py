"""Regenerates /verif/properties.jsonl (the texts live here, one entry per property)."""
import json, os
P = 'beam_telescope_analysis/'
HA, DA, TA, RA = P+'hit_analysis.py', P+'dut_alignment.py', P+'track_analysis.py', P+'result_analysis.py'
AU, DS, GU, KA, PL = (P+'tools/'+f for f in ('analysis_utils.py', 'data_selection.py', 'geometry_utils.py', 'kalman.py', 'plot_utils.py'))
SMC, ST, TE, DU = P+'tools/smc.py', P+'tools/storage_utils.py', P+'telescope/telescope.py', P+'telescope/dut.py'
CPY, CPM, HDR = P+'converter/pybar_fei4_converter.py', P+'converter/pymosa_converter.py', P+'cpp/AnalysisFunctions.h'
TESTS = ("The stable tests call a handful of array helpers and rotation matrices; none runs a pipeline step "
         "(their fixtures are unavailable), ")

def prop(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=list(observe), hook_needed=None))

PROPS = [
 prop('C01', 'Repeating a step on the same input gives the same output',
  "Running any conversion, analysis, alignment or selection step again with the same input files and arguments yields the same output data. "
  "Every random draw a step makes, in the calling process or in a worker, follows a fixed seeding inside that same step; the simulation seeds its generator when it is constructed. "
  "Results of parallel workers are collected in the order they were asked for. No data depend on the clock, the process, object identities, the order of a set of texts or of a directory listing, "
  "on memory that was not written, on module or class variables or default values changed by an earlier call, or on an output or intermediate file left by an earlier run "
  "(only align and align_kalman keep, as documented, an existing output configuration for DUTs that are not aligned).",
  ['inputs', 'histories', 'schedules'], "all inputs, all earlier call histories in the process, all worker schedules",
  TESTS + "and repeating a call in one fresh process cannot show dependence on earlier history or on scheduling.",
  [TA, DS, DA, SMC, P+'tools/simulate_data.py'],
  [('fixed seed before each sampling of events', 'find_tracks, fit_tracks, select_tracks'),
   ('ordered parallel map', 'smc.SMC, fit_tracks Pool.map')]),
 prop('C02', 'Steps never modify the files they are given as input',
  "No step writes to, replaces, renames or deletes a file passed to it as input: inputs are opened for reading only. "
  "Everything a step writes goes either to the output name the caller gave or to a default name that differs from the name of every input: "
  "a name derived from an input name by a suffix, or the fixed name for that kind of data in the directory of the input. "
  "The steps that check the output name they are given (prealign, align, align_kalman, combine_files) refuse one that is also an input. "
  "align_telescope and calculate_transformation are the only exception: they update the telescope configuration they are given.",
  ['inputs', 'configurations'], "all steps, all input file names, all combinations of optional output names",
  TESTS + "and a test that samples a few file names cannot show that no code path opens an input for writing.",
  [HA, DA, TA, RA, DS, PL, CPY, CPM, ST],
  [("read-only open of inputs", "every tables.open_file on an input"), ('suffix added to derived names', "os.path.splitext(input)[0] + '_suffix.h5'")]),
 prop('C03', 'Output is written to and returned under the requested name',
  "When the caller names an output file, the step writes its result to exactly that file and returns that name; "
  "when the caller leaves it out, the step derives a name from its input, writes to it and returns it. "
  "Steps that process several DUTs pair each input name with the output name at the same position and return one name per processed DUT, in the same order. "
  "(calculate_purity returns the purities instead, calculate_residual_correlation returns nothing.)",
  ['inputs', 'configurations'], "all steps, with every output parameter given or omitted",
  TESTS + "so neither branch of any output-name choice is executed by a test.",
  [HA, DA, TA, RA, DS, CPY, CPM], [('output name default', 'start of every step'), ('returned file name', 'end of every step')]),
 prop('C04', 'Plotting never changes results and can be switched off',
  "The data a step writes and returns are the same with its option plot on and off. "
  "With plot=False no plot file is created, neither by the step nor by the steps it calls. "
  "Plot functions (tools/plot_utils.py) never alter the arrays, lists or objects handed to them.",
  ['inputs', 'configurations'], "all steps with a plot option, all data",
  TESTS + "and no test compares a run with plots to one without.",
  [HA, DA, TA, RA, PL], [('plot guard', 'if plot: / output_pdf None'), ('plot functions only read', 'tools/plot_utils.py')]),
 prop('C05', 'Per-DUT data stays with its DUT for any selection and order of DUTs',
  "For every choice and order of selected DUTs, the input file, output file, setting, table column, flag bit and array slot used for a DUT are that DUT's own. "
  "The number that identifies a DUT in the telescope is never used as its position in a selection-ordered list, and a position in such a list, or in beam order along z, is never used as a DUT number.",
  ['inputs', 'configurations'], "all telescopes, all DUT selections in any order, all per-DUT settings",
  TESTS + "and selections used in examples list all DUTs in ascending order, for which position and number coincide.",
  [HA, DA, TA, RA, DS, KA], [('per-DUT lists indexed by position in select_duts', 'all steps'), ('columns, bits and telescope entries indexed by DUT number', 'all steps'), ('per-plane arrays indexed by DUT number while looping in z order', 'kalman.py, _find_tracks')]),
 prop('C06', 'x and y quantities never cross',
  "A quantity belonging to one axis (x or column, y or row, z; alpha, beta, gamma for rotations) is never passed, stored, returned, compared or subtracted as the same kind of quantity of another axis. "
  "This holds for hit positions, sizes, extents, slopes, residuals, resolutions, cuts, histograms and alignment parameters.",
  ['inputs'], "all data and all parameter values",
  TESTS + "and with square pixels or symmetric settings a swap is invisible in any sampled output.",
  [HA, DA, TA, RA, DS, GU, DU, AU], [('axis-named columns, parameters and attributes', 'whole package'), ('index 0 is x, index 1 is y in 2-tuples', 'resolution, cut and range parameters')]),
 prop('C07', 'Local and global coordinates never mix; residual is hit minus track',
  "A position or direction in a DUT's local frame is never compared with, subtracted from, stored as or passed as one in the global frame; every change of frame goes through the transformation of the DUT the data belongs to. "
  "Every residual is measured hit minus track intersection, in one frame.",
  ['inputs', 'configurations'], "all telescopes geometries and data",
  TESTS + "and for an unrotated DUT at the origin the two frames coincide, so samples hide the mix-up.",
  [TA, RA, DA, DS, DU, HA], [('conversion helpers of the DUT', 'dut.py local_to_global_position and relatives'), ('residual definition', 'calculate_residuals, calculate_efficiency, select_tracks, calculate_transformation')]),
 prop('C08', 'Chunked results accumulate over the whole input',
  "Histograms, counters, sums and averages that a step accumulates in a loop over chunks, and then stores, plots or returns, include every chunk of the input: no chunk overwrites, restarts or skips what earlier chunks contributed, and later chunks are binned as the first one was. "
  "A running average is combined with weights that are the entry counts of exactly the parts being averaged.",
  ['inputs', 'configurations'], "all inputs and all chunk sizes",
  TESTS + "and default chunk sizes put small samples in a single chunk, where restarting an accumulator has no effect.",
  [HA, DA, TA, RA, AU, PL, SMC], [('initialise once, then add', 'calculate_residuals, calculate_efficiency, correlate, check_file, mask_pixels'), ('count histogram updated after the averages', 'calculate_residuals, calculate_efficiency')]),
 prop('C09', 'Events are never split between chunks and none is lost or repeated',
  "Every step that works event by event receives each event whole: chunks read from an event table end at event boundaries, consecutive chunks continue exactly where the previous one ended, and the last event of the table is delivered. "
  "This holds for any chunk size and any requested range of events.",
  ['inputs', 'configurations'], "all event tables and chunk sizes",
  TESTS + "and sampled tables fit into one chunk.",
  [AU, HA, TA, DA, DS, SMC], [('event-aligned reader', 'analysis_utils.data_aligned_at_events'), ('event-aligned work splitting', 'smc.SMC')]),
 prop('C10', 'A telescope configuration survives saving and loading',
  "Saving a telescope and loading the file restores every DUT under its number with its type and every one of its settings, for all DUT types. "
  "Every setting a DUT type takes at construction is among the settings it saves, what is saved is plain serialisable data, and loading accepts exactly what saving writes.",
  ['inputs', 'configurations'], "all DUT types and parameter values",
  TESTS + "none saves or loads a configuration.",
  [TE, DU], [('dut_attributes table', 'every Dut class'), ('setters normalise to builtin types', 'dut.py'), ('save_configuration / load_configuration', 'telescope.py')]),
 prop('C11', 'Tables, columns and histograms are read under the names they are written',
  "Every table, array, column and attribute a step reads from a file of this package is written under that very name by the step that produces the file, with fields for all it needs, and every array is stored under the name of what it contains. "
  "Event numbers are stored with 64-bit width in every table.",
  ['inputs', 'configurations'], "all files exchanged between steps, all DUT counts",
  TESTS + "so no producer and consumer are ever run together.",
  [HA, TA, RA, DA, DS, PL, CPY, CPM, P+'cpp/data_struct.py'], [('node names and column lists', 'all steps')]),
 prop('C12', 'Track selections require every requested DUT and no forbidden one',
  "select_tracks stores a track only if it has a hit in every DUT of select_hit_duts, no hit in any DUT of select_no_hit_duts, the quality and the isolated-hit flag set for every DUT listed for it that has a hit, and the isolated-track flag set for every listed DUT with a hit; a track that meets all requirements is removed only by the query or the limit on events. "
  "fit_tracks stores the tracks, and the Kalman alignment uses the tracks, that have a hit in every DUT of select_hit_duts; fit_tracks also needs min_track_hits hits among the DUTs used for the fit. "
  "Bit n of the hit, quality, isolated-track and isolated-hit flag is set under the condition of that flag for DUT n, and each flag column of the stored tracks holds the flag of its name.",
  ['inputs', 'configurations'], "all flag patterns and DUT selections",
  TESTS + "and with all hits present every combination rule gives the same answer.",
  [TA, DS, RA], [('masks with one bit per DUT', 'fit_tracks, select_tracks, create_results_array, find_tracks'), ('all-of test on the mask', '(flag & mask) == mask')]),
 prop('C13', 'Parallel processing keeps chunk order and reports failures',
  "Processing a table in parallel writes every chunk's result exactly once and in the order of the input, gives the same output as processing serially, and adds histograms element by element. "
  "If the processing function, a worker or the writer fails, the call raises an error instead of hanging or returning as if complete.",
  ['schedules', 'fault_sequences', 'inputs'], "all worker interleavings and failures in reader, worker or writer",
  TESTS + "none starts the parallel machinery, and sampling cannot cover worker schedules or failures.",
  [SMC], [('SMC', 'tools/smc.py')]),
 prop('C14', 'Compiled kernels stay inside their arrays',
  "The compiled event and histogram functions (AnalysisFunctions.h) never read or write outside the arrays they are given, for every content and every length of them, also for empty arrays. "
  "The Cython layer and the callers pass each array with its own length, contiguous and of the matching element type, and results that are large enough; a histogram index outside the requested shape raises an error in the caller. "
  "The numba kernels that walk through hits by event number (mapping clusters, correlating hits, finding tracks, the hits that are merged) keep their row indices inside the arrays.",
  ['inputs'], "all arrays including empty ones and out-of-range values",
  "The stable tests call the kernels with small valid arrays and one out-of-range case; memory safety is about every length and value.",
  [HDR, P+'cpp/analysis_functions.pyx', AU, TA], [('array accesses', 'AnalysisFunctions.h'), ('except + and size arguments', 'analysis_functions.pyx'), ('callers and numba kernels', 'analysis_utils.py, track_analysis.py')]),
 prop('C15', 'Frame transformations are rigid and invert each other',
  "For every position and set of rotation angles: the rotations of geometry_utils preserve lengths and handedness and are the rotation about x, then y, then z; the transformation from the global to the local frame is the inverse of the one from local to global, and the angles recovered from a rotation (euler_angles) give that rotation again, also for beta = +-90 degree. "
  "The conversions of a DUT between local and global coordinates use its own position and angles or, for each of them, the value given instead (also 0), and going there and back is the identity. For every pixel type but the Diamond ones, converting a pixel index to a local position and back is the identity from edge to edge of the sensor, neighbouring pixels are one pixel size apart and the matrix is centred. "
  "The intersection of a line with a DUT is on the line and in the plane of the DUT, and nan for a parallel line; a direction converted to spherical coordinates and back is the same. Callers pass each position and angle as what it is (alpha as alpha), all of the same DUT.",
  ['inputs'], "all positions and angles, all pixel geometries",
  "The stable tests check a few angles; the identity must hold for all of them and for every DUT type.",
  [GU, DU, TA, DA], [('rotation and translation matrices, euler_angles, intersections', 'geometry_utils.py'), ('index and position conversions', 'dut.py'), ('callers', 'track_analysis.py, dut_alignment.py, result_analysis.py, hit_analysis.py')]),
 prop('C16', 'No combination of options runs into an undefined name or a wrong call',
  "For non-empty input tables and every combination of options, flags, file kinds and data-dependent branches, every variable used has been given a value before, every name, module member and object attribute referred to exists, and every call inside the package passes arguments the callee accepts.",
  ['inputs', 'configurations'], "all option combinations and data-dependent branches",
  TESTS + "so an unbound variable or misspelt name in any branch of a step stays unnoticed.",
  [HA, DA, TA, RA, AU, DS, GU, KA, PL, SMC, ST, TE, DU, CPY, CPM], [('definite assignment', 'all functions'), ('call signatures', 'all in-package calls')]),
 prop('C17', 'Files, process pools and PDF writers are released on every exit',
  "Every data file, PDF writer, process pool and worker a step opens is closed or terminated on every way out of the step, including errors raised half-way. "
  "The temporary files an alignment creates are removed when it finishes.",
  ['fault_sequences', 'inputs'], "all exits, including an exception at any point while a resource is open",
  TESTS + "and no test injects a failure between opening and closing.",
  [HA, DA, TA, RA, DS, PL, SMC, CPY, CPM, ST], [('with blocks and finally clauses', 'all steps')]),
 prop('C18', 'Malformed per-DUT arguments are rejected, never silently used',
  "A list with one entry per selected DUT, per telescope DUT or per set of DUTs to align is rejected with an error, before any data is processed, if it has any other number of entries; so is a list for which one entry does not have the documented form "
  "(two values for distances, resolutions, areas, ranges and limits; a list of DUTs for the selections of DUTs; one value per DUT of the set in the alignment), wherever that entry is and whatever the other arguments are. "
  "DUT numbers that are not in the telescope are rejected in select_duts of the steps on hits and in select_extrapolation_duts of the track finder. "
  "Errors are not swallowed: no handler for all exceptions just continues, and an error that the package itself raises while processing is not dropped.",
  ['inputs', 'configurations'], "all argument lists of all lengths and shapes, all steps",
  TESTS + "and valid arguments never reach a validation branch.",
  [HA, DA, TA, RA, DS], [('argument validation', 'beginning of every step')]),
 prop('C19', 'Every option reaches the code it controls',
  "Every parameter of a step takes effect: the value given by the caller influences what the step does beyond being checked. "
  "Where a step hands its work to another function of the package that has the same option (for each DUT, each chunk or each iteration), what it passes for that option comes from the value its own caller gave, and not from the default of that function, another parameter or a constant. "
  "One value given for all DUTs is used for each of them.",
  ['inputs', 'configurations'], "all parameters of all steps and all values",
  TESTS + "and defaults hide an option that is dropped on the way.",
  [HA, DA, TA, RA, DS, PL], [('forwarding by name', 'convert, check, mask, cluster, align, align_kalman and the functions they call')]),
 prop('C20', 'Arguments passed to a step are left unchanged',
  "Lists, dictionaries and arrays that a caller passes to a step (a public function that takes a telescope configuration or data files) have the same contents after the call as before, at every level of nesting, so that they can be passed on to the next step.",
  ['inputs', 'histories'], "all steps, all argument values, calls made one after another with the same objects",
  TESTS + "and single calls with literal arguments cannot show a changed argument.",
  [HA, DA, TA, RA, DS, AU, SMC], [('copies before modification', 'all steps')]),
 prop('C21', 'Efficiency and purity count passing entries within the entries of the total',
  "Everything counted as passing in an efficiency or purity (track with associated hit, pure hit) is also counted in the corresponding total, in the same region and binning, and the ratio divides the passing count by that total. "
  "An entry passes only if the distance of hit and track is within the given limits in both coordinates. "
  "The total is selected without regard to what decides passing (for the efficiency the hit of the DUT, for the purity the track) and is also counted in chunks of data in which nothing passes; "
  "an average of ratios over chunks is weighted with the number of entries in the total.",
  ['inputs'], "all data, cuts and regions",
  TESTS + "and a passing sample larger than its total needs unusual cuts to show.",
  [RA, AU], [('selection masks', 'calculate_efficiency, calculate_purity'), ('efficiency estimate', 'get_mean_efficiency')]),
 prop('N01', 'Track fits minimise the distance to the hits',
  "The line and Kalman fits return the track parameters that minimise the (weighted) squared distance to the selected hits.",
  ['inputs'], "all hit configurations", "Numerical optimum over real-valued inputs; a few samples do not settle it.",
  [TA, KA], [('line_fit_3d, Kalman filter', 'track_analysis.py, kalman.py')]),
 prop('N02', 'Alignment converges to the true geometry',
  "Prealignment and alignment recover the DUT positions and angles within the statistical precision of the data.",
  ['inputs'], "all data sets", "Statistical statement over runtime data.", [DA], [('prealign, align, align_kalman', 'dut_alignment.py')]),
 prop('N03', 'Clusters contain exactly the adjacent hits of an event',
  "Two hits are in the same cluster exactly if they are connected by a chain of hits within the configured distances in column, row and frame.",
  ['inputs'], "all hit patterns", "The set of hit patterns is unbounded.", [HA], [('HitClusterizer (third-party)', 'hit_analysis.cluster_hits')]),
 prop('N04', 'Efficiency intervals have their nominal coverage',
  "The reported uncertainty interval of an efficiency contains the true value with the stated probability.",
  ['inputs'], "all counts", "Statistical coverage over all counts.", [AU], [('get_mean_efficiency', 'analysis_utils.py')]),
 prop('N05', 'Memory use is bounded by the chunk size',
  "Peak memory of a step grows with the chunk size and the number of DUTs, not with the length of the input file.",
  ['inputs'], "all input lengths", "Needs inputs larger than any test fixture.", [HA, TA, RA], [('chunked reading', 'all steps')]),
]
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
