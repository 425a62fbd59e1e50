NOTES = {
 'C09': 'The reader is interpreted for one generic turn of each of its loops in every world that differs in a relation the code can test: chunk smaller, equal or larger than the rest, '
        'end of the read range equal to the end of the table or not, one or several events in the chunk, requested first and last event before, at, inside, at the last event of or behind the chunk. '
        'Positions of event boundaries inside the chunk stay symbolic. This is complete for the reader because every comparison in it is between these quantities; what is not understood is followed both ways.',
 'C10': 'The constructors, property setters and `dut_attributes` of all DUT types are evaluated symbolically and compared; saving and loading are evaluated on one generic DUT per type.',
 'C12': 'select_tracks, fit_tracks and the Kalman alignment loop are evaluated once with a truth table over every flag bit and every list membership of two DUTs (up to 23 variables, bit operations on big integers), '
        'helpers followed. The stored rows must imply each requirement and be implied by all of them together; conditions the evaluator cannot read are quantified away in the direction that keeps it quiet only where the requirement holds anyway.',
 'C06': 'One rule engine (`tags.py`) for C06 and C07. A clash is reported only where both sides carry a definite tag, so values whose axis cannot be told are silent; that is the price for no false alarms. '
        'Products such as x*y, squares and sums over both axes carry their own tags. What is read from names is a convention that the whole package keeps; coords.py lists the exceptions with reasons.',
 'C07': 'The three known findings are lines of the legacy calculate_residual_correlation. Names ending in the DUT index tell which DUT a column, telescope entry or conversion belongs to; two different index expressions are only told apart '
        'if neither is an alias of the other.',
 'C05': 'Every integer is a DUT number, a position in one named list, or unknown; lists get a class from what they are indexed with by the length check, by how they are built and by the classes of the callers of private functions. '
        'Only two definite and different classes are a clash. Defects found and repaired with it: Kalman smoother reference states (0f04a2b), find_tracks column names of DUT 10 and up (e388669), pairing of files in convert/check/mask/cluster (332aa8a).',
 'C08': 'Binning derived from the first chunk is accepted where the step documents it (result histograms); it is then required to be the same in later turns. Loops over chunks are recognised by what they read (nrows, the event-aligned reader, '
        'range with a step used as slice or stop). Defects found and repaired with it: 3269d79 (mean histograms with empty bins in one chunk), f9c6f4e (in-pixel hits, select_valid_hit), 6139d71 (chi2 plot).',
 'C20': 'A parameter, what is inside it, and values that are new are told apart; list(), slices of lists, copies, comparisons and arithmetic make new values, np.asarray, slices of arrays, iteration and attributes do not. '
        'A change reached through any number of calls is reported at the step whose argument it changes. Defects found and repaired with it: align, fit_tracks, align_kalman, calculate_transformation and calculate_efficiency changed the lists of the caller.',
 'C19': 'Deliberately weak: dependence, not correctness, so that any rewriting that keeps the value flowing is silent. The three known findings are options that no code of the step uses. Options of `self.*` methods of analysis classes are followed as well. '
        'Defects found and repaired with it: align and align_kalman did not pass chunk_size on, align_kalman plotted with plot=False.',
 'C04': 'R1 runs every step with plot=False through all calls (constants True, False and None only), so a plot file that is created anywhere below is found, and so is a plot function called without a PDF that does not return first. '
        'R2 takes a branch on plot that ends the function or the turn of a loop into account; files that are made and removed under the test of plot (the residuals in align) do not count. Defect found and repaired with it: 6b2ace3.',
 'C11': 'Names are templates: numbers and unknown text are wildcards, so a column made with %d matches every DUT, and a name that cannot be resolved at all matches everything (silent). Columns are checked against the very table where '
        'the row or array can be traced to it, and against any table of the package otherwise. The fields that pymosa and pyBAR write are listed in the rule. The three known findings are lines of the legacy calculate_residual_correlation.',
 'C18': 'Lengths are symbols, so one scenario stands for every wrong length; a malformed entry is tried as first, inner and last entry, all other arguments are unknown, and every undecided condition is followed both ways. '
        'A path counts as accepted when it opens a file, makes a pool or a PDF, calls another step or returns. Which parameter holds one entry for what is a table in the rule, taken from the documentation. DUT numbers in the other steps are not checked by the code '
        '(a KeyError follows later), so the property claims them only where the code does. Handlers for a fit or peak search that failed are listed with reasons. Defects found and repaired with it: align_kalman.',
 'C01': 'A generator counts as seeded only on paths where a seeding with a value came first inside the step; workers and compiled code start unseeded, a generator object made with a seed is accepted. '
        'Taint is reported where a value becomes data (stored, returned by a step, given to library code), not in logging or comparisons. Only sets that evidently hold texts count, sets of DUT numbers have one order. '
        'For uninitialised arrays a write that may be total is accepted, so only arrays that are never written, written under one selection without its complement, written in one slice, or added to are reported. '
        'find_ransac draws without a seed but no step uses it.',
 'C21': 'The rows an expression holds are described by the conditions that selected them; a count is the conditions, coordinates and binning, so the same selection written in another way has the same description. '
        'A loop over chunks is passed once with unknown counts before it, so the first and the later chunks are both seen; the resizing of the in-pixel histograms between chunks is not modelled, plot_utils is not entered, '
        'and histograms divided by their own sum are not ratios. A condition that cannot be described keeps its text and only equals itself.',
 'C15': 'The functions are interpreted over small matrices whose entries are polynomials in symbols, sines, cosines and square roots, reduced by sin^2 + cos^2 = 1 and root^2 = radicand: two results with the same normal form are equal for all values, '
        'and a different normal form is only reported if it stays different after the reduction, so rewriting the algebra is silent. Arithmetic is exact (no rounding), comparisons against thresholds of 1e-9 and below count as == 0, values are generic '
        'and the special cases (beta = +-pi/2 and 0, axis directions, a parallel line, parameters that are not given) are separate runs. A condition the values do not decide is followed both ways. Code the interpreter does not model leaves the obligation undecided, '
        'never violated; MINIMUM keeps enough of them decided. The pixels of the Diamond types overlap on purpose and are excluded.',
 'C14': 'Indices and sizes are compared through upper bounds of differences (index - size <= c), with products of sizes as units for the linear index of a histogram and conditions such as "both finished" kept per path; loops are iterated to a fixed point with widening. '
        'A requirement on the lengths that a function passes (the result has as many rows as the first array) is handed to the Cython layer and from there to the Python callers. C++ helper functions are inlined; a statement the interpreter does not know makes the function '
        '"not decided", never violated. Assumed: sizes and indices are exact integers (no wrap at 2**32), event numbers given to searchsorted are sorted, event_range is not negative, and the arrays of one chunk that find_tracks builds have the same rows (table CONTRACT in c14.py). '
        'Indices that a numba kernel reads from an array and uses as a histogram bin, and the result rows of merge_on_event_number, depend on data of the caller and are not covered.',
}
