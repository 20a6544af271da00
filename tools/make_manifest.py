#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EMD, EEMD, CEE = "PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"

P = []


def prop(pid, title, statement, over, text, why, mech, technique, note, files=None):
    where = [{"name": a, "where": b} for a, b in mech]
    files = files or sorted({b.split(":")[0] for _, b in mech})
    P.append(
        dict(
            line=dict(
                id=pid,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=where),
            ),
            technique=technique,
            note=note,
        )
    )


prop(
    "C01",
    "EMD is complete: the components add up to the signal",
    "For every 1-D real signal of at least two samples (any integer or float dtype and memory layout) and every "
    "configuration, the rows returned by EMD add up, at every sample, to the input within rounding error "
    "(plus 1e-8, below which the residue is not returned). The IMFs and the residue given by the accessor add up to the "
    "input within rounding error alone, whatever limit is put on the number of IMFs.",
    ["inputs", "configurations"],
    "all finite signals x time arrays x spline kinds x nbsym x stopping rules x thresholds x max_imf",
    "Tests reconstruct a handful of smooth sines with mostly default settings; completeness is per sample, input and configuration.",
    [("residue computed from the input and extracted IMFs", EMD + ":EMD.emd"), ("residue appended unless negligible", EMD + ":EMD.emd")],
    "property-based testing: invariant (sum of components) over generated signals and configurations",
    "Randomised search with shrinking; trusts numpy's arithmetic and the stated rounding bounds.",
)
prop(
    "C02",
    "EMD output shape, finiteness, IMF limit and its prefix consistency",
    "EMD always returns a finite 2-D array with one column per sample and never returns more than max_imf IMFs plus one residue row "
    "(non-positive max_imf means no limit). Limiting the number of IMFs does not change them: the IMFs found under a limit k are "
    "exactly the first IMFs of the unlimited decomposition - k of them (or all there are), or k-1 when the k-th has at most two extrema and so belongs to the residue.",
    ["inputs", "configurations"],
    "all finite signals x configurations x max_imf",
    "Tests only look at max_imf=1..2 on single signals and never compare limited with unlimited runs.",
    [("main loop counting IMFs", EMD + ":EMD.emd"), ("end of decomposition", EMD + ":EMD.end_condition")],
    "property-based testing: invariant and metamorphic relation (limited vs unlimited decomposition)",
    "Randomised search with shrinking over signals, configurations and limits.",
)
prop(
    "C03",
    "Accessors describe the most recent decomposition",
    "After a decomposition the accessors of EMD, EEMD and CEEMDAN give the IMFs and the residue of the most recent signal: residue is the "
    "input minus the sum of IMFs, and for EMD the returned array is these IMFs followed by the residue unless it is negligible. "
    "The EMD trend is the residue, or the last IMF if the residue is negligible, so that IMFs and trend still add up to the signal. All this stays so when the caller overwrites "
    "the signal (or, for EMD, the returned array) afterwards. Before any decomposition the accessors raise ValueError.",
    ["inputs", "histories"],
    "all sequences of decompositions on an instance and accessor calls in between, for all signals (including zeros)",
    "Tests call accessors once after one run on one signal.",
    [("stored imfs/residue", EMD + ":EMD.emd"), ("accessors", EMD + ":EMD.get_imfs_and_trend"), ("accessor", EEMD + ":EEMD.get_imfs_and_residue"), ("accessor", CEE + ":CEEMDAN.get_imfs_and_residue")],
    "stateful property-based testing: generated histories against a model of the last run",
    "Randomised histories with shrinking; model is computed from returned rows and the input.",
)
prop(
    "C04",
    "Decompositions are pure: no input mutation, no dependence on history",
    "Decomposing never modifies the signal or the time array, nor arrays returned earlier. The result depends only on the configuration, the "
    "input (and, for noise-assisted methods, the random state), not on what the instance or other instances decomposed before, nor on what "
    "other instances decompose at the same time (in other threads or in the middle of this decomposition), whether the "
    "configuration was given at construction or set as attributes later, or whether the instance was copied or pickled.",
    ["histories", "inputs", "configurations"],
    "all interleavings of decompositions, attribute updates, copies and pickles on several instances",
    "Tests use a fresh instance for one decomposition; shared or stale state needs particular sequences of signals.",
    [("per-call state", EMD + ":EMD.emd"), ("per-call state", EEMD + ":EEMD.eemd"), ("per-call state", CEE + ":CEEMDAN.ceemdan"), ("pickling", CEE + ":CEEMDAN.__getstate__")],
    "stateful property-based testing: generated call histories vs fresh instances",
    "Randomised histories with shrinking; comparison is exact, oracle is a fresh instance of the same code.",
)
prop(
    "C05",
    "Decomposition stops at, and only at, a trend or a negligible remainder",
    "A signal with fewer than three local extrema is returned unsplit, as the residue without IMFs. An unlimited decomposition stops only when "
    "its residue cannot be sifted into another IMF or what is left is below range_thr (peak to peak) or total_power_thr (sum of "
    "absolute values), and it always stops (given a range_thr above rounding errors), with at most MAX_ITERATION siftings per IMF.",
    ["inputs", "configurations"],
    "all signals x thresholds x stopping rules, including monotone, constant, plateaued and tiny-amplitude signals",
    "Tests check one trend and one sine; the stop decision depends on values all along the signal and on both thresholds.",
    [("trend detection", EMD + ":EMD.emd"), ("end condition", EMD + ":EMD.end_condition")],
    "property-based testing: reference model of the stop rule, idempotence on the residue, counted siftings",
    "Randomised search; cases where the verdict depends on rounding errors are skipped and counted.",
)
prop(
    "C06",
    "Sifting applies its stopping rule exactly",
    "With FIXE=n an IMF is the result of exactly n envelope-mean subtractions (fewer only if the proto-IMF becomes a trend or MAX_ITERATION is reached); with FIXE_H=m sifting "
    "stops at the m-th consecutive proto-IMF (counted from the second one) whose numbers of extrema and zero crossings differ by at most one; otherwise at the first one which also meets the "
    "configured std, scaled variance or energy ratio threshold. Thus each IMF extracted within MAX_ITERATION under the latter two rules has numbers of extrema and zero crossings differing by at most one.",
    ["inputs", "configurations"],
    "all signals x FIXE / FIXE_H / threshold values x MAX_ITERATION",
    "Tests only check that IMF counts or shapes come out for a few sines.",
    [("sifting loop", EMD + ":EMD.emd"), ("Cauchy-like criteria", EMD + ":EMD.check_imf")],
    "property-based testing: metamorphic (n-fold single siftings) and reference model of the stopping rule",
    "Randomised search; verdicts within relative 1e-6 of a threshold are skipped and counted.",
)
prop(
    "C07",
    "Simple extrema detection finds exactly the local extrema and zero crossings",
    "With 'simple' detection the reported maxima (minima) are exactly the interior samples higher (lower) than both neighbours plus, for each interior plateau, "
    "higher (lower) than what surrounds it, its middle sample (half rounded to even), in ascending order with the signal's values there; they alternate. Zero crossings are exactly the "
    "indices before a sign change plus the middle of each run of zeros.",
    ["inputs"],
    "all sequences of values, in particular with ties, plateaus at any position (edges included), zeros and tiny or huge magnitudes",
    "Tests have a few fixed vectors; plateau handling at edges was wrong with all tests passing.",
    [("extrema by sign of differences and plateau handling", EMD + ":EMD._find_extrema_simple"), ("dispatch", EMD + ":EMD.find_extrema")],
    "property-based testing: differential against a brute-force reference",
    "Exhaustive over all short sequences on small alphabets in thorough tier plus randomised longer ones; exact comparison.",
)
prop(
    "C08",
    "Parabolic extrema are the vertices of local parabolas",
    "With 'parabol' detection the reported extrema are exactly the vertices of parabolas through three consecutive samples (inner samples of plateaus "
    "left out) that lie no farther than half way to the neighbouring samples, with the parabola's values there, for any increasing, also "
    "non-uniform, time array. They move with an affine change of time and scale with the values; zero crossings are as in simple detection.",
    ["inputs"],
    "all signals x increasing time arrays",
    "Tests check a few uniform grids.",
    [("vertex formula", EMD + ":EMD._find_extrema_parabol"), ("plateau reduction", EMD + ":EMD._not_duplicate")],
    "property-based testing: differential against an independent vertex computation, metamorphic affine relation",
    "Randomised search with tolerance; vertices within 1e-7 of the acceptance boundary are skipped and counted.",
)
prop(
    "C09",
    "Envelopes pass through all extrema and mirrored ones and cover the signal",
    "Whenever a signal has at least three extrema, envelope knots consist of all its maxima (minima) at their positions and values plus extrema mirrored at each edge - "
    "up to nbsym per side and about the edge or the outermost extremum according to the boundary rule - strictly increasing in position and covering the whole signal. "
    "Envelopes have one value per sample and pass through the signal's extrema, with the spline of the configured kind spanned on the knots.",
    ["inputs", "configurations"],
    "all signals x nbsym x spline kinds, both detections (parabolic one where its knots are well defined)",
    "Tests check boundaries of a couple of short signals with nbsym=1,2.",
    [("mirroring", EMD + ":EMD.prepare_points_simple"), ("mirroring", EMD + ":EMD.prepare_points_parabol"), ("envelopes", EMD + ":EMD.extract_max_min_spline"), ("spline", EMD + ":EMD.spline_points")],
    "property-based testing: invariants and differential against an independent boundary-rule model",
    "Randomised search with shrinking; for parabolic detection inputs with ill-defined knots are skipped and counted.",
)
prop(
    "C10",
    "Spline kinds compute the splines they are named after",
    "Each supported kind (cubic: not-a-knot, natural for three points; akima; pchip; cubic_hermite with finite-difference slopes; linear, slinear; quadratic) evaluates, for every "
    "strictly increasing set of knots and every point between the first and the last, to the mathematical spline of that name. All interpolate the knots, "
    "are linear in knot values where the method is, invariant to affine changes of the abscissa, and pchip/linear stay within neighbouring knot values.",
    ["inputs"],
    "all knot sets (3+ knots, non-uniform spacing) x evaluation points x kinds",
    "Tests compare kinds to precomputed values on one data set.",
    [("splines", "PyEMD/splines.py:cubic_spline_3pts,akima,cubic_hermite,cubic,pchip"), ("dispatch", EMD + ":EMD.spline_points")],
    "property-based testing: differential against independent spline formulas, metamorphic relations",
    "Randomised knots and points; relative tolerance 1e-7 scaled by conditioning.",
)
prop(
    "C11",
    "EMD commutes with negation, scaling, time reversal and time-axis changes",
    "Negating a signal, multiplying it by a power of two (with scale-free stopping) or reversing it in time negates, multiplies or reverses the IMFs and the residue. "
    "With simple detection the time array has no effect at all; with parabolic detection shifting and rescaling it by a positive factor has none, and "
    "adding the same time array as samples' indices equals not passing one.",
    ["inputs", "configurations"],
    "all signals x configurations x transformations",
    "Tests never relate two decompositions.",
    [("sifting", EMD + ":EMD.emd"), ("time normalisation", EMD + ":EMD._normalize_time"), ("edge symmetry", EMD + ":EMD.prepare_points_simple")],
    "property-based testing: metamorphic relations",
    "Randomised search; relations that hold exactly in floating point are compared tightly, others only on cases the reference model finds well-conditioned.",
)
prop(
    "C12",
    "EMD equals the reference algorithm",
    "For every signal, time array and configuration on which the algorithm is numerically well-conditioned, EMD gives the same number of IMFs and, within tolerance, the same IMFs and residue "
    "as an independent textbook implementation: sift by subtracting the mean of spline envelopes with mirrored boundaries, stop each IMF by the configured rule, subtract it and "
    "repeat until trend, threshold or limit.",
    ["inputs", "configurations"],
    "all signals x time arrays x configurations x limits",
    "Tests compare with constants for few signals; a change in any branch of the algorithm that these do not reach goes unnoticed.",
    [("algorithm", EMD + ":EMD.emd"), ("envelopes", EMD + ":EMD.extract_max_min_spline"), ("criteria", EMD + ":EMD.check_imf,EMD.end_condition")],
    "property-based testing: differential against an independent reference implementation",
    "Randomised search; ill-conditioned cases (result changes under 1e-11 perturbations) are skipped and counted.",
)
prop(
    "C13",
    "Dtype and memory layout of the input do not matter beyond precision",
    "Integer signals of any width (with times, where these are used, in integers or float64) decompose exactly like the same values in float64, and strided, reversed, read-only or sliced arrays exactly like contiguous ones; "
    "no integer overflow or wrap-around happens for any length. Single and half precision signals are decomposed without failure, completely up to their precision, at any length.",
    ["inputs"],
    "all dtypes x layouts x lengths x values",
    "Tests use float64 nearly everywhere; float16 input longer than 2049 samples failed with all tests passing.",
    [("timeline in signal's dtype", "PyEMD/utils.py:get_timeline"), ("type unification", "PyEMD/utils.py:unify_types"), ("working dtype", EMD + ":EMD.emd")],
    "property-based testing: metamorphic (dtype and layout changes) and invariants",
    "Randomised search; exact comparison for integers and layouts.",
)
prop(
    "C14",
    "EEMD is the ensemble average of decompositions of the noisy signal",
    "EEMD decomposes exactly `trials` copies of the signal, each with its own noise added, passing on the time array and the limit, and returns for each order the pointwise mean over the trials which have a component of that order. "
    "all_imfs, ensemble_count, ensemble_mean and ensemble_std describe exactly these components (population std; mean equal to the returned array). With separate_trends the mean of trials' trends is the last row and the rest are means of IMFs only; "
    "with zero noise EEMD equals EMD.",
    ["inputs", "configurations"],
    "all signals x trials x numbers of components per trial (ragged ensembles) x separate_trends x parallel or not",
    "Tests check shapes and one fixed seed; ragged ensembles and statistics are barely sampled.",
    [("collection per order", EEMD + ":EEMD.eemd"), ("statistics", EEMD + ":EEMD.ensemble_mean,ensemble_std,ensemble_count"), ("trial", EEMD + ":EEMD._trial_update")],
    "property-based testing: differential against direct averaging, with generated stand-in decomposers",
    "Randomised search; the decomposer passed in by the harness records inputs and yields generated components, so arithmetic is checked exactly.",
)
prop(
    "C15",
    "EEMD is reproducible and its trials use independent noise, also in parallel",
    "Given a seed, EEMD gives the same result on every run and instance, with and without progress, and the same whether trials run sequentially or in any number of processes, however these are started. "
    "Different trials, and consecutive unseeded runs, use different noise realisations, in parallel mode too. Completed parallel runs leave no processes behind.",
    ["inputs", "configurations", "schedules", "histories"],
    "all seeds x trials x process counts x signals x histories of runs",
    "Tests only check the sequential mode with one seed; parallel mode used the same noise in all trials with all tests passing.",
    [("noise drawn for trials", EEMD + ":EEMD.eemd"), ("random state", EEMD + ":EEMD.noise_seed")],
    "property-based testing: differential parallel vs sequential, generated seeds, process counts and histories",
    "Randomised search over schedules only through process counts and chunking; OS scheduling is not controlled.",
)
prop(
    "C16",
    "Noise has the configured kind, scale and shape",
    "Generated noise has the requested shape; 'normal' noise has zero mean and standard deviation equal to the scale, 'uniform' one is confined to and fills plus/minus half of it, and both are proportional to the scale for a given seed. "
    "EEMD adds noise of scale noise_width times the signal's peak-to-peak amplitude and CEEMDAN draws its noise with scale noise_scale; unknown kinds raise ValueError.",
    ["inputs", "configurations"],
    "all scales, shapes, seeds, kinds, signals",
    "Tests only check that an unsupported kind raises.",
    [("generator", EEMD + ":EEMD.generate_noise"), ("generator", CEE + ":CEEMDAN.generate_noise"), ("scale", EEMD + ":EEMD.eemd")],
    "property-based testing: statistical bounds with fixed seeds, proportionality, observation through a stand-in decomposer",
    "Statistical bounds are at 6+ sigma and runs are deterministic given VERIF_SEED.",
)
prop(
    "C17",
    "CEEMDAN is complete and respects its limits",
    "For every signal, constant included, whatever its type (and with squares in the range of double precision), and configuration, CEEMDAN returns a finite array with one column per sample whose rows add up to the signal within rounding error, in the signal's own units. "
    "With max_imf=k>0 it has at most k components and the remainder as the last row, and its components are the same as the first ones for any larger limit with the same seed. (Scale of the added noise is assumed to be positive.)",
    ["inputs", "configurations"],
    "all signals x trials x epsilon x noise options x max_imf x parallel",
    "Tests reconstruct one signal; constants gave NaNs with all tests passing.",
    [("remainder row", CEE + ":CEEMDAN.ceemdan"), ("limit", CEE + ":CEEMDAN.end_condition"), ("normalisation by std", CEE + ":CEEMDAN.ceemdan")],
    "property-based testing: invariants and metamorphic relation between limits",
    "Randomised search with real and stand-in decomposers.",
)
prop(
    "C18",
    "CEEMDAN is reproducible, sequentially and in parallel",
    "Given a seed, at construction or set later, CEEMDAN gives the same result on every run and instance, whether trials run sequentially or in any number of processes, however these are started (up to rounding from summation order), with or without progress. "
    "Runs without re-seeding use new noise. Completed parallel runs leave no processes behind.",
    ["inputs", "configurations", "schedules", "histories"],
    "all seeds x signals x process counts x histories",
    "Tests check one seed and sequential mode.",
    [("seed", CEE + ":CEEMDAN.__init__,noise_seed"), ("parallel maps", CEE + ":CEEMDAN._decompose_noise,_eemd")],
    "property-based testing: differential parallel vs sequential and re-seeded histories",
    "OS scheduling is not controlled; tolerance covers summation order.",
)
prop(
    "C19",
    "CEEMDAN computes the improved complete ensemble algorithm",
    "CEEMDAN's first component is the trial average of first IMFs of the normalised signal plus epsilon times the noise's first mode; each next one is the remainder minus the trial average of local means of the remainder plus epsilon times its standard "
    "deviation times the noise's mode of that order (noise modes normalised by their first mode's deviation if beta_progress). It ends when the remainder has no IMF or falls below range_thr or total_power_thr, and rescaling the signal rescales the components.",
    ["inputs", "configurations"],
    "all signals x trials x epsilon x noise_scale x beta_progress x thresholds x decomposers",
    "Tests check attributes and one reconstruction, none of the intermediate quantities.",
    [("algorithm", CEE + ":CEEMDAN.ceemdan"), ("noise modes", CEE + ":CEEMDAN._decompose_noise"), ("end", CEE + ":CEEMDAN.end_condition")],
    "property-based testing: differential against a reference implementation driven by the same decomposer",
    "Stand-in smoothers make the comparison well-conditioned; the real EMD is used on conditioned cases.",
)
prop(
    "C20",
    "Configuration reaches the decomposition through every door",
    "EEMD and CEEMDAN decompose with an EMD configured by the same keyword arguments, or with exactly the instance given as ext_EMD; EMD configured by keywords, by attributes or through the ensemble classes behaves the same, and every documented option takes effect. "
    "Calling an instance equals calling its method, and the progress flag and process count change nothing in results.",
    ["configurations", "inputs"],
    "all combinations of documented options x signals",
    "Tests check that few attributes are stored, not that they take effect.",
    [("constructor", EMD + ":EMD.__init__"), ("constructor", EEMD + ":EEMD.__init__"), ("constructor", CEE + ":CEEMDAN.__init__"), ("call", EEMD + ":EEMD.__call__")],
    "property-based testing: metamorphic equivalence of ways to configure and call",
    "Randomised configurations; comparison is exact.",
)
prop(
    "C21",
    "Timelines are exact and type unification loses nothing",
    "The default timeline is exactly 0, 1, ..., n-1 in a dtype of the same kind as requested, at least as wide, for every n >= 1 and dtype. "
    "The smallest inclusive dtype is of the same kind and holds the value; unified arrays share numpy's promoted dtype, keep their values and are left as they are if dtypes agree.",
    ["inputs"],
    "all lengths x dtypes x values",
    "Tests check four lengths and dtypes; float16 timelines were wrong above 2049 samples.",
    [("timeline", "PyEMD/utils.py:get_timeline"), ("dtype choice", "PyEMD/utils.py:smallest_inclusive_dtype"), ("unification", "PyEMD/utils.py:deduce_common_type,unify_types")],
    "property-based testing: differential against exact integer ranges and numpy promotion",
    "Randomised and boundary-directed lengths; exact comparison.",
)
prop(
    "C22",
    "Invalid input is rejected with the documented error and leaves no trace",
    "Signal and time arrays of different lengths, multidimensional signals, unknown noise kinds, unknown spline kinds as soon as an envelope is needed (ValueError), unknown extrema detection (AssertionError at construction, ValueError afterwards) and, with parabolic detection, repeated consecutive time values (AssertionError) are rejected for every signal and size, rather than decomposed. "
    "A rejected call leaves IMFs and residue of the previous one accessible and later valid calls unaffected; valid calls, spline names in any letter case included, are not rejected.",
    ["inputs", "histories", "configurations"],
    "all malformed inputs x histories of valid and invalid calls",
    "Tests try one malformed example each on fresh instances.",
    [("checks", EMD + ":EMD.emd,EMD._normalize_time"), ("checks", EMD + ":EMD.spline_points,EMD.find_extrema,EMD.prepare_points"), ("noise kind", EEMD + ":EEMD.generate_noise")],
    "stateful property-based testing: generated valid and invalid calls against expected outcomes",
    "Randomised histories with shrinking.",
)
prop(
    "C23",
    "Compact schemes solve their systems and are exact on low-degree polynomials",
    "The tridiagonal solver returns the solution of the tridiagonal system for every diagonally dominant system, ignoring the corner entries outside the matrix. The compact derivative is exact, at all points including boundaries, for polynomials up to degree four "
    "with any step and equals the solution of its defining system for any data; the compact filter preserves constants (and polynomials up to cubic) for any alpha, solves its defining system and is the identity at alpha=0.5 for data that is smooth (cubic) by the edges; both are linear and mirror symmetric, and take data of any numeric type at its value. (Seven or more samples: the scheme's system is singular for six.)",
    ["inputs"],
    "all vectors x steps x filter parameters x lengths",
    "Tests try three functions at one size.",
    [("Thomas algorithm", "PyEMD/compact.py:TDMAsolver"), ("filter", "PyEMD/compact.py:filt6"), ("derivative", "PyEMD/compact.py:pade6")],
    "property-based testing: differential against dense linear algebra, exactness and symmetry relations",
    "Randomised systems; tolerances scale with conditioning.",
)
prop(
    "C24",
    "Instantaneous frequency and plots show the right components",
    "The plotted instantaneous frequency of each IMF is the derivative of the unwrapped phase of its analytic signal over 2 pi, per IMF and in units of the time array, for both difference schemes and optional filter: a pure tone with whole number of periods shows its frequency at every sample, amplitude does not matter, rows are independent and rescaling time rescales it inversely. "
    "Plots have one labelled row per IMF, in order, with exactly its data against the given time (or sample indices), and the residue last iff requested.",
    ["inputs", "configurations"],
    "all IMF sets (one row included) x time arrays x schemes x filters x plot options",
    "Tests check one phase and one frequency example and that plotting raises on missing data; one-row plots failed.",
    [("phase and frequency", "PyEMD/visualisation.py:Visualisation._calc_inst_phase,_calc_inst_freq"), ("plots", "PyEMD/visualisation.py:Visualisation.plot_imfs,plot_instant_freq")],
    "property-based testing: differential against independent phase computation, metamorphic relations, figure inspection",
    "Figures are inspected through matplotlib's object model with the Agg backend.",
)
prop(
    "C25",
    "White-noise significance test follows its definition",
    "For every set of non-zero IMFs, of any numeric type, the test reports, for each IMF numbered from 1, 0 if its log energy density lies within the white-noise spread band of the given percentile for its mean period and 1 otherwise (a priori), or 1 iff the energy density scaled by the reference IMF exceeds the upper limit (a posteriori). "
    "The mean period is the number of samples per non-negative peak. A priori results are independent per IMF and monotone in alpha; empty or NaN input gives None, and invalid parameters raise AssertionError.",
    ["inputs", "configurations"],
    "all IMF arrays x test kinds x rescaling IMFs x alphas",
    "Tests check few examples, mainly argument errors.",
    [("test", "PyEMD/checks.py:whitenoise_check"), ("limits", "PyEMD/checks.py:significance_apriori,significance_aposteriori"), ("period and energy", "PyEMD/checks.py:mean_period,energy")],
    "property-based testing: differential against an independent model, metamorphic relations",
    "Verdicts within 1e-9 of a limit are skipped and counted.",
)
prop(
    "C26",
    "MATLAB-compatible EMD is complete and consistent",
    "The MATLAB-compatible EMD returns, for every double precision signal, time array and sifting rule, components numbered from 0 that add up to the signal within rounding error (plus 1e-10), with an extrema and iteration count per component and at most the requested number (two or more) of components; a signal with fewer than three extrema is returned unsplit. "
    "Its extrema are exactly the local extrema of simple detection, its knots and envelopes follow the same boundary rule as the main implementation, in units of the time array, repeated calls give equal results without modifying inputs, and on well-conditioned input components and counts are those of the reference algorithm: sifting by the mean of envelopes until FIXE iterations, FIXE_H balanced proto-IMFs in a row, or Rilling's amplitude criterion.",
    ["inputs", "configurations"],
    "all signals x time arrays x sifting rules x limits",
    "Tests decompose a few sines.",
    [("algorithm", "PyEMD/EMD_matlab.py:EMD.emd"), ("extrema", "PyEMD/EMD_matlab.py:EMD.findExtrema"), ("boundary", "PyEMD/EMD_matlab.py:EMD.preparePoints"), ("spline", "PyEMD/EMD_matlab.py:EMD.splinePoints")],
    "property-based testing: invariants and differential against the reference extrema and boundary rule",
    "Randomised search with shrinking.",
)
prop(
    "C27",
    "JIT-compiled EMD gives the same decomposition as EMD",
    "For every double precision signal and configuration supported by both, JitEMD (and the jitted function) returns, on well-conditioned cases, the same IMFs and residue as the reference algorithm that EMD follows, and always a complete decomposition of the right shape. "
    "It can stand in for EMD in EEMD and CEEMDAN, with or without separated trends, sequentially and in parallel, giving the same ensembles. Results do not depend on earlier decompositions, nor on the instance being copied or pickled.",
    ["inputs", "configurations"],
    "all float64 signals x configurations x limits x seeds",
    "There are no tests of the JIT implementation.",
    [("algorithm", "PyEMD/experimental/jitemd.py:emd"), ("class", "PyEMD/experimental/jitemd.py:JitEMD")],
    "property-based testing: differential against the reference implementation and EMD",
    "Compilation takes about a minute, so fewer cases are run in the quick tier.",
)
prop(
    "C28",
    "2-D decompositions are complete and respect their limit",
    "Given a limit on components, EMD2D (any rectangular image, constants included) and BEMD (square images; others are a known defect) return finite stacks of images of the input's shape which add up to the input within rounding error, with at most max_imf components plus the remainder, without modifying the input; a higher limit does not change the components found before. "
    "An image without more than four inner minima and maxima, or a constant one, is not split by EMD2D, with or without a limit. "
    "For EMD2D adding a constant to the image only changes the last component and multiplying the image by a power of two multiplies all of them; detected extrema are exactly the pixels not lower (higher) than their 8 neighbours for EMD2D, and the regional maxima (minima) for BEMD on integer images.",
    ["inputs", "configurations"],
    "all small images x configurations x limits",
    "All tests of the 2-D modules are skipped.",
    [("EMD2D", "PyEMD/EMD2d.py:EMD2D.emd,find_extrema,prepare_image"), ("BEMD", "PyEMD/BEMD.py:BEMD.bemd,extract_maxima_positions")],
    "property-based testing: invariants, brute-force extrema, metamorphic relations",
    "Small images (up to about 20x20) and limited numbers of components; quality of 2-D envelopes is not claimed by the package and not checked.",
)
prop(
    "C29",
    "2-D components are results of sifting by the configured rule",
    "With one sifting per component (MAX_ITERATION=1) EMD2D's components are, in turn, what is left of the normalised image minus the mean of two smooth bivariate splines spanned on the minima and on the maxima of the image mirrored at all edges, until the limit, or until no more than four minima or maxima are left. "
    "For EMD2D and BEMD, whatever the rule, a component is the result of some number of siftings up to MAX_ITERATION: FIXE siftings after the first one if FIXE is set, with FIXE_H=m up to the m-th in a row (counted from the second sifting of the component) that passes check_proto_imf, otherwise up to the first proto-IMF that passes check_proto_imf, i.e. whose mean envelope is flat within mean_thr, or whose mean absolute value is below mean_thr, or which no longer changes, or (EMD2D) whose mean square is below mse_thr. "
    "BEMD's next component is the first one of what is left.",
    ["inputs", "configurations"],
    "all small images x configurations x limits",
    "All tests of the 2-D modules are skipped.",
    [("EMD2D", "PyEMD/EMD2d.py:EMD2D.emd,extract_max_min_spline,check_proto_imf"), ("BEMD", "PyEMD/BEMD.py:BEMD.bemd,check_proto_imf")],
    "property-based testing: differential (reference for a single sifting) and metamorphic relations between iteration limits",
    "Well-conditioned small images (components stable under perturbation by 1e-11); thresholds not approached closer than 0.1%.",
)
prop(
    "C30",
    "Performance comparison and version bump tools decide by their stated rules",
    "compare_results reports each test (name and parameters, in any order) present in both result sets exactly once; it is faster or slower by the sign of the change of the trimmed means and significant iff Welch's p-value is below alpha and the change is at least the threshold. "
    "All report formats list the same verdicts, and the exit status is non-zero iff a test got significantly slower (or there is nothing to compare); exchanging the sets exchanges faster and slower. "
    "The p-value is symmetric, falls with the difference, is the normal approximation above 30 degrees of freedom and below never calls significant what the exact test would not (p under 0.1). "
    "Benchmarks run warmup+runs times from reproducible, distinct random states, their trimmed mean leaves out 10% (at least one of three or more) on each side, and saved results load back equal. "
    "A non-empty conventional commit message bumps major iff it is breaking (! before the colon or a BREAKING CHANGE note), else minor iff of type feat, else patch.",
    ["inputs", "configurations"],
    "all result sets x thresholds x report formats, all timing lists, all commit messages",
    "The tools have no tests at all.",
    [("comparison", "perf_test/compare_results.py:compare_results,welch_ttest,main"), ("benchmarks", "perf_test/perf_test_comprehensive.py:trimmed_mean,benchmark,save_results"), ("bumps", ".github/scripts/bump_version.py:bump_type")],
    "property-based testing: reference model, metamorphic relations, save/load round trip",
    "Timings themselves are not checked; up to seven results per set, up to 60 times per benchmark.",
)

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["line"]["title"]) <= 80, p["line"]["id"]
            f.write(json.dumps(p["line"]) + "\n")
    checks = []
    for p in P:
        pid = p["line"]["id"]
        if not os.path.exists(os.path.join(HERE, "pyemd_verif", "props", pid.lower() + ".py")):
            continue
        checks.append(
            dict(
                property=pid,
                quick_cmd="python3 check.py {} --tier quick".format(pid),
                thorough_cmd="python3 check.py {} --tier thorough".format(pid),
                technique=p["technique"],
                level="exploration",
                level_note=p["note"],
            )
        )
    have = {c["property"] for c in checks}
    na = NOT_APPLICABLE + [
        dict(property=p["line"]["id"], reason="check not built yet") for p in P if p["line"]["id"] not in have
    ]
    manifest = dict(
        version=1,
        setup_cmd="python3 check.py --help > /dev/null",
        checks=checks,
        not_applicable=na,
        notes="Hypothesis-driven checks; see DESIGN.md. No hooks in /repo are needed.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
