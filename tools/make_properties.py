"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

S, R, H, CF, CS = "utide/_solve.py", "utide/_reconstruct.py", "utide/harmonics.py", "utide/confidence.py", "utide/constituent_selection.py"
A, D, EP, T, PG, RF, U, K = "utide/astronomy.py", "utide/diagnostics.py", "utide/ellipse_params.py", "utide/_time_conversion.py", "utide/periodogram.py", "utide/robustfit.py", "utide/utilities.py", "utide/_ut_constants.py"

prop("C01", "solve recovers the constants of a signal made of tides",
 "A record that is exactly a sum of tidal constituents (as defined by the chosen phase reference, nodal option and latitude) plus a mean and, if the trend is enabled, a linear trend, is decomposed by solve into exactly those amplitudes and phases (elevation) or ellipse parameters (velocity), that mean and that slope per day, referred to the middle of the record. This holds for every latitude, date, sampling interval, irregular sampling, record length and set of constituents that the record can resolve, with OLS and with robust fitting, and whatever the confidence-interval, ordering and noise options.",
 ["inputs", "configurations"], "all combinations of option values, latitudes, epochs, samplings, constituent sets and signal shapes",
 "The round-trip test has one constituent at one latitude with raw phases and no nodal correction; the HNL tests have one elevation series with the default options.",
 [S, H, A, CS, EP], [("model matrix and least-squares solution", "utide/_solve.py:_solv1"), ("basis functions", "utide/harmonics.py:ut_E"), ("reference time and record length", "utide/_solve.py:_slvinit")], ["utide.solve"])
prop("C02", "reconstruct evaluates the coefficients pointwise at any time",
 "At each requested time reconstruct returns the sum, over the selected constituents, of the harmonic described by the coefficient set (with the nodal and phase options, latitude and reference time recorded in it) plus the mean and the slope times the days since the reference time. The value at a time depends on that time and the coefficients only: not on the order, number, spacing or duplication of the requested times, nor on whether they lie inside the analysed record. Invalid or missing times give NaN exactly there and nowhere else.",
 ["inputs", "configurations"], "all sets of requested times (order, length, duplicates, missing), all option combinations of the coefficient set",
 "Tests only reconstruct on the analysed time grid and check one elevation series.",
 [R, H, A], [("evaluation of the harmonics, mean and trend", "utide/_reconstruct.py:_reconstruct"), ("missing times", "utide/_reconstruct.py:reconstruct")], ["utide.reconstruct"])
prop("C03", "the OLS solution is the least-squares optimum and linear in the data",
 "For arbitrary (not tidal) data, the residual left by the OLS solution is orthogonal to every component of the model: each constituent's cosine and sine, the mean, and the trend if enabled. Consequently the complex amplitudes, the mean and the slope depend linearly on the data: a weighted sum of records gives the same weighted sum of solutions.",
 ["inputs", "configurations"], "all data vectors (every unit impulse spans them, by linearity) and option combinations",
 "The tests use a few smooth signals; a solution that is only approximately optimal, or one that mishandles particular samples, passes them.",
 [S, H], [("least squares", "utide/_solve.py:_solv1")], ["utide.solve"])
prop("C04", "missing samples are equivalent to absent samples",
 "A sample whose time or value is NaN, infinite, NaT or masked, in any combination over t, u and v and at any position, has no influence on the solution: the amplitudes, phases, mean line and weights are those obtained from the remaining samples alone, and values hidden under a mask never matter. For a velocity record a sample is dropped when either component is missing.",
 ["inputs"], "all patterns of missing marks over positions, arrays and kinds of mark",
 "test_masked_input uses one pattern, in the interior, whose hidden values happen to be the right ones.",
 [S, T, R], [("removal of invalid times, then of invalid data", "utide/_solve.py:_slvinit"), ("time conversion keeps masks", "utide/_time_conversion.py:_normalize_time")], ["utide.solve", "utide.reconstruct"])
prop("C05", "results do not depend on how the same instants are expressed",
 "The same instants given as day numbers with the 'python' or 'matlab' epoch or with any calendar epoch (string, date, datetime, datetime64, pandas Timestamp), or as datetime64 of any unit, datetime objects, or pandas datetimes, give the same solution and the same reconstruction to within the millisecond resolution of the conversion. This holds for dates before and after 1970, and for any mixture of representations between solve and reconstruct; times that cannot be interpreted with the given epoch are rejected.",
 ["inputs", "configurations"], "all representations and epochs, dates over the proleptic Gregorian calendar",
 "test_formats converts one instant in 6 forms and never passes them through solve and reconstruct.",
 [T, S, R], [("conversion to day numbers", "utide/_time_conversion.py:_normalize_time, _date2num")], ["utide.solve", "utide.reconstruct", "utide._time_conversion._normalize_time"])
prop("C06", "results do not depend on the container holding the data",
 "Passing the same values of t, u and v as lists, tuples, pandas Series, masked arrays without masked values, read-only, strided or reversed-stride views, other byte orders, or lower-precision floats or integers that represent the values exactly, gives the same solution as contiguous float64 arrays. Names of constituents may likewise come in any sequence type, including arrays.",
 ["inputs"], "all container kinds for each argument",
 "The tests only pass float64 arrays, and one pandas index.",
 [S, CS, R], [("argument handling", "utide/_solve.py:_slvinit"), ("name lookup", "utide/constituent_selection.py:ut_cnstitsel")], ["utide.solve", "utide.reconstruct"])
prop("C07", "exactly the requested or Rayleigh-resolvable constituents are used",
 "With constit='auto' the solution contains exactly the constituents whose tabulated Rayleigh separation is at least Rayleigh_min divided by the record length in hours, the record length being the time span between first and last valid time; with an explicit sequence it contains exactly those named, each once. Each name is accompanied by its own frequency (of the reference date) and table index.",
 ["inputs", "configurations"], "all record lengths and Rayleigh factors (the selection is piecewise constant, every piece is visited), all explicit lists",
 "Three record lengths are compared with Matlab output; thresholds and explicit lists of unusual constituents are not.",
 [CS, S, H, K], [("selection", "utide/constituent_selection.py:ut_cnstitsel"), ("record length", "utide/_solve.py:_slvinit"), ("frequencies", "utide/harmonics.py:linearized_freqs")], ["utide.solve"])
prop("C08", "ordering options permute whole constituents and nothing else",
 "order_constit only permutes the constituents: 'PE' gives non-increasing energy, 'frequency' increasing frequency, 'SNR' non-increasing signal-to-noise ratio, and a sequence of names that order; every per-constituent array (names, amplitudes, phases, ellipse parameters, intervals, PE, SNR, frequencies, indices) is permuted alike, so that each constituent keeps its own values and reconstructions are unchanged.",
 ["inputs", "configurations"], "all orders and all explicit permutations, elevation and velocity, with and without intervals and inference",
 "test_order compares reconstructions for 5 orders of 4 constituents of which all amplitudes are already in nearly the same order, and never looks at the per-constituent intervals.",
 [S, D, CS], [("re-ordering", "utide/_solve.py:_reorder")], ["utide.solve", "utide.reconstruct"])
prop("C09", "PE and SNR diagnostics agree with the amplitudes and intervals",
 "PE is each constituent's share of the total energy (sum of squared amplitudes, or of squared semi-axes) in percent, so it is non-negative and sums to 100; SNR is that energy divided by the sum of squared standard errors (interval half-width / 1.96). The summary in coef.diagn holds the same values, sorted by decreasing energy, whatever order the solution itself uses.",
 ["inputs", "configurations"], "all solutions over option combinations",
 "No test looks at PE, SNR or diagn values.",
 [D, S, R], [("diagnostics", "utide/diagnostics.py:_PE, _SNR, ut_diagn")], ["utide.solve"])
prop("C10", "exact inference locks the inferred constituents to their references",
 "With inference, every inferred constituent has exactly the given amplitude ratio and phase offset (reference phase minus inferred phase; for velocity separately for the counter-clockwise and clockwise components) relative to its own reference, whatever the order, number and grouping of the pairs. When the data really contain such constituents, the references, the inferred and all the other constituents are recovered exactly; ratios of zero give the same amplitudes, phases and white-noise intervals of the remaining constituents as an analysis without the inferred ones.",
 ["inputs", "configurations"], "all groupings and orders of up to 3 inferred constituents over references, ratios, offsets and model options",
 "One Matlab comparison with one grouping; elevation only; intervals never checked.",
 [S, CS, CF], [("inference model matrix and back-substitution", "utide/_solve.py:_solv1"), ("grouping of inferred constituents", "utide/constituent_selection.py:ut_cnstitsel"), ("covariance indexing", "utide/confidence.py:_confidence")], ["utide.solve"])
prop("C11", "approximate inference keeps the ratios and corrects the reference",
 "With approximate inference the inferred constituents have exactly the given ratios and offsets relative to their references, and on evenly sampled records of a week or more the reference constituents agree with those of exact inference within a few percent, for any number of inferred constituents per reference: each fitted reference is divided by one plus the leakage of its inferred constituents, that is their ratio at the reference date times the mean of their rotation relative to the reference over the record. On a record that really contains the inferred constituents it is closer to the truth than ignoring them.",
 ["inputs", "configurations"], "all groupings of inferred constituents and model options",
 "No test uses approximate inference.",
 [S], [("approximate inference", "utide/_solve.py:_solv1")], ["utide.solve"])
prop("C12", "reconstruct includes exactly the selected constituents",
 "reconstruct uses exactly the constituents named in constit (those present in the solution), or else exactly those with SNR >= min_SNR and PE >= min_PE, or all if both thresholds are zero or the solution has no intervals. Reconstructions over complementary subsets add up to the full one, with the mean and trend counted once.",
 ["inputs", "configurations"], "all subsets of the constituents, thresholds below, at and above every constituent's PE and SNR",
 "The tests call these options without checking the result.",
 [R, D], [("selection", "utide/_reconstruct.py:_reconstruct")], ["utide.reconstruct"])
prop("C13", "calls are pure: no history dependence, no modified arguments",
 "The result of a call of solve or reconstruct depends only on its arguments (and, for Monte-Carlo intervals, on numpy's random state): any earlier calls, successful or failing, with any options, leave it unchanged, and so does modifying the arrays that earlier calls returned. Calls never modify their arguments: time and data arrays, masks, option dictionaries, or the coefficient set given to reconstruct.",
 ["histories"], "all sequences of calls over an alphabet covering the options and failing calls",
 "Each test makes its calls in one fixed order and never compares with a fresh process.",
 [S, R, H, K, U, CF], [("copies of shared constants and defaults", "utide/harmonics.py:FUV, linearized_freqs; utide/_solve.py:_process_opts")], ["utide.solve", "utide.reconstruct"], [("ut_constants, default_opts", "module-level tables and defaults shared by all calls", "utide/_ut_constants.py, utide/_solve.py")])
prop("C14", "concurrent calls from several threads do not interfere",
 "When solve and reconstruct run concurrently in several threads on separate arguments (or share read-only inputs or a coefficient set), every call returns what it returns when run alone, for every interleaving.",
 ["schedules"], "all interleavings of two calls up to a bound on preemptions",
 "No test uses threads, and free-running threads rarely preempt inside the short critical stretches.",
 [S, R, H, CF, RF, K], [("absence of shared mutable scratch state", "utide/harmonics.py:FUV; utide/_solve.py")], ["utide.solve", "utide.reconstruct"])
prop("C15", "an aborted call leaves no trace",
 "If a call of solve or reconstruct is aborted by an exception at any point (keyboard interrupt, memory error, failing linear algebra), its arguments are left unmodified, numpy's global settings (error state, print options) are as before, and every later call returns what it would have returned without the aborted one.",
 ["fault_sequences", "crash_points"], "all points of execution at which an exception may strike",
 "No test injects failures.",
 [S, R, H, CF, RF, K], [("no temporary in-place modification of shared state", "utide/_solve.py, utide/harmonics.py, utide/_reconstruct.py")], ["utide.solve", "utide.reconstruct"])
prop("C16", "solutions scale with the units and shift with offset and trend",
 "Multiplying the data by a positive factor multiplies amplitudes, semi-axes, their intervals, mean and slope by it and leaves phases, orientations, their intervals, PE and SNR unchanged; negating an elevation record shifts its phases by 180 degrees. Adding a constant changes only the mean, by that constant; adding a linear trend to the data of a solution with trend changes only the slope and mean.",
 ["inputs", "configurations"], "all factors over many orders of magnitude, offsets, slopes, and option combinations",
 "No test compares two related solutions.",
 [S, CF, EP, D, RF], [("linearity of the solution and of the interval estimates", "utide/_solve.py:_solv1, utide/confidence.py")], ["utide.solve"])
prop("C17", "velocity analysis is independent of the frame and agrees with 1-D",
 "Rotating the velocity vectors by an angle turns the ellipse orientations by it and leaves semi-axes, rotation sense and phases unchanged (up to the joint half turn of orientation and phase that describes the same motion), for least-squares and robust fits; reflecting the frame flips the sign of the semi-minor axis and the orientation. The ellipses are those of the two separate elevation-type analyses of u and of v, and the linearized intervals of the semi-axes, orientations and phases do not change when the frame is turned by a multiple of 90 degrees.",
 ["inputs", "configurations"], "all rotation angles in a set covering the quadrants and branch points, reflections, and option combinations",
 "The only velocity tests are smoke tests.",
 [S, EP, CF], [("ellipse parameters", "utide/ellipse_params.py:ut_cs2cep"), ("2-D covariance", "utide/confidence.py:_confidence")], ["utide.solve"])
prop("C18", "amplitudes, axes and angles are reported in canonical ranges",
 "Amplitudes and semi-major axes are non-negative, |semi-minor| <= semi-major with positive sign for counter-clockwise rotation, orientations lie in [0, 180) and phases in [0, 360), and together they represent the fitted motion exactly: the vector at phase g points along the orientation with length of the semi-major axis.",
 ["inputs"], "all ellipses: every combination of rotation sense, orientation and phase on grids containing the branch points, degenerate circular, rectilinear and zero ellipses",
 "The tests never look at Lsmin or theta.",
 [EP, S], [("ellipse parameters", "utide/ellipse_params.py:ut_cs2cep")], ["utide.solve", "utide.ellipse_params.ut_cs2cep"])
prop("C19", "linearized white-noise intervals are first-order error propagation",
 "With white=True and linear intervals, each constituent's 95% half-widths are 1.96 times the standard errors obtained by propagating to first order the least-squares covariance of its cosine and sine coefficients (residual variance, with the degrees of freedom of the model, times the inverse normal matrix, per component) into amplitude and phase, or semi-axes, orientation and phase; ut_linci itself gives that propagation for every ellipse and every set of standard errors.",
 ["inputs", "configurations"], "all option combinations, samplings, gaps, elevation and velocity, ellipses of every shape",
 "No test looks at the values of the intervals.",
 [CF, S], [("covariances", "utide/confidence.py:_confidence"), ("linear propagation", "utide/confidence.py:ut_linci")], ["utide.solve"])
prop("C20", "colored intervals use the local residual spectrum of each constituent",
 "With white=False each constituent's variances come from the band-averaged spectrum of the residual in the band of that constituent, excluding the constituent lines themselves, separately for u and v, shared between its cosine and sine coefficients in proportion to their white-noise variances; a constituent in a quiet band gets narrow intervals even if other bands are noisy. Gaps in evenly sampled records are bridged by interpolation and irregular records use the Lomb-Scargle periodogram.",
 ["inputs", "configurations"], "all option combinations, samplings, gaps, elevation and velocity, noise placed in each band",
 "No test looks at the values of the intervals.",
 [CF, PG], [("band spectra by constituent", "utide/confidence.py:band_averaged_psd_by_constit"), ("spectra", "utide/periodogram.py:band_psd")], ["utide.solve"])
prop("C21", "presentation and interval options do not alter the solution",
 "The constituents' amplitudes, phases or ellipse parameters, mean, slope and reference time do not depend on conf_int, white, order_constit, verbose or MC_n, and an analysis that succeeds without intervals also succeeds with them. With verbose=False neither solve nor reconstruct writes anything to standard output or standard error, and verbose changes nothing else. (Records with more samples than unknowns and some residual or signal energy.)",
 ["configurations"], "all combinations of those options around every model configuration",
 "Only test_order compares runs with different options, for the order.",
 [S, R, CF], [("separation of the fit from intervals and output", "utide/_solve.py:_solv1")], ["utide.solve", "utide.reconstruct"])
prop("C22", "robust fitting resists outliers and is consistent with its weights",
 "With method='robust' every weight function gives weights between 0 and 1, one per used sample; the solution is the least-squares solution of the rows scaled by the reported weights, the reported rms residual is that of this solution, and the reported OLS solution equals that of method='ols'. A few gross outliers at any positions, on one side or both, of any size, get the smallest weights and disturb the constants far less than with OLS, in solve and in robustfit itself; with the 'ols' weight function the solution equals the OLS one. Records whose residuals mostly vanish (a still component, a zero record, isolated spikes) are fitted as well.",
 ["inputs", "configurations"], "all weight functions, all positions of one and two outliers, elevation and velocity, model options",
 "test_robust runs the default weight function on one record.",
 [RF, S], [("iteratively reweighted least squares", "utide/robustfit.py:robustfit")], ["utide.solve"])
prop("C23", "invalid requests are rejected, never silently reinterpreted",
 "Unknown option names, unknown constituents, unsupported values of method, phase, nodal, conf_int or order_constit (including order 'SNR' without intervals), incomplete or inconsistent inference specifications, a missing latitude, arrays of different or wrong shapes, unusable epochs, and unsupported combinations raise an exception (ValueError, KeyError, TypeError or NotImplementedError) instead of returning a result. The rejection does not depend on which other options are given.",
 ["configurations", "inputs"], "all single invalid items in combination with other option settings",
 "One invalid combination is tested.",
 [S, CS, T, R, U], [("option processing", "utide/_solve.py:_process_opts, validate_infer, validate_order_constit"), ("shape checks", "utide/_solve.py:_slvinit"), ("strict update", "utide/utilities.py:Bunch.update_values")], ["utide.solve", "utide.reconstruct"])
prop("C24", "Bunch behaves as one dictionary with two spellings of access",
 "After any sequence of operations through items, attributes, update, from_pyfile, update_values and update_None, a Bunch holds what a plain dictionary would, readable identically as item and attribute (also names with underscores), with missing names giving KeyError and AttributeError. update_values and update_None never add keys, update_None replaces only None values, keyword values win over positional dictionaries, and with strict=True an unknown key raises KeyError and changes nothing; copies, pickles and printing preserve and never alter the content.",
 ["histories"], "all sequences of operations over a small alphabet of keys and values (closed state space)",
 "No test exercises Bunch itself.",
 [U], [("Bunch", "utide/utilities.py:Bunch")], ["utide.utilities.Bunch"])
prop("C25", "every constituent follows its Doodson and satellite definition",
 "For each of the tabulated constituents, the predicted harmonic at any time and latitude has the astronomical phase given by its Doodson numbers and phase constant, and the nodal amplitude factor and phase given by its satellites at the date and latitude (in absolute latitude at least 5 degrees, hemisphere preserved); shallow-water constituents combine those of their parents. The nodal and phase options replace exactly the stated part: nodal=False removes the modulation, 'linear_time' freezes it at the reference time or advances the phase linearly from there, 'raw' phases start from zero at the reference time; all values are finite for latitudes from -90 to 90.",
 ["inputs", "configurations"], "all constituents x all option combinations x latitudes incl. the equator and poles x dates over centuries",
 "test_FUV checks one latitude (30 N) over 300 days of 1950.",
 [H, A, K], [("nodal and astronomical arguments", "utide/harmonics.py:FUV"), ("linearized frequencies", "utide/harmonics.py:linearized_freqs"), ("astronomical variables", "utide/astronomy.py:ut_astron")], ["utide.reconstruct", "utide.harmonics.FUV", "utide.astronomy.ut_astron"])
prop("C26", "phase references are related by the reference date only",
 "Amplitudes do not depend on the phase option other than through time linearization: 'raw' and 'linear_time' phases of the same record differ exactly by the astronomical argument at the reference time, and for nodal=False a record shifted in time keeps its 'raw' solution (at frequencies of the shifted date). With exact times ('Greenwich'), non-overlapping pieces of one tidal signal give the same amplitudes and phases.",
 ["inputs", "configurations"], "all option combinations, shifts and pieces",
 "The HNL tests compare nested records, to 6 decimals of noisy results, with the default options only.",
 [H, S, CS], [("phase references", "utide/harmonics.py:FUV, ut_E")], ["utide.solve"])
prop("C27", "Monte-Carlo intervals estimate the same errors as linearized ones",
 "Monte-Carlo intervals are non-negative, reproducible under a fixed numpy random seed, and for signals well above the noise agree with the linearized intervals within the sampling error of the simulation (noise of u and v being uncorrelated), for every phase and orientation including those at the 0/360 and 0/180 degree branch points, for elevation and velocity, white and colored noise.",
 ["inputs", "configurations"], "all phases and orientations on grids containing the branch points, x sampling, noise and model options, with the random numbers fixed by the seed",
 "test_MC only prints.",
 [CF], [("Monte-Carlo intervals", "utide/confidence.py:_confidence"), ("angle wrapping", "utide/confidence.py:cluster"), ("positive definite covariances", "utide/confidence.py:nearestSPD")], ["utide.solve"])
prop("C28", "band spectra are one-sided densities that exclude the tidal lines",
 "The band-averaged spectral density of a residual equals, in each band, the mean one-sided Hann-windowed periodogram over the frequencies of the band, leaving out those nearest to the given tidal frequencies; for complex residuals u and v are treated alike and the co-spectrum of identical series equals their auto-spectra. It scales with the square of the units, does not depend on the time origin or the mean of the residual, and for even sampling the FFT and Lomb-Scargle estimates agree except where the Nyquist frequency enters.",
 ["inputs"], "all small record lengths (even, odd), sampling intervals, excluded-frequency sets, real and complex, even and irregular",
 "Two tests with one record length and sampling interval and one excluded frequency.",
 [PG], [("periodograms and averaging", "utide/periodogram.py:band_psd, fbndavg, _psd, _psd_lomb")], ["utide.periodogram.band_psd"])
prop("C29", "a coefficient set is self-contained",
 "The coefficient set returned by solve contains all that reconstruct needs: after copying, deep-copying, pickling, conversion to a plain dict and back, or of its flags and numbers to numpy scalars, use in another process, re-ordering, or any number of other solve calls, it gives the same reconstruction as right after the solve that produced it; and when its numbers are edited, the edited ones count.",
 ["histories", "configurations"], "all sequences of storage operations up to a depth, over all model options",
 "Tests reconstruct immediately in the same process.",
 [S, R, U], [("options, latitude and reference time recorded in coef.aux", "utide/_solve.py:_solv1"), ("Bunch", "utide/utilities.py:Bunch")], ["utide.solve", "utide.reconstruct"])
prop("C30", "the public constituent tables are consistent with each other",
 "constit_index_dict maps every constituent name to its row in ut_constants, names are unique, hours_per_cycle is the reciprocal of cycles_per_hour, and the tabulated frequency of each constituent is the one its Doodson numbers or parents imply; the tables are the published ones.",
 ["inputs"], "all 146 constituents, 162 satellites and 251 shallow-water terms",
 "Tests use a handful of entries.",
 [K, H, "utide/data/ut_constants.npz"], [("table loading", "utide/_ut_constants.py")], ["utide.ut_constants", "utide.constit_index_dict", "utide.cycles_per_hour", "utide.hours_per_cycle"])
prop("C31", "prediction at the analysed times is the fit, and analysing it changes nothing",
 "reconstruct at the analysed times gives the fitted values of the (weighted) least-squares solution that solve computed, at the missing samples too, whatever the data (tides, noise, arbitrary, constant or zero), the trend, exact inference, missing samples at the ends or inside, order, weights, and form of the times. A record that is exactly representable is reproduced. Analysing the prediction with the same options gives back the same coefficients, mean and slope, and predicting again the same prediction.",
 ["inputs", "configurations"], "all data kinds x missing patterns x model options x forms of the times x ways of requesting the prediction, and the ladder of shortest records",
 "The round-trip test uses one constituent and compares with the input, not with the fit; missing samples, trends with gaps at the ends and robust weights are never combined.",
 [S, R, H], [("fit", "utide/_solve.py:_solv1"), ("evaluation", "utide/_reconstruct.py:_reconstruct")], ["utide.solve", "utide.reconstruct"])
prop("C32", "results have the documented form and describe the request",
 "A coefficient set has one float per constituent for each of its parameters (A, g or Lsmaj, Lsmin, theta, g) and, with intervals, for their non-negative *_ci, PE (summing to 100) and SNR; names are unique and those requested; fields of the other kind of record, of absent intervals and of an absent trend do not appear; there is one weight per used sample, equal to 1 for least squares, and robust fits (only) come with their diagnostics in rf; aux holds the latitude, the middle of the record as reference time, and the tabulated row and frequency of each constituent. A reconstruction is a float array of h, or u and v, of the shape of the requested times, NaN exactly at missing times, together with the times as given, as day numbers and as matplotlib dates, and the selection parameters used; no times give an empty result.",
 ["inputs", "configurations"], "all scenarios within the bound x all forms of requested times x all selections",
 "Tests read a few fields of a few results.",
 [S, R, CF, D], [("fields of the coefficient set", "utide/_solve.py:_solv1"), ("fields of the reconstruction", "utide/_reconstruct.py:reconstruct")], ["utide.solve", "utide.reconstruct"])
prop("C33", "loading a data file gives back its contents, structure by structure",
 "loadbunch returns, for every .mat or .npz file, a Bunch with the variables of the file: structures become Bunches at any depth, arrays keep their values and type without singleton dimensions, single elements become numbers, strings stay strings, and with masked=True exactly the floating-point arrays with NaN or infinite elements are masked, exactly there. showmatbunch lists every variable once under its full name and changes nothing; convert_unicode_arrays turns exactly the text arrays into lists.",
 ["inputs"], "all trees of structures up to a depth over an alphabet of leaves, in each kind of file",
 "The loader is used by tests on one file and three variables.",
 [U], [("conversion of loaded files", "utide/utilities.py:loadbunch, showmatbunch, convert_unicode_arrays")], ["utide.utilities.loadbunch", "utide.utilities.showmatbunch"])
prop("C34", "simulated errors use the nearest valid covariance",
 "For every square matrix nearestSPD returns the nearest symmetric positive semidefinite matrix in the Frobenius norm (the symmetric part with its negative eigenvalues set to zero) up to rounding, made numerically positive definite, exactly symmetric, without a warning or a change of its argument, in any units; valid covariances are returned unchanged up to rounding.",
 ["inputs"], "all small integer matrices of sizes 1 to 4, in several units, and all covariances of a grid including impossible ones",
 "No test calls it with a matrix that needs the correction.",
 [CF], [("nearest positive definite matrix", "utide/confidence.py:nearestSPD")], ["utide.confidence.nearestSPD"])
prop("C35", "results do not depend on the surroundings of the call",
 "solve, reconstruct and the public tables give the same results whatever the time zone, locale, environment, working directory, standard streams, numpy's print and error settings, warning filters, state of the random generators (linearized intervals and no intervals), garbage collection, tracing, decimal context, calling thread, hash seed and interpreter options, and in the absence of optional packages; and they leave all of these as they were, the random generators too unless Monte-Carlo intervals are asked for, and write no files.",
 ["configurations", "histories"], "all pairs of settings of the surroundings x all calls of the alphabet, and processes with other hash seeds and options",
 "All tests run in one process with one set of surroundings.",
 [S, R, CF, T, K, U], [("time conversion", "utide/_time_conversion.py:_normalize_time"), ("tables", "utide/_ut_constants.py"), ("random numbers", "utide/confidence.py:_confidence")], ["utide.solve", "utide.reconstruct"])
prop("C36", "omitted options mean their documented defaults, in every spelling of a call",
 "Giving any set of the options of solve or reconstruct explicitly with its documented default value changes nothing, whatever the other options are; the arguments may be given by position or by name and the options in any order. The defaults are: automatic selection with a Rayleigh criterion of 1, linearized intervals from colored residuals, least squares (cauchy weights when robust), a trend, Greenwich phases, nodal corrections, exact inference if any, PE order, verbose; and SNR >= 2, PE >= 0, all constituents, verbose for reconstruct.",
 ["configurations"], "all subsets of the options with their defaults, around every single other option; all spellings",
 "Every test gives its options in one way and leaves out the same ones.",
 [S, R], [("defaults", "utide/_solve.py:default_opts, _process_opts"), ("signature", "utide/_reconstruct.py:reconstruct")], ["utide.solve", "utide.reconstruct"])

prop("C37", "robust weights follow the chosen function, tuning and stopping rule",
 "robustfit, and solve with method='robust', start from the least-squares solution and repeat: weights from the named weight function of |residual| / (tuning constant x robust scale x sqrt(1 - leverage)), with the scale the median absolute residual over 0.6745, then the least-squares solution of the weighted rows. They stop when the weighted mean square improves by a fraction less than tol, go back one step when it grows, or stop after maxit solutions; the weight functions and their default tuning constants (95% efficiency) are the standard ones, user values of tune, tol and maxit are used as given, and the reported weights, coefficients, leverages, singular values, number of iterations and settings are those of the returned solution.",
 ["inputs", "configurations"], "every record of six small values for several small models x weight functions x settings; tidal records in all kinds of scenarios",
 "test_robust runs the default weight function once and looks at one element of the result.",
 [RF, S], [("iteration", "utide/robustfit.py:robustfit"), ("weight functions", "utide/robustfit.py:wfuncdict, tune_defaults, r_normed, leverage")], ["utide.robustfit.robustfit", "utide.solve"])

prop("C38", "Monte-Carlo intervals include the correlations of the estimates",
 "Where a sampling correlates the estimates (parts of the day, records of little more than a cycle, gaps) or the noise of u and v is correlated, the Monte-Carlo intervals of amplitudes, axes, orientations and phases agree, within the sampling error of the simulation, with first-order propagation of the full covariance of the estimates: the covariance of the cosine and sine coefficients with each other and, through the covariance of the residuals, of those of u with those of v, including its signs. This holds for every ellipse, weighting, trend, phase reference, nodal option, latitude and unit, with white noise and with colored noise, where the power and the co-spectrum of the band take the place of the variances and the covariance of the residuals.",
 ["inputs", "configurations"], "all samplings of a set that correlates the estimates x correlations and ratios of the noise x ellipses x model options, with the random numbers fixed by the seed",
 "test_MC only prints; no test has correlated noise or an unbalanced sampling.",
 [CF], [("covariance of the coefficients", "utide/confidence.py:_confidence"), ("realizations", "utide/confidence.py:ut_linci, nearestSPD, cluster")], ["utide.solve"])

prop("C39", "intervals of inferred constituents follow from those of their references",
 "The linearized confidence intervals of an inferred constituent are those of its reference, carried over by the relation that defines it: the variances of the reference's coefficients (the ones its own intervals report), propagated through the given amplitude ratios and phase offsets of the two directions of rotation and into amplitude, axes, orientation and phase. So an inferred elevation constituent has the same phase error as its reference where the noise favours no phase, and an amplitude error in proportion. This holds for elevation and velocity, exact and approximate inference, any grouping, ratios, noise, method, sampling and model options; the intervals of the inferred are missing exactly where those of the reference are.",
 ["inputs", "configurations"], "all groups x ratios x {exact, approximate} x {white, colored} x {elevation, velocity} x model options",
 "The inference tests compare with stored results for one request each, and only some of their intervals.",
 [CF], [("intervals of the inferred constituents", "utide/confidence.py:_confidence (if opt.infer)"), ("propagation into the parameters", "utide/confidence.py:ut_linci")], ["utide.solve"])

prop("C40", "the order in which the samples are given does not matter",
 "solve gives the same result for the samples (t, u and v together) in any order - backwards, pieces concatenated out of order, single samples out of place - as for the same samples in the order of time: the same constituents chosen, coefficients, means, trend, reference date, linearized and Monte-Carlo intervals with white and with colored noise, and diagnostics, with the weights of the samples in the order in which the samples were given. This holds for elevation and velocity, even, irregular and gappy sampling, missing samples in any place, repeated instants (white noise), OLS and robust fits, and all model options.",
 ["inputs", "configurations"], "all orders of short records; all orders of blocks, each forwards or backwards, exchanges, interleavings of longer ones x model options",
 "No test has times that do not increase.",
 [S, CF], [("reference date and kind of sampling", "utide/_solve.py:_slvinit"), ("order of the series for the spectra", "utide/confidence.py:band_averaged_psd_by_constit"), ("weights", "utide/robustfit.py:robustfit")], ["utide.solve"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
