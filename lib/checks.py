"""What decides each property: harnesses, level, and the text that goes into evidence and manifest."""
CHECKS = {}

def prop(pid, level, harness, technique, rule, bounds, note, assumptions=(), **kw):
    CHECKS[pid] = dict(level=level, harness=harness, technique=technique, rule=rule, bounds=bounds,
                       level_note=note, assumptions=list(assumptions), **kw)

NOT_APPLICABLE = {}
NOTES = ("No hooks: the harnesses use the public interfaces of the library and of the Python package. Checks rebuild "
         "the library (and, for Python checks, the extension module) from /repo's working tree into /verif/build. "
         "Every execution is identified by its choice list; bin/replay re-runs one.")
EXH = "bounded exhaustive exploration of the real code: "

prop("C07", "exploration", [dict(py="params")],
     EXH + "documents around %d complete ones covering every method and option, through the real schema validation, converter, checker and extender, and through whole runs" % 18,
     "non-trivial: the document differs from the complete one; outcomes are told apart by the rule that refuses it, the warnings and the derived settings",
     "every single setting absent or at every value of its kind, every pair of values of interdependent settings (verdict, convert), every ordered pair of models of two of the 18 documents with or without a change of a common setting (thorough: of any), against an independent table of the requirement rules and of the renaming; derived settings of every document with up to 1 (thorough: 2) changes, twice and after another document; every setting of 6 (thorough: all) documents removed, in both versions: refused, or the whole pipeline runs; 25 settings on 5 documents: those reported unused are removed and the results compared",
     "values of free numbers are not varied in the whole runs; the drp defaults of the command line client are not covered",
     ["made-up calibration data in the whole runs"])

prop("C08", "exploration", [dict(py="output")],
     EXH + "contents of a source of results over 8 configurations through the real loading and HDF5 writing code, and whole runs of 11 configurations with every stage failing before or after its work",
     "non-trivial: more than four datasets are reported; outcomes are told apart by the number of datasets",
     "made: every dataset of the specification table absent, empty, with one or three entries, with special values (empty, long and non-ASCII texts, NaN, infinities, extreme integers) or an attribute lost, x extended or not x number of candidates x errors; loaded content, every access by name and the file read back are compared with an own reading of the table. real: 11 configurations x every stage failing before or after its work x extended or not, compared with the C++ result store read directly, plus the cross relations between the entries of a candidate. thorough: pairs of altered datasets",
     "one spectrum per whole run; the reliability network is replaced by a constant; files of several spectra are not read back together",
     ["the made-up source gives unique values, so an exchanged entry is seen", "HDF5 is read back with h5py"])

prop("C09", "exploration", [dict(cpp="h_ranges")],
     EXH + "every small ordered list, range, mask and insertion (choice-point enumeration, depth first)",
     "an execution counts as non-trivial when the request has an answer; outcomes are told apart by the indices / set returned or the refusal",
     "quick: every non-empty subset of 6 lattice points x every range and value on the half lattice including outside; every quadruple of range ends; up to 3 ranges in every order; masks up to 5x6 bits; insertion of duplicates at every position. thorough: 8/7 points, 4 ranges, 7 bits",
     "the inputs are exhaustive over a lattice: comparisons only depend on the order type, which the lattice covers completely for these lengths; longer lists are not explored",
     ["values of the lattice represent all order types (equal, between, outside); arithmetic on the values is not involved except for overlap fractions"])

prop("C12", "exploration", [dict(cpp="h_extremum")],
     EXH + "every signal over a small value alphabet, borders, NaN ends, ranges and selection options",
     "an execution counts as non-trivial when at least one peak is returned; outcomes are told apart by the list of peaks returned",
     "quick: all signals of 3..7 samples over 3-4 values x border/invert flags; all NaN prefixes/suffixes and index ranges; up to 4 isolated peaks at all heights x separations x merit cuts x counts; 7-sample grids. thorough: 8 samples, 5 peaks",
     "exhaustive up to the stated length and alphabet; the peak finder only compares neighbouring samples, so values act through their order",
     ["oracle: maximal runs of equal values; selection conditions are checked one by one (order, count, cut, separation, maximality)"])

prop("C10", "exploration", [dict(cpp="h_zgrid")],
     EXH + "every grid description over a lattice of bounds, steps, centres and refinement windows",
     "an execution counts as non-trivial when a grid is built; outcomes are told apart by its number of nodes and spacing",
     "quick: bounds x steps x up to 40 step counts with commensurable, incommensurable and within-tolerance ends x 4 generators; centred windows with every fraction on both sides; one or two refinement windows (5-6 coarse nodes, ratios 2,3,5, half widths 0.5..2.5 coarse steps, every centre) and the per-node data updated alongside. thorough: 400 step counts, three windows",
     "exhaustive over the lattice; the step and bound values stand for classes (exact multiple, just below, just above within and outside the documented 1e-8 tolerance)",
     ["the documented 1e-8 end tolerance is part of the specification"])

prop("C14", "exploration", [dict(cpp="h_zgrid", args=["--c14"])],
     EXH + "every mixed redshift grid with up to two (thorough: three) refined windows, both directions, linear and logarithmic",
     "an execution counts as non-trivial when the posterior is really converted; outcomes are told apart by the size and first/last nodes of the result",
     "5-6 coarse nodes, ratios 2,3,5, windows at every centre with four half widths, three posterior shapes, coarse and fine targets; extension to the right by -1..3 steps for 3-6 nodes",
     "exhaustive over that lattice; the oracle evaluates the piecewise linear interpolation of the original samples directly",
     [])

prop("C11", "exploration", [dict(cpp="h_pdf")],
     EXH + "every chi-square table over a small alphabet (zero, tied, huge, 1e-300, infinite, NaN) x models x priors x combination methods",
     "an execution counts as non-trivial when a posterior is produced; outcomes are told apart by its rounded values",
     "quick: single model: all tables over 3-4 irregular grids x all prior tables; 1-3 models of 3 redshifts x 3 methods x redshift priors x model priors; 15 ways of spoiling an input; all prior selections. thorough: 4 redshifts, 3 models, more grids",
     "reference computed in long double with its own log-sum-exp; tolerances 1e-9 relative",
     ["redshifts whose posterior probability underflows to exactly zero may be refused", "tables flat to rounding are not decided"])

prop("C13", "exploration", [dict(cpp="h_cand")],
     EXH + "every set of up to four candidates over positions, widths and heights, and complete first and second passes over enumerated posteriors",
     "an execution counts as non-trivial when at least one window is integrated; outcomes are told apart by the windows / ranked candidates",
     "quick: windows: 1-4 candidates x 3+ widths x 3 heights x input order; deltaz: 3-7 sample posteriors at every index; first pass: 6-8 redshifts x alphabet x count/separation/cut; second pass: 1-2 windows with two sub-candidates. thorough: 5 candidates, longer grids",
     "exhaustive over the lattice; windows are snapped to grid nodes by the code, so neighbouring windows may share one grid cell",
     ["the sum of all probabilities is bounded by one plus the shared cells"])

prop("C15", "model_checking", [dict(cpp="h_axis")],
     "explicit enumeration of all operation histories of a wavelength axis on the real class, with a fresh axis as reference model",
     "an execution is one complete operation history (with the queries interleaved at every point in all ways); outcomes are told apart by the final samples and answers",
     "quick: every history of up to 3 operations out of the complete operation alphabet, with or without a query before each, from every starting axis; lookups on all axes up to 5 samples; sub-sampling masks; 301..1200 sample nearly-log axes. thorough: depth 4",
     "the model is a plain sample vector; every trace of the model is replayed on the implementation and compared after each step (all executions are on the real class)",
     ["reference answers recomputed from the samples by the definitions (monotonic; relative log step spread under 10 percent)"])

prop("C16", "model_checking", [dict(cpp="h_spectrum")],
     "explicit enumeration of all operation histories of a spectrum on the real class, each step compared with a freshly built spectrum",
     "an execution is one operation history; outcomes are told apart by the final observables",
     "quick: every history of up to 4 operations (3 from the second starting state) over an alphabet of setters, component changes, queries, copies, assignments, extraction, masking, inversion, smoothing; each step compares raw, continuum, continuum-free, errors, resampled flux, names, LSF, photometry. thorough: depth 5/4",
     "the model holds the data and settings a spectrum should have; the oracle is a spectrum built from scratch from them",
     ["the median continuum of a spectrum with NaN flux is undefined and not queried", "manual continuum is not queried after data replacement"])

prop("C17", "exploration", [dict(cpp="h_rebin")],
     EXH + "every small source and target grid, range, method and error option, and every sequence of three such requests on one spectrum",
     "an execution counts as non-trivial when a target sample lies inside the range; outcomes are told apart by mask and values",
     "quick: sources of 2-4 samples with two step sizes, targets of 1-3 samples on all lattice positions, 3-5 range ends on both sides, 4 methods, all error options; sequences of 3 requests; three flux components. thorough: 4 step sizes, 4 targets, sequences of 4",
     "oracle: independent nearest / linear / natural-spline evaluation and the documented error rules",
     ["at source nodes, the error and step compensation of either neighbouring segment is accepted"])

prop("C21", "exploration", [dict(cpp="h_valid")],
     EXH + "every assignment of a flux/error alphabet to the samples of a small spectrum at every range position",
     "an execution counts as non-trivial when an invalid sample lies in the range; outcomes are told apart by verdict and corrected values",
     "quick: 3 samples over the full alphabet {normal, zero, negative, tiny, NaN, +-inf} for flux and error, 4 samples over a reduced one, x all range ends on/between/outside samples, through the spectrum entry point and through the single steps; LSF and shape errors. thorough: 4 samples full alphabet",
     "oracle: sample-wise definition of valid; corrected spectra are re-validated and compared bit for bit outside the corrected samples",
     [])
prop("C20", "model_checking", [dict(cpp="h_template")],
     "explicit enumeration of all correction histories of a template on the real class, each step compared with the product formula",
     "an execution is one operation history (or one table look-up); non-trivial when a correction is in force; outcomes are told apart by the final flux",
     "quick: every history of 3 operations out of 31 (configure over five ranges/redshifts, refused configurations, dust and absorption indexes including -1 and unknown ones, amplitude, reset, new data, component changes, copies, moves, masks, receiving resampled data) from a plain and from a corrected template, with and without resampling after each step; every dust table / wavelength position, every absorption redshift, wavelength and index, convolutions with one or two LSFs, index lists. thorough: depth 4",
     "the model is the uncorrected flux plus (range, dust index, absorption index, redshift bin); the formula is evaluated from the tables with independent look-ups",
     ["the continuum components of a template are not queried while corrections are in force", "replacing the wavelengths of a corrected template is excluded (its flux is then undefined)"])

prop("C19", "model_checking", [dict(cpp="h_tplcat")],
     "explicit-state search over the real template catalog (every reachable state, breadth first to the fixed point), each transition compared with four plain lists per category",
     "every transition counts as non-trivial; outcomes are the distinct catalog states (which entries of which variant exist)",
     "two categories with up to 2 and 1 templates, four variants each; operations: add, replace, clear one, clear all in every variant at every index including -1 and one past the end, reset of the selection, recording an LSF width. thorough: 3 and 1 templates. The search reaches a fixed point (all states, any history length). Settings: two categories with up to 2 and 1 templates x 4 methods x with or without each correction asked for x each already there x first entry cleared x 3 continuum settings",
     "no abstraction of the code: every transition runs the real catalog; the state is the occupancy of the lists, which determines all later behaviour of the catalog",
     ["variants are only added for templates that exist, in the order of the originals (what the two callers do)"])

prop("C18", "model_checking", [dict(cpp="h_logrebin")],
     "explicit enumeration of all short histories of spectra through the real input context (and of all relative positions of range, spectrum and templates), every postcondition of the log grids checked after each spectrum",
     "an execution is one history (or one configuration); non-trivial when at least one spectrum is accepted; outcomes are told apart by the grids obtained or the refusal",
     "quick: every history of 3 spectra out of 10 kinds (irregular, narrow, log-sampled with six phases/steps/roundings, invalid, nearly outside) x 5 template coverages (including insufficient by less than a step); 9x9 positions of an irregular spectrum relative to the grid x 3 redshift ranges x 3 step combinations; 6x6 (thorough 10x10) template margins x redshift ranges x 4 first-pass ratios. thorough: histories of 4",
     "oracle: the grids are recomputed from their definition; template and spectrum values are compared with the linear interpolation of the originals",
     ["one observation: with several observations the FFT fit only uses the first one (see DESIGN.md)"])

prop("C22", "exploration", [dict(cpp="h_tplfit")],
     EXH + "every small spectrum, template, mask, range, redshift sequence, correction option, prior and photometry over an alphabet, direct and FFT",
     "an execution counts as non-trivial when a fit is returned; outcomes are told apart by the chi-squares",
     "quick: 5-sample spectra x 2 templates x 12 correction options x 63 redshift sequences of length 1-2 (Lyman alpha before, between and after the samples) x 4 ranges x 3 masks x 2 thresholds; all spectra over 3 values x 2 errors of 4 samples; redshift sequences of 3; 36 template coverages x 4 overlap thresholds; 5 kinds of priors; two observations at 25 relative places; two photometric bands at 25 places; FFT on the log grids: 9 redshift ranges x 5 starts x 2 lengths x 2 sub-samplings x options; FFT with priors. thorough: 5 samples, sequences of 4",
     "oracle: brute force weighted sums over the samples in the fit range for every combination of corrections, solved in closed form; chi2, amplitude, error, significance, indices, intermediate tables, SNR, overlap, likelihood constant and the chi2 of the returned model are all compared",
     ["priors are given per dust value, so they are only used with dust fitting", "redshifts at which a sample falls exactly on Lyman alpha or on the end of the template are skipped",
      "FFT fit: one observation, full coverage, amplitude prior active with positive mean"])

prop("C23", "exploration", [dict(cpp="h_airvac")],
     EXH + "every short list of wavelengths over an alphabet around both ends of the validity range, for every conversion, in both directions",
     "every execution whose wavelengths are all in the validity range counts as non-trivial; outcomes are told apart by the converted wavelengths",
     "quick: all lists of 0-3 out of 13-15 wavelengths (just outside, on, just inside the ends, in between, zero, negative), lists of 1-2 out of 20-22, a scan of 4000 wavelengths over the whole range, 5 conversions, both directions; axes built in all three ways with known and unknown conversion names. thorough: lists of 4 and 3, 200000 wavelengths",
     "oracle: the published dispersion formulas in extended precision, inverted by fixed-point iteration",
     ["the air to vacuum conversion of morton2000 is a documented approximation, compared within 2e-9 (relative)"])

prop("C24", "exploration", [dict(cpp="h_lines")],
     EXH + "every small line catalog over the attribute alphabet with all filters and conversions, and every assignment of amplitudes to small sets of elements under every rule",
     "an execution counts as non-trivial when lines are selected or a rule corrects something; outcomes are told apart by the selected lines or corrected amplitudes",
     "catalogs of up to 2 lines over {id reused, type, force, group, 4 profiles} (3 lines over type, force, group; thorough 6 profiles, 4 lines) x all filters by value and by name x 4 conversions (asymmetric profiles replaced, absorbed profiles, amplitude set, ratio catalogs) x refusals; copies, assignments and moves of a line over 6x6 profiles; up to 4 detected lines; element composition and look-up for up to 3 (4) lines and the 3 compositions; Balmer, ratio, strong/weak and super-strong rules over 2-3 elements with 1-2 lines, amplitudes {1,0,NaN,0.3,4}, errors, nominal amplitudes, in and out of range; the complete rule set over 6 rule selections and 3 line sets; ratio catalogs with up to 2 catalogs of 3 lines",
     "oracle: plain lists and the written definition of each rule applied in order; both errors zero in the ratio rule is excluded (undefined); idempotence is only required where an element does not mix limiting and limited lines",
     [])

prop("C25", "model_checking", [dict(cpp="h_classif")],
     EXH + "every assignment of results and evidences to the models, in every order, and every short sequence of classified spectra",
     "an execution counts as non-trivial always; outcomes are told apart by the reported classes",
     "one spectrum: 9 evidence values (thorough 13) incl. none, -inf, values far beyond exp range and near ties, for every ordered subset of 3 models; 4 kinds of foreign results (other method, stage, name, unprocessed model) x 9 (27) method assignments; sequences of 2 spectra over 4 (6) values and of 3 spectra over 2 (3) values, with the solver reused or rebuilt",
     "oracle: softmax of the evidences in long double; NaN evidences are excluded (no solver produces them); on exact ties any of the best models may be reported",
     [])

prop("C03", "model_checking", [dict(cpp="h_store", args=["--c03"])],
     EXH + "breadth-first search over sequences of scope operations, every nesting of automatic scopes with exceptions, every set of definitions of a parameter over the scopes",
     "every execution is non-trivial; outcomes are told apart by the stack, document and scope reached",
     "scope stack: all sequences of 6 (thorough 8) operations out of opening {model, stage, method, plain} x 2 names and closing; automatic scopes: all nestings of 6 (7) operations {open a scope of each type, leave, throw, try block}; parameters: all 64 subsets of 6 definition sites x previous document x run-time value x 9 scope situations x 4 value types; 2 (3) settings of 9 value types; derived settings over all methods and flags of two models",
     "oracle: a plain list of (name, type) and a map from full names to values",
     [])
prop("C04", "model_checking", [dict(cpp="h_store", args=["--c04"])],
     EXH + "breadth-first search over sequences of store, look-up, existence and reset operations with colliding names",
     "every execution is non-trivial; states are told apart by the stored names, types and open scopes",
     "18 operations (store here / at a path / by full name / per template / flags, reset, enter and leave scopes) to depth 5 (thorough 7), and 10 such operations from inside a method with deeper scopes, observed through every look-up over 3 models x 3 stages x 2 methods x 5 names and from the current scope; candidate datasets of 3 result kinds x 1-3 candidates x 8 dataset names",
     "oracle: a map from full names to the stored objects; results must be the identical object",
     [])
prop("C05", "model_checking", [dict(cpp="h_store", args=["--c05"])],
     EXH + "breadth-first search over sequences of warnings, stages that succeed or fail, flag storage, resets and new spectra",
     "every execution is non-trivial; states are told apart by the recorded and pending warnings",
     "36 operations (3 warnings outside stages, a stage of either of 2 models with 5 warning lists that succeeds, fails with a library error or with another error, storing the init flags, resetting, next spectrum) to depth 4 (thorough 6); all pairs of the 18 warning codes",
     "oracle: lists of warnings per stage; stages are solver objects run through CSolve::Compute",
     [])

prop("C01", "fault_enumeration", [dict(py="flow")],
     EXH + "every assignment of success, library error and other error to every stage of every small configuration, executed by the real orchestration",
     "every execution is non-trivial; outcomes are told apart by the executed stages and the reported errors",
     "two spectrum models out of 17 configurations (redshift solver x line measurement x reliability x sub-types) x 5 of them (thorough: x 17), in both orders, every stage that is executed works, fails with a library error or with another exception (the second model: works or fails; thorough: all three); one model with the real result loading, three models; 4 kinds of initialisation failure for all 17 x 17 pairs; sequences of 2 (3) spectra with one failing stage each and failing initialisations in between",
     "the real ProcessFlow, Parameters, ResultStoreOutput, scopes and C++ context run; what a stage computes is replaced by a stand-in that works or fails. oracle: the documented table of dependencies",
     ["the number of stages is that of the documented pipeline; a failing stage fails before it has stored a result"])

prop("C02", "model_checking", [dict(py="history")],
     EXH + "every sequence of spectra up to the bound, processed by the real pipeline in a process of its own, against the result each spectrum gives as the first of a run",
     "every history is non-trivial; outcomes are told apart by the documents, spectra, number of results and errors",
     "14 parameter documents (line model with and without FFT, velocity fit, continuum from the spectrum, line measurement, template fitting with and without FFT, template combination, photometry, several observations, LSF from the spectrum, line measurement from a catalog, corrected input), each with 4 to 8 spectra (other sampling, coverage, redshift, LSF, logarithmic sampling, missing photometry, refused at initialisation, failing in the solver): all sequences of 2, and of 3 with the first one again (thorough: all of 3); 6 pairs of documents in one process, both orders",
     "the real library end to end on small made-up calibration data; all values, ranges, warnings and errors compared bit for bit; templates compared before and after; results of earlier spectra compared after the later ones",
     ["calibration data are made up; two template directories, two line ratio templates, four emission lines"])

prop("C26", "model_checking", [dict(cpp="h_linemodel")],
     EXH + "every sequence of line model fits up to the bound (redshifts, passes, velocities, queries in between) on one real CLineModelFitting, each fit compared bit for bit with the same fit as the first one of an instance",
     "non-trivial: more than one fit of the history succeeds; outcomes are told apart by success or the error of each fit",
     "44 configurations (continuum: none, from the spectrum, 1 or 2 fitted templates; ratios: rules, tplRatio, tplCorr; LyA profile fixed, fitted, IGM; fitters individual, hybrid, svd, svdlc, svdlcp2, ones; line measurement with amplitude and wavelength offsets and polynomials of degree 0 to 2; continuum re-estimation; 2 observations; switches of the LyA profile) x 4 redshifts (lines entering and leaving the range) x passes 1, 2, 3 x 2 velocities: all sequences of 2 with 4 queries in between (thorough: of 3); the chi-square of the model left by every single fit; a line measurement solution brought back after any other fit",
     "the fits run on the real spectrum models, elements, templates and stores, set up as the operators do",
     ["made-up catalog of 4 to 7 lines, two templates, two line ratio templates", "the L-BFGS-B fitter is not part of the official build here (its library is not installed)"])

prop("C06", "model_checking", [dict(py="reader")],
     EXH + "every delivery of samples within the bounds to the real readers, against lists of samples",
     "non-trivial: at least one filter, several observations, or an inconsistency; outcomes are told apart by the number of samples that remain and the kind of refusal",
     "1 or 5 samples in 5 forms (arrays, table columns with default, reversed, selected or differing indices) x up to 2 of 20 filters (13 instructions, extra and mandatory columns under both names), every instruction with every value below 8 (thorough 16) and a second filter on a column of every integer below 16 x air or vacuum x 3 conversions; 1 to 4 overlapping observations with repeated wavelengths in every order x merged or not x 7 filters x 4 forms (thorough: 20); 14 kinds of inconsistent delivery; sequences of 1 to 3 spectra with 6 line spread functions or none; photometry; the ASCII reader; unsorted and repeated samples through the whole pipeline",
     "the wavelength conversion itself is C23's; samples are told apart by their flux, error and flag",
     ["one extra integer column", "made-up calibration data in the pipeline suite"])

prop("C27", "exploration", [dict(cpp="h_tplcomb")],
     EXH + "every small spectrum, set of templates, redshift sequence, range and correction option over an alphabet",
     "an execution counts as non-trivial when a fit is returned; outcomes are told apart by the chi-squares",
     "quick: 8-sample spectra of 4 kinds x 7 sets of one to three templates (independent, multiples of one another) x 12 correction options x 40 redshift sequences of length 1-2 x 4 ranges x 2 flux scales; all spectra over 4 values x 2 errors of 2 to 4 samples; 36 template coverages x 4 overlap thresholds x 3 ranges; redshift sequences of 3 in any order. thorough: 5 samples, all pairs of 10 redshifts, sequences of 4",
     "oracle: weighted least squares by orthogonalisation of the corrected templates, in extended precision, for every pair of corrections; chi2, overlap, indices, amplitudes, errors, significances, covariance, SNR, intermediate tables, likelihood constant and the chi2 of the returned model are all compared",
     ["the templates share one wavelength axis, as the method requires", "amplitudes and their errors are compared when the templates are independent over the fitted range (otherwise only the chi-square, the indices and the model are)",
      "redshifts at which a sample falls exactly on Lyman alpha or on the end of the templates are skipped"])
prop("C28", "exploration", [dict(cpp="h_profile")],
     EXH + "every profile kind, parameter, position and instrument response over an alphabet; explicit-state search over every sequence of parameter operations on a skewed profile",
     "an execution counts as non-trivial when a profile or response is built or refused; outcomes are told apart by integrals and widths",
     "quick: 4 kinds x 3 width coefficients x 6 asymmetries x 3 offsets x 3 centrings x 2 supports at 161 positions x 2 centres x 2 widths; 96 absorbed lines; all tables of up to 4 of 5 wavelengths with 4 width values (missing, negative, wrong count included); operation sequences of 5 over 9 operations. thorough: 13 asymmetries, 5 offsets, 6 coefficients, 4 widths, 504 absorbed lines, 6 width values",
     "oracle: independent skew normal (mode located numerically), six-point differences and fine trapezoidal integrals of the profile itself, closed forms of the response widths, a parameter record for the sequences",
     ["the mode of a skewed profile is the documented approximation: compared within 3% of the peak", "derivatives across the Lyman alpha edge of the absorption are not compared"])

prop("C29", "exploration", [dict(cpp="h_linefit")],
     EXH + "every line list, signal, noise, sampling, fitting method, polynomial degree and planted offset over an alphabet, each fitted by the real line model and compared with an independent least-squares solution",
     "an execution counts as non-trivial when a line lies in the fitted range; outcomes are told apart by how the lines are grouped and how many amplitudes are zero",
     "quick: 9 line lists at 6 separations (alone, pairs, chains, groups with ratios, emission over absorption, absorption groups, at and beyond the borders) x 3 amplitudes each x 3 noises x 2 samplings x 3 fitting methods with and without continuum; measurements with polynomials and planted offsets (100 and +-400 km/s, none, one or all lines movable) x 2 separations; Balmer lines with 6 width pairs, 4 lists and neighbours; every order and strength of the lines of 7 lists for the cumulated signal to noise. thorough: all separations, 5 offsets, 3 samplings, two widths and redshifts",
     "oracle: normal equations in extended precision over the samples of the windows (recomputed from positions, widths and borders to within one sample), own line shape, width, grouping by overlap, non-negativity steps and offset scan",
     ["a line contributes outside its window in the joint fit and not in the model: differences of that size (below 1e-3 of the peak) are tolerated", "fits with an amplitude within 1e-9 of zero are not compared", "the L-BFGS-B fitter is not built here (its solver is not installed)"])
