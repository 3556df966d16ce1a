"""Source of /verif/properties.jsonl (bin/mkmanifest writes it)."""
PROPS = []

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

PY = "pylibamazed/python/pylibamazed/"
CC = "RedshiftLibrary/src/lib/"
HH = "RedshiftLibrary/RedshiftLibrary/"

P("C01", "A failing stage never takes down a run; the report says exactly what failed",
  "When any processing stage of a spectrum fails, processing of that spectrum still terminates normally, the failed stage reports its own error code, stages that depend on it are reported as failed because of it (and are not executed), and every independent stage of every other model is executed and stored as if nothing had failed. Stages that are disabled by the parameters are neither executed nor reported.",
  ["fault_sequences", "configurations"],
  "every set of enabled stages over two spectrum models x every assignment of success/failure to the stages",
  "the tests run one nominal configuration and at most one failing stage; the combinations of configuration and failing stages are exponential",
  [PY + "ProcessFlow.py", PY + "Context.py", PY + "Exception.py", PY + "ResultStoreOutput.py"],
  [("run loop over root stages and spectrum-model stages", PY + "ProcessFlow.py"),
   ("error containment decorator and dependency map", PY + "ProcessFlow.py")],
  [("errors per (model, stage)", "what is reported in the output", PY + "AbstractOutput.py")],
  ["the output object's error table and datasets"])

P("C02", "The result for a spectrum does not depend on what was processed before it",
  "Processing the same spectrum with the same parameters gives the same result (values, ranges, warnings) whether it is the first spectrum of the run or follows any sequence of other spectra, including ones whose processing failed half-way. Calibration data shared between spectra (templates, corrections, log-sampled and orthogonalised variants) are observably the same before and after a spectrum is processed.",
  ["histories"],
  "every sequence up to a bounded length of spectra from a small alphabet (different redshift ranges, samplings, resolutions, failing ones) processed by one context, compared with a fresh process",
  "tests process one spectrum per process; state carried over needs a specific earlier spectrum",
  [CC + "processflow/context.cpp", CC + "processflow/inputcontext.cpp", CC + "spectrum/template/catalog.cpp", CC + "spectrum/template/template.cpp", CC + "spectrum/logrebinning.cpp"],
  [("reset of the spectrum specific part of the context", CC + "processflow/inputcontext.cpp"),
   ("reset of the template corrections", CC + "spectrum/template/template.cpp")],
  [("context singleton", "input context, result store, parameter store, scope stack", CC + "processflow/context.cpp")],
  ["results in the result store, templates of the catalog"])

P("C03", "A scoped parameter is the one of the current scope; scopes balance",
  "Looking a name up from a scope (the current one, the enclosing one of a given depth or the enclosing one of a given type) returns the value defined for the dotted name <scope path>.<name> and no other, whatever else is defined elsewhere; lists alone fall back to the document root; when nothing is defined the look-up fails with a missing-parameter error and existence queries say so. Scopes open only where they may (one spectrum model, before any stage; one stage, before any method; a method directly in a stage), everything else being refused without effect, and they balance on every path, exceptions included. Values set at run time are read back unchanged, and the settings derived from parameters (dust, extinction, FFT, orthogonalisation, per model) follow the parameters of that model.",
  ["histories", "configurations"],
  "every sequence of scope operations up to a bounded depth x every set of definitions of a name over the scopes",
  "tests cover single nested examples",
  [CC + "processflow/scopestack.cpp", CC + "processflow/scopestore.cpp", CC + "processflow/autoscope.cpp", CC + "processflow/parameterstore.cpp", HH + "processflow/parameterstore.h"],
  [("stack discipline and level checks", CC + "processflow/scopestack.cpp"),
   ("scoped name search", CC + "processflow/scopestore.cpp")],
  [("scope stack", "names and levels currently open", HH + "processflow/scopestack.h")])

P("C04", "Results are stored once, under their own name, and found again unchanged",
  "A result stored for a spectrum model, stage, method and name is the one returned by every lookup with that key and by no other, a second store under the same key is refused without altering the first, existence queries agree with what was stored, and resetting removes everything.",
  ["histories"],
  "every sequence of store, lookup, existence query and reset operations over colliding keys up to a bounded depth, against a plain map",
  "tests use one key at a time",
  [CC + "processflow/resultstore.cpp", CC + "processflow/scopestore.cpp"],
  [("two-level result map with duplicate refusal", CC + "processflow/resultstore.cpp")])

P("C05", "Every warning is attributed to the stage that raised it, once",
  "The warning mask and messages recorded for a stage contain exactly the warnings raised while that stage ran (and those raised after the end of the previous recording, which belong to the next one), in order: warnings never leak into a later stage or a later model, and none is lost, also when the stage fails. Bits combine without interfering, and a reset forgets everything.",
  ["histories", "fault_sequences"],
  "every sequence of warnings, stage ends, resets and failures up to a bounded depth",
  "tests raise single warnings in a single stage",
  [CC + "common/flag.cpp", CC + "method/solve.cpp", CC + "method/objectSolve.cpp", PY + "Context.py", PY + "ProcessFlow.py"],
  [("global flag mask, stored and reset at the end of each stage", CC + "common/flag.cpp")])

P("C06", "A spectrum reaches the library exactly as it was loaded and filtered",
  "For every way of delivering wavelengths, fluxes, errors and extra columns (one or several observations, merged or not, in any order, in air or vacuum) the spectrum handed to the fit holds each sample exactly once, with flux, error and wavelength still belonging together, sorted by wavelength, restricted to the samples accepted by the configured filters; inconsistent deliveries are refused with the documented error.",
  ["inputs", "configurations"],
  "every small set of observations with permuted samples x filter instruction lists x multi-observation methods",
  "tests use a handful of spectra and filters",
  [PY + "AbstractSpectrumReader.py", PY + "Container.py", PY + "Filter.py", PY + "FilterLoader.py", PY + "ASCIISpectrumReader.py"],
  [("loading, merging, filtering and sorting of the columns", PY + "AbstractSpectrumReader.py"),
   ("filter algebra", PY + "Filter.py")])

P("C07", "Configurations are validated and converted without changing their meaning",
  "Converting a version-1 parameter document gives a document with the same settings under the new names and loses none; checking never modifies the document, refuses exactly the documents in which a setting required by another setting is missing, warns about settings given for a feature that is not enabled, and about no others. A setting reported as unused can be removed without changing any result, and a document that is accepted can really be run. Derived settings depend only on the document, not on earlier documents.",
  ["configurations"],
  "every combination of presence/absence and relevant values of interdependent settings, around complete documents",
  "tests check each rule alone on one document",
  [PY + "ParametersChecker.py", PY + "ParametersConverter.py", PY + "ParametersExtender.py", PY + "ParametersAccessor.py", PY + "Parameters.py"],
  [("conditional requirement rules", PY + "ParametersChecker.py"), ("renaming tables", PY + "ParametersConverter.py")])

P("C08", "What is written to the output file is what was computed",
  "Every attribute, dataset, error and warning held by a result is written under the documented name and level with the value it had and is read back equal, no entry of one spectrum model, candidate or stage is written under another, and results that are absent stay absent instead of being invented. The entries reported for one candidate describe one solution: its redshift is a node of the posterior with that density, its lines lie at that redshift, its least square is that of its model over the spectrum and its photometric fluxes are those of its continuum.",
  ["configurations", "inputs", "fault_sequences"],
  "every combination of models, stages, candidates and missing results over a small result set, written to HDF5 and compared with the in-memory result; whole runs of every method, with every stage failing before or after its work, compared with the C++ results",
  "tests write one nominal output",
  [PY + "H5Writer.py", PY + "AbstractOutput.py", PY + "ResultStoreOutput.py", PY + "OutputSpecifications.py"],
  [("result specification driven access", PY + "AbstractOutput.py"), ("HDF5 writer", PY + "H5Writer.py")])

P("C09", "Index lookups, interval selections and masks agree with their definitions",
  "For every ordered list and every range, closed intervals hold exactly the samples inside the range, enclosing intervals are the tightest ones that contain it, nearest-neighbour lookups return a nearest sample, and unions, intersections and overlap fractions are those of the sets they stand for; a request that has no answer is refused rather than answered out of bounds.",
  ["inputs"],
  "all ordered lists over a small lattice x all ranges and values on the half lattice, including ends, gaps and outside positions",
  "tests sample a few lists; the errors hide at ends, equalities and gaps",
  [HH + "common/range.h", HH + "common/indexing.h", HH + "common/mask.h", CC + "common/mask.cpp", HH + "common/vectorOperations.h"],
  [("binary searches with end corrections", HH + "common/range.h")])

P("C10", "Redshift grids are sorted, complete, bounded and keep their nodes",
  "A generated redshift grid starts at the lower bound (or is centred on the requested centre, which is a node), is strictly increasing with the requested linear or (1+z)-logarithmic step, stays inside the bounds and does not stop earlier than one step before the upper bound. Inserting finer sub-grids replaces exactly the coarse nodes they cover, so that the merged grid is strictly increasing, has no duplicate and keeps every fine node and every uncovered coarse node; regenerating a grid from its own description reproduces it, and per-node data updated alongside stay aligned.",
  ["inputs", "configurations"],
  "all bounds/steps/centres over a lattice of commensurable and incommensurable values, all positions and overlaps of one to three sub-grids",
  "tests use a few hand-computed grids; rounding at the ends and adjacent or overlapping sub-grids need enumeration",
  [HH + "common/range.h", CC + "common/zgridparam.cpp", CC + "operator/linemodel.cpp", CC + "operator/linemodelresult.cpp", CC + "operator/logZPdfResult.cpp"],
  [("SpreadOver*, spanCenteredWindow, insertSubgrid", HH + "common/range.h")])

P("C11", "The redshift posterior is a normalised probability built from the likelihoods",
  "For every chi-square table, the posterior returned over the redshift grid integrates to one, is ordered as the (prior-weighted) likelihoods are, does not change when a constant is added to all chi-squares, and combines several models with their evidence and model priors exactly as marginalisation or best-chi2 selection prescribes. Inputs that cannot give a posterior (not finite, flat, mismatched sizes) are refused with an error.",
  ["inputs"],
  "all chi-square tables over a small value alphabet (including huge, tied and invalid values) x models x priors x combination methods, against an independent long-double computation",
  "tests use a few tables; overflow, underflow, ties and prior combinations need enumeration",
  [CC + "operator/pdfz.cpp", CC + "operator/logZPdfResult.cpp", CC + "statistics/zprior.cpp"],
  [("log-sum-exp integration and evidence weighting", CC + "operator/pdfz.cpp"), ("posterior validity checks", CC + "operator/logZPdfResult.cpp")])

P("C12", "The candidate peaks are the best distinct local maxima of the signal",
  "Every returned peak is a local maximum of the signal (the middle of it when it is flat-topped), the global maximum is always returned first, peaks come in decreasing order, respect the requested count, separation, merit cut and range, and no maximum is left out except for one of those reasons.",
  ["inputs"],
  "all signals over a small alphabet up to a bounded length, with plateaus, NaN ends, borders, ranges, and every combination of separation, merit cut and count",
  "tests use a few signals; plateaus at borders, shoulders and ties combine in many ways",
  [CC + "extremum/extremum.cpp"],
  [("plateau tracking state machine", CC + "extremum/extremum.cpp"), ("greedy neighbour elimination", CC + "extremum/extremum.cpp")])

P("C13", "Candidate probabilities are integrals over disjoint windows of the posterior",
  "Each candidate's probability is the integral of the posterior over its window around the candidate, windows lie inside the redshift range and neighbouring ones meet in at most one grid cell, so probabilities are between 0 and 1 and, that cell aside, add up to at most one. Candidates are ranked by decreasing probability, ranks and identities are unique and attached to the right redshift and parent, at most the requested number is returned and the reported redshift uncertainty is positive.",
  ["inputs"],
  "all sets of up to four candidates over a lattice of positions, widths and heights on small posteriors, first and second pass",
  "tests use two or three candidates; the failures need three or more mutually close windows or windows at the border",
  [CC + "statistics/pdfcandidatesz.cpp", CC + "statistics/deltaz.cpp", CC + "operator/pdfz.cpp"],
  [("window overlap resolution and duplicate removal", CC + "statistics/pdfcandidatesz.cpp"), ("ranking and truncation", CC + "operator/pdfz.cpp")])

P("C14", "Putting a posterior on a regular grid changes its sampling, not its content",
  "Converting a posterior with refined windows to a regular grid gives a regular grid over the same redshift range with the coarse or fine step asked for, its values are the original ones at common nodes and interpolated between neighbours elsewhere, an already regular posterior is untouched, and extending it to the right keeps all existing values.",
  ["inputs", "configurations"],
  "all mixed grids with up to three refined windows over a lattice, both directions and samplings",
  "the tests convert one example",
  [CC + "operator/logZPdfResult.cpp", PY + "pdf.py"],
  [("regular grid construction and interpolation", CC + "operator/logZPdfResult.cpp")])

P("C15", "What a wavelength axis says about itself always matches its samples",
  "After any sequence of operations on a wavelength axis (filling, resizing, masking, extracting, offsetting, shifting by a redshift, resampling, copying, moving) its answers about being sorted, log sampled and with which step equal those computed from its current samples, and the samples are those the operations prescribe.",
  ["histories"],
  "every sequence of operations up to a bounded depth over axes with up to a few samples (explicit-state search), compared with a fresh axis holding the same samples",
  "tests call one or two operations; cached answers go stale only after specific sequences",
  [CC + "spectrum/spectralaxis.cpp", CC + "spectrum/axis.cpp", HH + "spectrum/spectralaxis.h"],
  [("cached sortedness and log-sampling state with invalidation", CC + "spectrum/spectralaxis.cpp")],
  [("cached sorted / log-sampled state", "answers kept between calls", HH + "spectrum/spectralaxis.h")])

P("C16", "A spectrum never serves stale derived data, and copies are faithful",
  "After any sequence of operations on a spectrum (setting axes, scaling, changing the continuum method or the flux component in use, removing the continuum, denoising, inverting, resampling, copying, assigning), the raw flux, continuum, continuum-free flux, errors and resampled flux that it returns are those of a spectrum freshly built from its current data and settings. A copy equals its source in every observable and later changes to either do not affect the other.",
  ["histories"],
  "every sequence of operations up to a bounded depth over a small spectrum (explicit-state search), each state compared with a freshly built spectrum",
  "tests exercise operations one at a time; stale caches need a query, a change and another query",
  [CC + "spectrum/spectrum.cpp", CC + "spectrum/rebin/rebin.cpp", CC + "spectrum/rebin/rebinFineGrid.cpp"],
  [("lazy continuum estimation and resampling cache invalidation", CC + "spectrum/spectrum.cpp")],
  [("continuum cache, fine grid cache", "derived data kept between calls", HH + "spectrum/spectrum.h")])

P("C17", "Resampling interpolates inside the range, and flags everything else",
  "For every source grid and target grid, a resampled value is the interpolation of the neighbouring source samples of its method, exact at source nodes; the mask is set exactly for target samples inside the range, everything else is flagged and neutral. Errors are propagated as documented, never silently replaced by zero or by the error of another sample, and unsupported requests are refused.",
  ["inputs", "configurations"],
  "all small source and target grids on a lattice x ranges x methods x error options",
  "tests resample a few grids",
  [CC + "spectrum/rebin/rebin.cpp", CC + "spectrum/rebin/rebinLinear.cpp", CC + "spectrum/rebin/rebinNgp.cpp", CC + "spectrum/rebin/rebinSpline.cpp", CC + "spectrum/rebin/rebinFineGrid.cpp"],
  [("per method target scan with cursor", CC + "spectrum/rebin/rebinLinear.cpp")])

P("C18", "Log-resampled spectra and templates share one aligned logarithmic grid",
  "When logarithmic resampling is in use, the spectrum and every template of the model end up on log grids of the same step, mutually aligned to that step, covering the wavelength range needed for the whole redshift range, or processing is refused with an error; the redshift range actually used is the one both grids can represent. Templates already on a suitable grid may be reused, unsuitable ones are always rebuilt.",
  ["histories", "configurations"],
  "all small spectra, wavelength ranges, redshift ranges and steps over a lattice, in every order of two or three successive spectra",
  "tests rebin one spectrum with one template list",
  [CC + "spectrum/logrebinning.cpp", CC + "spectrum/spectralaxis.cpp", CC + "processflow/inputcontext.cpp"],
  [("log grid derivation and alignment test", CC + "spectrum/logrebinning.cpp")])

P("C19", "The template catalog keeps its variants consistent and its indexes valid",
  "After any sequence of adding, replacing, clearing and selecting variants of templates, the catalog returns for each category, variant and index or name exactly the template last stored there, index i of a variant denotes the same template as index i of the original list, and clearing originals never leaves a derived variant of a template that no longer exists. Continuum settings and extinction corrections reach every original of the categories they are asked for, and no other.",
  ["histories"],
  "every sequence of catalog operations over two categories and two templates per category up to a bounded depth (explicit-state search), against a plain map model",
  "tests run one scenario",
  [CC + "spectrum/template/catalog.cpp", HH + "spectrum/template/catalog.h"],
  [("variant selection state and per-variant lists", CC + "spectrum/template/catalog.cpp")],
  [("variant in use (sampling, orthogonal)", "which list reads and writes address", HH + "spectrum/template/catalog.h")])

P("C20", "Extinction and IGM absorption are applied to a template exactly, never twice",
  "After any sequence of applying dust coefficients and intergalactic absorption to a template, over any sub-range and in any order, its flux in that range is the uncorrected flux multiplied once by the coefficient of the last dust index and once by the curve of the last absorption index for the redshift, changing a parameter replaces the earlier correction, and resetting restores the original flux. Correction curves lie in [0,1], no extinction means factor one, and values outside the tabulated range follow the documented extension.",
  ["histories", "inputs"],
  "every sequence of apply, change range, change redshift, copy, mask, reset operations up to a bounded depth (explicit-state search), against the product formula",
  "tests apply one correction at a time; double application needs a sequence",
  [CC + "spectrum/template/template.cpp", CC + "spectrum/fluxcorrectioncalzetti.cpp", CC + "spectrum/fluxcorrectionmeiksin.cpp"],
  [("separate coefficient vectors recombined at each application", CC + "spectrum/template/template.cpp")],
  [("current dust / absorption coefficients and range", "corrections in force", HH + "spectrum/template/template.h")])

P("C21", "Invalid samples are always detected, and correction neutralises exactly those",
  "A spectrum is accepted for a wavelength range only if every sample in the range has a finite flux and a finite, strictly positive error and the flux is not identically zero; otherwise the documented error is raised. Automatic correction replaces exactly the invalid samples of the range by harmless values with a large error, leaves all other samples bit-identical, reports whether and that it changed something, and its result passes the validation.",
  ["inputs"],
  "all assignments of {normal, zero, negative, tiny, NaN, infinite} to flux and error of every sample of small spectra, at every position relative to the range",
  "tests put one bad sample in the middle",
  [CC + "spectrum/spectrum.cpp", CC + "spectrum/noiseaxis.cpp", CC + "spectrum/fluxaxis.cpp", CC + "processflow/inputcontext.cpp"],
  [("validation scans and correction", CC + "spectrum/spectrum.cpp")])

P("C22", "Template fitting returns the true least-squares optimum over its grid",
  "For every redshift, the returned amplitude, its error, chi-square and correction indices are those of the weighted least-squares optimum of the template scaled by one amplitude over every combination of extinction and absorption asked for, computed on the samples in the fit range, with documented priors and positivity; direct and logarithmic (FFT) fitting agree where both apply, and optimised evaluation paths never change the result.",
  ["inputs", "configurations"],
  "all small spectra, templates, masks, redshift lists and option combinations over an alphabet, against a brute force reference",
  "tests compare one stored case",
  [CC + "operator/templatefitting.cpp", CC + "operator/templatefittingBase.cpp", CC + "operator/templatefittinglog.cpp", CC + "operator/templatefittingwithphot.cpp"],
  [("cross products with split sums for absorption", CC + "operator/templatefitting.cpp")])

P("C23", "Air and vacuum wavelengths convert back and forth without loss",
  "For every supported conversion and every wavelength list in its validity range, converting vacuum to air and back returns the original wavelengths within tolerance, the result does not depend on which other wavelengths are converted in the same call, vacuum wavelengths exceed air ones and order is preserved; wavelengths outside the validity range and unknown conversions are refused.",
  ["inputs"],
  "all lists of up to four wavelengths over a lattice covering both ends of each validity range x all conversions",
  "tests convert one list per formula",
  [CC + "line/airvacuum.cpp"],
  [("iterative inversion with a convergence test", CC + "line/airvacuum.cpp")])

P("C24", "Line catalogs select and relate exactly the lines asked for",
  "Adding, filtering by type and force, grouping and converting lines of a catalog yields exactly the lines that match, each once and with unchanged attributes; lines of unknown type, force or profile are refused and leave the catalog as it was, and copies are independent of their original. Every line is in exactly one element of the line model, with its attributes, and is found by its identifier or name. Each amplitude rule (Balmer decrement, ratio range, strong higher than weak, super strong), and all of them in sequence, changes exactly the amplitudes that violate it, to the value its definition gives, leaves unfitted lines unfitted, and logs what it corrects; applied again the limiting rules change nothing; disabled they change nothing. Line ratio catalogs prescribe their own amplitudes for each line, with dust attenuation, and the best-fit catalog is the one of least chi2.",
  ["inputs", "configurations"],
  "all catalogs of up to a few lines over the attribute alphabet x all filters; all amplitude and error assignments over a small alphabet x rules",
  "tests cover a few lines and one rule scenario each",
  [CC + "line/catalog.cpp", CC + "line/line.cpp", CC + "line/regulament.cpp", CC + "line/rule.cpp", CC + "line/ruleStrongHigherThanWeak.cpp", CC + "line/rule2singlelinesamplitude.cpp", CC + "line/ruleOIIRatioRange.cpp", CC + "line/ruleSuperStrongHighest.cpp"],
  [("rule evaluation and correction", CC + "line/rule.cpp")])

P("C25", "Classification probabilities follow the evidences of the models that succeeded",
  "The class probabilities are the normalised evidences (with their priors) of the models that produced a result, they lie in [0,1] and add up to one, the reported class is the one with the largest, models without result get probability zero, and the outcome depends neither on the order of the models nor on earlier classifications; with no usable model an error is raised.",
  ["inputs", "histories"],
  "all assignments of {missing, several evidence values including extreme ones} to three models x all sub-types, in sequences",
  "tests use one set of evidences",
  [CC + "method/classificationsolve.cpp", CC + "method/classificationresult.cpp"],
  [("max-subtracted exponentials", CC + "method/classificationsolve.cpp")])

P("C26", "Line-model evaluation at a redshift does not depend on evaluation history",
  "Fitting the line model at a redshift gives the same chi-square, amplitudes, continuum and velocities whether it is the first evaluation or follows evaluations at any other redshifts with any outcome, and the chi-square returned equals the error-weighted sum of squared differences between the observed spectrum and the model that is returned for it.",
  ["histories", "configurations"],
  "every sequence up to a bounded length over a small set of redshifts x line catalogs x fitting methods x continuum options, against a fresh instance",
  "tests run one pass over one grid",
  [CC + "linemodel/linemodelfitting.cpp", CC + "linemodel/elementlist.cpp", CC + "linemodel/element.cpp", CC + "linemodel/abstractfitter.cpp", CC + "linemodel/spectrummodel.cpp"],
  [("per redshift re-initialisation of element supports and model flux", CC + "linemodel/linemodelfitting.cpp")])

P("C27", "Combining templates returns the true least-squares optimum over its grid",
  "For every redshift, the returned chi-square and correction indices are those of the best combination over every pair of extinction and absorption asked for, the amplitudes, their errors, significances and covariance are those of the weighted least-squares fit of all the templates with these corrections to the samples in the fit range, and the stored intermediate chi-squares are those of each pair. The spectrum model rebuilt from a result has the chi-square of that result, results do not depend on the unit of the flux or on the order of the redshifts, the overlap reported is the covered fraction of the range, and fits without enough overlap or samples are refused.",
  ["inputs", "configurations"],
  "all small spectra, sets of templates, redshift lists, ranges and option combinations over an alphabet, against an independent least-squares solution",
  "tests compare one stored case with two templates",
  [CC + "operator/tplcombination.cpp", CC + "method/tplcombinationsolve.cpp"],
  [("linear fit per pair of corrections", CC + "operator/tplcombination.cpp"), ("model of a combination", CC + "operator/tplcombination.cpp")])
P("C28", "Line shapes and the instrument response are what they are documented to be",
  "Every line profile (Gaussian, Lorentzian, skewed with any asymmetry, offset and centring, absorbed by the intergalactic medium) has the documented value, its flux is the integral of its value, its derivatives with respect to the centre and to the width are those of its value, and a profile centred on its mean or mode has it there. Every sequence of parameter changes, resets, copies and conversions leaves exactly the documented parameters, invalid ones being refused at use. Every instrument response has the documented or interpolated width inside its range, clips or refuses outside, gives kernels of unit sum in proportion to the Gaussian of that width, and is refused when its parameters make no valid response.",
  ["inputs", "configurations", "histories"],
  "all profile kinds, parameters, positions and responses over an alphabet, and all sequences of parameter operations up to a depth",
  "tests check values at the centre of the line and symmetry at one width",
  [CC + "line/lineprofileASYM.cpp", CC + "line/lineprofileASYMFIT.cpp", CC + "line/lineprofileSYM.cpp", CC + "line/lineprofileSYMIGM.cpp", CC + "line/lineprofileLOR.cpp", CC + "spectrum/LSF.cpp", CC + "spectrum/LSFConstantResolution.cpp", CC + "spectrum/LSFVariableWidth.cpp", CC + "spectrum/LSF_NISPSIM_2016.cpp", CC + "spectrum/LSF_NISPVSSPSF_201707.cpp"],
  [("derivatives of the skewed profile", CC + "line/lineprofileASYM.cpp"), ("interpolated width", CC + "spectrum/LSFVariableWidth.cpp")])
P("C29", "Fitted lines are the least-squares solution of the samples under them",
  "At every redshift, the amplitudes of the lines, with the polynomials fitted with them, are those of the weighted least-squares fit of the samples inside the windows of the lines that the fitting method fits together (each element alone, the ones that overlap, or all), their uncertainties are those of that fit, and an amplitude that would be negative is zero with the others refitted. A common wavelength offset, where lines may have one, is the one of least chi-square over the documented range, both ends included. The lines of an element keep their ratios, an absorption takes no more than the continuum, a line outside the fitted range has no amplitude, improving the Balmer lines never worsens the fit nor makes an amplitude negative, and the cumulated signal to noise of the (strong) emission lines counts each sample under them once.",
  ["inputs", "configurations"],
  "all line lists (separations, types, groups, borders), signals, noises, samplings, fitting methods, polynomials and offsets over an alphabet",
  "tests fit one spectrum per method and compare with recorded values",
  [CC + "linemodel/svdfitter.cpp", CC + "linemodel/hybridfitter.cpp", CC + "linemodel/individualfitter.cpp", CC + "linemodel/abstractfitter.cpp", CC + "linemodel/element.cpp", CC + "linemodel/elementlist.cpp", CC + "linemodel/spectrummodel.cpp"],
  [("joint linear fit", CC + "linemodel/svdfitter.cpp"), ("lines that overlap", CC + "linemodel/elementlist.cpp"), ("choice of the offset", CC + "linemodel/abstractfitter.cpp")])
