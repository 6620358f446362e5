"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Keplerian velocities are exact, and both Kepler solvers agree and terminate",
 "For every orbit (period > 0, any periastron time, 0 <= e <= 0.99, any argument of periastron and semi-amplitude) and every set of observation times, the synthesised radial velocity equals K[cos(nu+w)+e cos w], where nu follows from Kepler's equation at the time's mean anomaly, to numerical precision, element by element and whatever the number, order or numeric type of the times. The compiled and the pure-Python solver give the same velocities, the Kepler-equation solver returns a root of E - e sin E = M for every mean anomaly and eccentricity it is given, and every evaluation returns: none loops for ever or ends the process. Eccentricities outside [0, 0.99] and negative periods that a sampler may propose are clamped to the documented limits and give finite velocities.",
 ["inputs"], "all orbital elements in the supported ranges (including e from 1e-12 to 0.99, times many periods away from periastron, phases exactly at periastron/apastron) and all arrays of times",
 "Existing tests compare two solvers on a handful of hand-picked (M, e) and otherwise only time them; whether the iteration converges, or the formula is right, depends on every point of the (M, e, w, t) space.",
 ["radvel/kepler.py", "radvel/orbit.py", "src/kepler.c", "src/_kepler.pyx"],
 [("rv_drive: clamping, circular shortcut, solver dispatch", "radvel/kepler.py:rv_drive"), ("Danby iteration (Python)", "radvel/kepler.py:kepler"),
  ("Danby iteration and velocity (C)", "src/kepler.c:kepler, rv_drive"), ("true anomaly", "radvel/orbit.py:true_anomaly")],
 observe=["return values of radvel.kepler.rv_drive / kepler.kepler / orbit.true_anomaly", "worker process exit status", "Python line events inside the solver"])

prop("C02", "Conjunction, eclipse and periastron times are consistent with the orbit",
 "For every bound orbit, the time of transit derived from a periastron time is a moment of inferior conjunction (true anomaly pi/2 - w), the time of secondary eclipse is a moment of superior conjunction (true anomaly 3pi/2 - w) that falls within one period after periastron, and converting periastron to transit and back (or the reverse) recovers the start modulo the period. At a transit the star's velocity relative to K e cos w is zero and decreasing, and the true anomaly returned for a time is the one of that orbit at that time. All conversions give the same values for scalars, numpy scalars and arrays (element by element), and a scalar conversion of an unbound orbit (e >= 1) returns its argument untouched.",
 ["inputs"], "all periods, 0 <= e < 1, all arguments of periastron (any branch), scalar and array arguments",
 "The suite calls these helpers for one or two ordinary values; branch choices (quadrant of the anomaly, wrap by one period, array versus scalar) only matter for particular combinations of e and w.",
 ["radvel/orbit.py", "radvel/utils.py"],
 [("timetrans_to_timeperi / timeperi_to_timetrans", "radvel/orbit.py"), ("true_anomaly", "radvel/orbit.py")],
 observe=["return values of the orbit helpers"])

prop("C03", "Every basis conversion describes the same orbit and preserves the rest",
 "Converting parameters between any two supported orbital bases, for any number of planets and in any of the three representations (parameter dictionary, internal vector, table of samples), yields parameters that describe the same orbit for every planet, and the three representations agree. Converting there and back recovers the original values (angles modulo 2 pi, times modulo the period), the parameters that do not belong to the orbit are carried through unchanged, and the result contains the parameters of the requested basis. The object given as input, and the conversion object itself, are left as they were by the conversion (parameter objects that do not belong to the orbit may be shared with the result), so that conversions can be repeated and chained in any order.",
 ["inputs", "histories"], "all ordered pairs of bases, 1-4 planets, all orbits with 0 < e < 1 (and e = 0 where the basis can express it), all three representations, repeated and chained conversions",
 "The suite converts one parameter set into each basis and checks that the returned basis name is right; aliasing, sign and quadrant errors and the interplay of planets need the whole product of bases, orbits and representations.",
 ["radvel/basis.py", "radvel/model.py"],
 [("to_synth/from_synth for Parameters and DataFrames", "radvel/basis.py"), ("v_to_synth/v_from_synth for vectors", "radvel/basis.py"), ("to_any_basis", "radvel/basis.py"), ("_copy_params", "radvel/basis.py")],
 observe=["returned Parameters, DataFrame and vector", "the argument and the Basis object before and after"])

prop("C04", "The RV model is the sum of its planets and trend in every basis",
 "The model velocity at any time equals the sum of the Keplerian signals of its planets (each evaluated alone with its own elements) plus linear and quadratic terms relative to the model's reference epoch, independent of the order in which planets or times are given. The same orbits expressed in any supported basis give the same velocities, and selecting a single planet gives exactly that planet's contribution together with the trend. Evaluating the model never changes its parameters, and changing one planet's parameters changes only that planet's term.",
 ["inputs", "configurations"], "0-5 planets, every basis, every combination of present/absent trend and curvature, extra non-orbital parameters present, all times",
 "Tests evaluate a few example systems and look only at whether fits run; additivity and basis invariance must hold for all parameter layouts.",
 ["radvel/model.py", "radvel/basis.py"],
 [("GeneralRVModel.__call__", "radvel/model.py"), ("_standard_rv_calc", "radvel/model.py"), ("Vector layout", "radvel/model.py:Vector")],
 observe=["RVModel.__call__ return values", "Parameters/vector snapshots before and after"])

prop("C05", "Parameter values, names and vary flags stay aligned in every view",
 "For every configuration of planets, bases, instruments, trends and Gaussian-process or decorrelation parameters, the list of free parameter names, the array of free parameter values and the parameter dictionary refer to the same parameters in the same order. Setting the free-parameter array changes exactly those parameters and no fixed one, reading it back (as an array or through the dictionary) returns what was set, and evaluating the log-probability at an array depends on that array and the fixed values only, not on earlier evaluations or on when a parameter was switched between fixed and free before the posterior was built.",
 ["configurations", "histories"], "all configurations of the parameter set and all sequences of set / get / evaluate / synchronise operations",
 "Tests assert the free-parameter names of one two-planet example; index arithmetic over planets, trends, instruments and extra parameters goes wrong only for particular layouts and call orders.",
 ["radvel/model.py", "radvel/likelihood.py", "radvel/posterior.py"],
 [("Vector index dictionary, dict_to_vector, vector_to_dict, names", "radvel/model.py:Vector"), ("set_vary_params/get_vary_params/name_vary_params", "radvel/likelihood.py:Likelihood"), ("Posterior construction", "radvel/posterior.py:Posterior.__init__")],
 state=[("vector", "numeric copy of the parameter dictionary used in all evaluations", "radvel/model.py:Vector.vector"), ("vary_params", "cached indices of free parameters", "radvel/likelihood.py")],
 observe=["name_vary_params, get_vary_params, set_vary_params, logprob_array"])

prop("C06", "The RV likelihood is the jittered Gaussian density, per instrument and combined",
 "The log-likelihood of an RV data set equals the log of a product of Gaussians with mean model + instrument offset (+ linear decorrelation terms) and variance sigma_i^2 + jitter^2; when an offset is marked to be marginalised analytically, it equals the log of that density integrated over the offset. The likelihood of several instruments is the sum over instruments, is unchanged by reordering observations or instruments, and its residuals, error bars, times and instrument labels stay aligned element by element with the observations. Residuals are data minus the full mean, and BIC and small-sample AIC follow from the same likelihood by their definitions.",
 ["inputs", "configurations"], "all data sets, orbits, jitters, offsets and decorrelation vectors, 1-4 instruments, marginalised and free offsets mixed",
 "Tests check one likelihood number for one marginalised example and otherwise that fits run; the value must be right for all data, jitters, offsets and instrument layouts.",
 ["radvel/likelihood.py", "radvel/posterior.py"],
 [("RVLikelihood.residuals/errorbars/logprob", "radvel/likelihood.py"), ("CompositeLikelihood", "radvel/likelihood.py"), ("loglike_jitter", "radvel/likelihood.py"), ("bic/aic", "radvel/likelihood.py:Likelihood")],
 observe=["logprob, residuals, errorbars, x, y, yerr, telvec, bic, aic"])

prop("C07", "GP likelihoods and predictions equal the multivariate normal they define",
 "For every Gaussian-process kernel offered (squared exponential, periodic, quasi-periodic, celerite) the log-likelihood of a data set equals the log density of a multivariate normal with mean model + offset and covariance given by the documented kernel plus measurement and jitter variance, and predictions equal the conditional mean and standard deviation of that normal at the requested times. Both depend only on the current hyperparameter values and data: not on the order of the observations, on earlier evaluations (including one at a zero hyperparameter) or on earlier predictions. Covariances that are not positive definite give a log-likelihood of minus infinity rather than an error (hyperparameters that the quasi-periodic kernel rejects by design, negative or non-finite ones, raise ValueError). Analytic marginalisation of offsets and decorrelation are not part of GP likelihoods.",
 ["inputs", "histories"], "all kernels, hyperparameters, data sets (sorted or not) and all interleavings of likelihood, prediction and residual calls",
 "Tests construct kernels and run one fit per kernel without an independent value; stale cached matrices and ordering problems need particular sequences of calls.",
 ["radvel/gp.py", "radvel/likelihood.py"],
 [("SqExp/Per/QuasiPer/Celerite kernels", "radvel/gp.py"), ("GPLikelihood.logprob/predict/residuals", "radvel/likelihood.py"), ("CeleriteLikelihood", "radvel/likelihood.py")],
 state=[("kernel.covmatrix, kernel.dist_*", "cached matrices", "radvel/gp.py")],
 observe=["logprob, predict, residuals"])

prop("C08", "Every prior is the probability density it documents",
 "Every prior object returns the natural log of the documented density at the current parameter value: minus infinity outside its support, the documented shape inside it (the edges of the support may count as either), and a normalised density wherever the prior is advertised as proper. A prior on a parameter depends on that parameter (for multi-planet priors, on every listed planet; for derived quantities such as a transit or secondary-eclipse time, on the orbit) whatever basis the model uses and whichever position the parameter has. Priors never change the parameters they are evaluated on, and their finite mode returns a finite penalty wherever the normal mode is minus infinity and the same value everywhere else.",
 ["inputs", "configurations"], "all prior classes, all their arguments, all bases, all parameter values inside, at the edge of and outside the support",
 "Tests check a few prior values; normalisation, support edges and the mapping from basis to physical parameter cover an unbounded set of inputs.",
 ["radvel/prior.py"],
 [("Prior classes", "radvel/prior.py"), ("finite mode for nested sampling", "radvel/prior.py")],
 observe=["prior(params, vector) and prior(params, vector, finite=True)"])

prop("C09", "Prior transforms invert the prior distribution and NS targets factorise",
 "For every proper prior, the unit-interval transform is the inverse of the cumulative distribution of the density the same prior evaluates, so it is monotone, stays in the support and maps uniform numbers to samples of that prior (for priors defined by samples, to the resolution of their histogram). The transform of a whole posterior applies to each free parameter, in the order of the free-parameter names, the transform of that parameter's own prior. The nested-sampling likelihood together with the transformed priors reproduces the posterior exactly up to a constant (and is never non-finite), and prior sets that cannot be transformed (missing, doubled, or on a fixed parameter) are refused.",
 ["inputs", "configurations"], "all proper priors and their arguments, all u in (0,1), all posteriors with mixtures of proper and constraint priors in any order",
 "Tests check monotonicity-free point values for a few transforms; the identity between density, transform and likelihood is a statement about all u and all prior mixtures.",
 ["radvel/prior.py", "radvel/posterior.py", "radvel/nested_sampling.py"],
 [("transform methods", "radvel/prior.py"), ("prior_transform, check_proper_priors, likelihood_ns_array, extra_likelihood", "radvel/posterior.py")],
 observe=["prior.transform, Posterior.prior_transform, Posterior.likelihood_ns_array"])

prop("C10", "The posterior is the sum of all its priors and its likelihood",
 "For every posterior, the log-probability equals the sum of every attached prior's value and the likelihood's log-probability at the same parameter values, is minus infinity whenever any prior excludes the values, and is the same number whether evaluated through the current parameters or by passing an array of free values. Adding a prior changes the log-probability by exactly that prior's value, the order of priors is irrelevant, and the negative log-probability is exactly its negation. (Offsets marginalised analytically carry no prior of their own.) Information criteria and residuals reported by the posterior are those of its likelihood.",
 ["inputs", "configurations"], "all likelihood types, prior sets in any order, and parameter values inside and outside the support",
 "Tests run fits but never compare the posterior with its parts; an omitted, doubled or mis-evaluated term only changes numbers.",
 ["radvel/posterior.py", "radvel/likelihood.py", "radvel/prior.py"],
 [("Posterior.logprob, logprob_array", "radvel/posterior.py"), ("neglogprob, neglogprob_array", "radvel/likelihood.py")],
 observe=["logprob, logprob_array, neglogprob_array, bic, aic, residuals"])

prop("C11", "Saving and reloading, copying and pickling preserve posteriors and run state",
 "A posterior written to disk and loaded again, deep-copied or sent to another process has the same parameters, priors and data and gives exactly the same log-probability, free-parameter list, residuals and predictions at every parameter vector, and copies are independent: changing one never changes the other. The status file that links the steps of an analysis keeps every value that earlier steps recorded when a later step adds its own, and values read back equal those written (sections and options as strings; option names irrespective of case).",
 ["inputs", "histories"], "all posterior types (Gaussian, composite, GP, celerite; any basis, planet letters, priors) and all sequences of status-file updates",
 "Tests load what they just saved in one pipeline and look only at file existence; loss of a field shows only for particular posterior types or sequences of steps.",
 ["radvel/posterior.py", "radvel/model.py", "radvel/driver.py"],
 [("Posterior.writeto/load", "radvel/posterior.py"), ("Parameters.__reduce__", "radvel/model.py"), ("save_status/load_status", "radvel/driver.py")],
 observe=["loaded object's public behaviour", "status file contents"])

prop("C12", "A maximum-posterior fit is an improvement and leaves a consistent posterior",
 "A maximum-a-posteriori fit returns a posterior whose log-probability is at least that of the starting point, is the value of the parameters it reports, and is a local optimum to the optimiser's tolerance (Powell's relative 1e-4) on well-posed problems; the best values are reported identically by the parameter dictionary and by the free-parameter array. Fixed parameters keep their values and vary flags exactly. Fitting noiseless or low-noise synthetic data from a start near the truth recovers the injected parameters.",
 ["inputs", "configurations"], "all posteriors with finite starting probability: any basis, instruments, priors, optimiser choice and fixed/free pattern",
 "Tests check that a fit of the bundled example runs and that some values changed; consistency and improvement must hold for all data sets and optimiser paths, including those that end on a rejected step.",
 ["radvel/fitting.py", "radvel/posterior.py"],
 [("maxlike_fitting", "radvel/fitting.py")],
 observe=["posterior before and after maxlike_fitting"])

prop("C13", "Model comparison enumerates exactly the requested models, with correct numbers",
 "Comparing models over a set of model components returns every sub-model those components define exactly once (nested planets, eccentric or circular orbits, trend, jitter, GP on or off), each fitted with precisely the stated parameters free and the excluded ones at their null values. A component offers a choice only where one of its parameters is free in the given posterior, curvature is removed before the trend, and priors on removed parameters are dropped. The reported log-likelihood, number of data, number of free parameters, BIC and AICc of each row (rounded to two decimals; the likelihood is that without priors) agree with one another by definition and with a direct fit of that model. The input posterior is unchanged, and repeated calls return the same list: nothing accumulates between calls.",
 ["configurations", "histories"], "all combinations of comparison components, planets, bases, instruments, and all sequences of calls",
 "The suite compares the number of rows for a few component lists in a fresh process; wrong flags, stale state between calls and unusual component combinations are not visible there.",
 ["radvel/fitting.py", "radvel/driver.py", "radvel/likelihood.py"],
 [("model_comp recursion", "radvel/fitting.py:model_comp"), ("ic_compare", "radvel/driver.py:ic_compare"), ("bic/aic", "radvel/likelihood.py")],
 observe=["the list of statistics dictionaries returned by model_comp", "the input posterior before and after"])

prop("C14", "MCMC chains hold genuine samples of the posterior, complete and aligned",
 "Every row of an MCMC chain carries the log-probability that the posterior assigns to that row's parameter values, has one column per free parameter labelled with its own name, and stays inside the support of the priors once its walker has entered it (walkers start inside); the ensembles draw independently of one another; the chain has exactly the rows that the completed (post burn-in, thinned) steps of all ensembles and walkers produced, none lost, doubled or mixed between parameters. Parallel runs, serial runs and differing thinning or ensemble counts satisfy this alike, and running MCMC leaves fixed parameters and the best-fit state of the posterior unchanged. For posteriors with a known answer, the chain's moments agree with it statistically.",
 ["schedules", "inputs", "configurations"], "all posteriors, walker/ensemble/step/thin settings, serial and parallel execution and worker completion orders",
 "Tests run one short chain and look at whether output exists; misaligned columns, lost ensembles or mislabelled probabilities still produce a plausible table.",
 ["radvel/mcmc.py", "radvel/likelihood.py", "radvel/posterior.py"],
 [("mcmc, _domcmc, ensemble merge", "radvel/mcmc.py"), ("logprob_array", "radvel/posterior.py")],
 state=[("statevars", "module-level state of the run", "radvel/mcmc.py"), ("sampler chains", "per-ensemble history", "radvel/mcmc.py")],
 observe=["returned DataFrame", "every log-probability call in every worker process (recorded log)"])

prop("C15", "MCMC convergence statistics follow their definitions and the stopping rule",
 "The Gelman-Rubin statistic, effective number of independent draws (Tz), autocorrelation factor and autocorrelation change that the sampler reports equal their published definitions evaluated on the chains, whatever the shape of the chains (Ford 2006, with the walkers of each ensemble joined; autocorrelation over the concatenated ensembles). The Gelman-Rubin statistic and Tz are unchanged by shifting or rescaling parameters and by reordering parameters or ensembles. Chains are declared converged exactly when every parameter meets every threshold the user gave, and a run stops before its step limit only after consecutive declarations and the minimum number of steps. The burn-in phase ends only on its own criterion and discarded steps never appear in the result.",
 ["inputs", "histories"], "all chain histories (shapes, correlations, offsets) and all threshold settings",
 "Tests only see whether a short run finishes; the statistics and stopping decision are functions of arbitrary chain histories.",
 ["radvel/mcmc.py"],
 [("convergence_calculate, gelman_rubin statistics", "radvel/mcmc.py"), ("convergence_check", "radvel/mcmc.py"), ("mcmc main loop", "radvel/mcmc.py")],
 observe=["return values of convergence_calculate", "recorded sequence of checks, resets and stops in runs"])

prop("C16", "Nested sampling returns weighted posteriors consistent with its target",
 "Every nested-sampling backend offered returns samples with one column per free parameter under its own name, inside the support of the priors, whose recorded log-posterior-related columns agree with the posterior, and an evidence that agrees statistically with the analytic evidence on problems that have one. Samples are equally weighted after resampling by their weights. Results written to disk can be loaded again and equal those returned, existing results are neither overwritten nor resumed unless asked, and the caller's option dictionaries are left unchanged so that a call can be repeated. Running a sampler leaves the posterior's fixed parameters unchanged, and posteriors without proper priors are refused.",
 ["inputs", "histories", "configurations"], "all available backends, posteriors, options and sequences of run / save / load / repeat",
 "Tests run each backend once with default options and check shapes.",
 ["radvel/nested_sampling.py", "radvel/posterior.py"],
 [("run, _run_dynesty, _run_ultranest, _run_nautilus, load_results", "radvel/nested_sampling.py")],
 observe=["results dictionaries", "output directories", "option dictionaries before and after"])

prop("C17", "The analysis pipeline's outputs agree with each other and with the chains",
 "For every analysis, the files a command-line pipeline leaves behind (status file, saved posteriors, chains, derived chains, summaries) are mutually consistent: each step uses the products of earlier steps, recorded file names exist, and summary quantiles equal those of the saved chains. Derived planetary quantities equal the physical formulas applied row by row to the same chain rows and stellar inputs. A step whose prerequisites are missing is refused, and re-running a step or running steps in any permitted order (from the same working directory) gives the same products without damaging those of other steps, except that sampling may replace the best fit by a better one and marks derived results as outdated.",
 ["histories", "configurations", "inputs"], "all permitted sequences of fit / mcmc / nested sampling / derive / compare / tables / plots / report on all setups",
 "Tests run one fixed sequence on bundled examples and check that nothing raises.",
 ["radvel/driver.py", "radvel/cli.py", "radvel/utils.py"],
 [("driver.fit/mcmc/derive/ic_compare/tables", "radvel/driver.py"), ("argument parsing", "radvel/cli.py")],
 observe=["files in the output directory after every step"])

prop("C18", "Binning, phase folding and date handling conserve the data",
 "Time and phase binning assigns every input measurement to exactly one bin per instrument: each bin's value and time are the inverse-variance weighted means and its uncertainty the combined uncertainty of its members, total weight is conserved, and results do not depend on the order of the input (instruments of time bins are listed in order of first appearance; phase bins need three points). Phase folding maps every time to its orbital phase in the requested range for every planet and basis and is periodic in the period, and Julian-date conversions invert each other to their stated precision. None of these changes its arguments, and all return for all valid inputs.",
 ["inputs"], "all time series (unsorted, duplicate, gapped, single point, several instruments), bin sizes and periods",
 "Tests bin one regular series.",
 ["radvel/utils.py"],
 [("bintels, timebin, bindat", "radvel/utils.py"), ("t_to_phase, fastbin", "radvel/utils.py"), ("jd2date, date2jd", "radvel/utils.py")],
 observe=["returned arrays, arguments before and after"])

prop("C19", "Physical unit conversions obey Newtonian mechanics",
 "Semi-amplitude and minimum mass conversions are inverse to each other and agree with the exact two-body radial-velocity equation for every planet mass, stellar mass, period and eccentricity in the regime each formula documents; the semi-major axis obeys Kepler's third law; the bulk density follows its definition. Scalars and arrays give the same values element by element, in all supported mass units, without changing their arguments.",
 ["inputs"], "all positive masses, periods, semi-amplitudes, radii and 0 <= e < 1, all unit options, scalars and arrays",
 "Tests check Earth and Jupiter.",
 ["radvel/utils.py"],
 [("Msini, semi_amplitude, semi_major_axis, density, Mp conversions", "radvel/utils.py")],
 observe=["return values"])

prop("C20", "Reports and tables state the posterior's numbers faithfully",
 "Every number printed in a LaTeX table or report equals the corresponding value of the posterior, data or chain summary to the printed precision, under the row of its own parameter and in its own column, with uncertainties rounded to two significant figures and the value to matching digits (trailing zeros dropped). Every free parameter, prior, observation and compared model (the best fifty) appears exactly once, in the documented order, units match the parameter and LaTeX special markup is balanced so that the report compiles.",
 ["inputs", "configurations"], "all posteriors, chain summaries, instruments and comparison tables",
 "Tests generate tables for the bundled examples and only check that nothing raises.",
 ["radvel/report.py", "radvel/utils.py", "radvel/prior.py"],
 [("TexTable.tab_params/tab_rv/tab_prior_summary/tab_comparison", "radvel/report.py"), ("sigfig rounding, geterr", "radvel/utils.py"), ("RadvelReport", "radvel/report.py")],
 observe=["generated LaTeX text"])

prop("C21", "Plots draw the data and model they claim and change nothing",
 "Every plot shows the actual quantities: data points at their observed (or folded) times with offsets removed and error bars including jitter, residuals equal to data minus model, model curves equal to the model, phases counted from conjunction or periastron alike throughout a panel, and chain plots containing the chain's values in the stated units; models drawn from a chain are those of its rows. Drawing any plot, any number of times and in any order, leaves the posterior, its data and the chains passed in unchanged, and a repeated plot shows the same values.",
 ["inputs", "histories", "configurations"], "all posteriors (one or many planets and instruments, GP or not), chains and plot options, repeated and interleaved",
 "Tests only check that figures are produced for the bundled examples.",
 ["radvel/plot/orbit_plots.py", "radvel/plot/mcmc_plots.py"],
 [("MultipanelPlot, GPMultipanelPlot", "radvel/plot/orbit_plots.py"), ("TrendPlot, CornerPlot, DerivedPlot, AutoPlot", "radvel/plot/mcmc_plots.py"), ("draw_models_from_chain", "radvel/utils.py")],
 observe=["data of drawn matplotlib artists", "posterior and chains before and after"])

prop("C22", "The compiled solver is memory- and type-safe on every input",
 "For every array of times (empty, single, strided, reversed, non-contiguous, very long) and every floating-point value of the orbital elements, including infinities, NaN, denormals and out-of-range values that a sampler may propose, the compiled extension neither reads nor writes outside its arrays, invokes undefined behaviour, leaks references nor ends the process, and it never modifies its input. Non-finite inputs give non-finite outputs rather than garbage (an infinite period may give its finite limit), and each output element depends only on the matching input element.",
 ["inputs"], "all float64 arrays and layouts and all float64 element values",
 "Tests call the extension with a few contiguous arrays and ordinary elements; undefined behaviour and out-of-bounds accesses are invisible without instrumentation.",
 ["src/kepler.c", "src/_kepler.pyx"],
 [("kepler, rv_drive", "src/kepler.c"), ("rv_drive_array, kepler_array", "src/_kepler.pyx")],
 observe=["AddressSanitizer/UndefinedBehaviorSanitizer reports", "process exit status", "input arrays before and after"])

prop("C23", "An interrupted MCMC run resumes from its saved state without losing samples",
 "When an MCMC run saves its progress, the file (an earlier run's file is kept until the first check and replaced in one piece at every check) at any point where it can be read holds complete ensembles whose stored positions and log-probabilities agree with the posterior and with the run so far. A run that continues from a saved file starts at the saved chains (its result begins with the saved samples, unchanged and in order) and continues under the same ensemble, walker and parameter layout; a file whose layout does not match is refused. The saved convergence history has one entry per completed check in order.",
 ["crash_points", "histories", "configurations"], "all points at which a saving run is stopped, all numbers of restarts, all layouts",
 "The suite resumes one completed run once.",
 ["radvel/mcmc.py", "radvel/driver.py"],
 [("save and proceed branches of mcmc", "radvel/mcmc.py")],
 state=[("h5 file", "saved chains and histories", "radvel/mcmc.py")],
 observe=["h5 file contents after every check", "returned DataFrame"])

prop("C24", "A setup file becomes exactly the analysis it describes",
 "Initialising a posterior from a setup file gives, for every instrument of instnames in that order, exactly the rows of the data table that carry its name (whatever the order of rows, the index of the table, further columns or rows of other instruments), with its own offset, jitter, decorrelation vectors (only if asked for) and GP kernel and hyperparameters; values, free/fixed and linear flags, step scales, basis, planet letters, time base and priors are those the file declares (jitters given as logarithms are converted), and the log-probability is that of the declared model, data and priors. Initialising again, or another file of the same name, gives an independent analysis. A file that describes no analysis (wrong basis, instrument without data, missing columns, parameters, priors or kernels) is refused.",
 ["inputs", "configurations", "histories"], "all setup files: planets, bases, instruments, tables, decorrelation, GPs, priors; repeated and interleaved initialisation",
 "Tests initialise a handful of bundled setup files with sorted tables and check that fits of them run.",
 ["radvel/utils.py", "radvel/likelihood.py", "radvel/posterior.py", "radvel/model.py"],
 [("initialize_posterior, load_module_from_file", "radvel/utils.py"), ("RVLikelihood, GPLikelihood, CompositeLikelihood construction", "radvel/likelihood.py")],
 observe=["posterior and likelihood objects", "log-probabilities", "exceptions"])

prop("C25", "Evaluations leave everything else alone and analyses do not affect one another",
 "Evaluating velocities, orbits, conversions, models, likelihoods, priors, posteriors, predictions, phases, bins, masses and converted chains never alters the arrays and frames it is given, nor the random state, floating-point, warning, directory or environment settings of the process, and gives the same result for the same values whatever their memory layout (read-only, strided, reversed, column-ordered), however often it is repeated, whatever other analyses - also ones sharing the same data arrays and prior objects - were evaluated in between, concurrently in other threads, or in a process with another hash seed. With equal random seeds, MCMC runs return equal chains, whatever ran before in the process and whether the ensembles run in series or in parallel.",
 ["schedules", "histories", "inputs"], "all interleavings of analyses, thread schedules, argument layouts, call histories",
 "Tests evaluate one analysis at a time, each once, on freshly made contiguous arrays.",
 ["radvel/kepler.py", "radvel/orbit.py", "radvel/basis.py", "radvel/model.py", "radvel/likelihood.py", "radvel/posterior.py", "radvel/gp.py", "radvel/prior.py", "radvel/utils.py", "radvel/fitting.py", "radvel/mcmc.py"],
 [("RVModel and _standard_rv_calc", "radvel/model.py"), ("likelihood evaluation and construction", "radvel/likelihood.py"), ("mcmc", "radvel/mcmc.py")],
 observe=["results of evaluations, bit for bit", "argument buffers", "process state", "random state"])

prop("C26", "The command line runs exactly the analysis its options describe",
 "Every option of every command takes effect on the step it belongs to (number of steps, walkers and ensembles, convergence and burn-in criteria, thinning, serial execution, saving and resuming; nested sampler, sampler and run arguments; plot keywords, Gaussian-process panels and plot file), and options not given have the defaults that the help text and the library document, whatever the order and spelling of the options. The analysis is that of the setup file given, wherever it is and whatever it is called, and its results go - only - to the directory of -d, or to one named after the setup file in the current directory, without touching other files or other analyses in the same place. Unknown commands, options, choices and malformed values are refused without any effect.",
 ["inputs", "configurations", "histories"], "all command lines: subsets, orders and spellings of options, values, directories, setup file names, malformed words",
 "Tests build argument objects by hand and call the driver functions; no test parses a command line or uses a default directory.",
 ["radvel/cli.py", "radvel/driver.py"],
 [("main", "radvel/cli.py"), ("plots, fit, mcmc, nested_sampling", "radvel/driver.py")],
 observe=["arguments of library calls", "files created and changed", "exit status", "recorded sampler steps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
