#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewed in one place)."""
import json, os
MB = "pyrichlet/mixture_models/_base.py"
MU = "pyrichlet/mixture_models/_utils.py"
UF = "pyrichlet/utils/functions.py"
UV = "pyrichlet/utils/validators.py"
UL = "pyrichlet/utils/_loaders.py"
WB = "pyrichlet/weight_models/_base.py"
W = ["pyrichlet/weight_models/_%s.py" % n for n in (
    "dirichlet_distribution", "dirichlet_process", "pitman_yor_process",
    "geometric_process", "beta_in_beta", "beta_in_dirichlet",
    "beta_bernoulli", "beta_binomial", "equal", "frequency")]
WV = [W[0], W[1], W[2], W[3], W[8], W[9]]
MM = ["pyrichlet/mixture_models/_%s.py" % n for n in (
    "dirichlet_distribution_mixture", "dirichlet_process_mixture",
    "pitman_yor_process_mixture", "geometric_process_mixture",
    "beta_in_beta_mixture", "beta_in_dirichlet_mixture",
    "beta_bernoulli_mixture", "beta_binomial_mixture",
    "equal_weighted_mixture", "frequency_weighted_mixture")]
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "All randomness comes from the generator given at construction",
  "When a seed or a generator is given at construction, every random choice made by drawing weights, initialising, "
  "fitting or clustering is taken from the stream of that seed or generator, so the same construction, data and sequence of calls "
  "give the same results. No operation reads or changes process-wide random state, or draws on a clock, an unseeded generator "
  "or any other hidden source of entropy.",
  ["inputs", "histories", "configurations"],
  "every mixture and weighting model, every seed or generator (0 included), every sequence of constructions, fits, draws and queries",
  "The tests seed one generator and assert statistics with one decimal place; none compares two runs, and a draw from another source on a "
  "rarely taken branch leaves all of them green.",
  [UV, MB, MU, WB] + W,
  [("rng_parser turns seed or generator into the instance's generator", UV),
   ("every sampler call receives the instance's generator (rng=, random_state=)", MB + ", " + MU),
   ("weight models draw from self._rng", WB)],
  ["weights returned by random/complete/tail/random_assignment", "saved draws", "cluster labels"])

p("C02", "Results are refused until the matching fit has completed",
  "Every density, clustering, affinity or plotting query of a mixture raises the library's not-fitted error, and nothing else, unless the "
  "fit of its own kind (Gibbs or variational) has run to completion since it was last started: a fit of the other kind, or one that was "
  "aborted by an exception, does not unlock it. The variational expectations of a weighting model that supports them raise it until that "
  "model has been variationally fitted.",
  ["histories", "fault_sequences", "configurations"],
  "every model, every query, every sequence of fits (completed, aborted at any point, or of the other kind) before it",
  "No test calls a query on an unfitted or half-fitted object.",
  [MB] + WV,
  [("gibbs_fitted / var_fitted flags, cleared when a fit starts, set as its last act", MB),
   ("NotFittedError guards at the head of each query", MB),
   ("variational_d is None guards", "pyrichlet/weight_models")],
  ["exception raised by the query"],
  [("gibbs_fitted", "a Gibbs fit has completed", MB), ("var_fitted", "a variational fit has completed", MB)])

p("C03", "Queries never change the fitted model",
  "Evaluating a density, a cluster assignment, an affinity matrix, a plot, an expectation or mode of the weights, the log-likelihood of a "
  "weighting, or any getter leaves everything a later query or warm start can see (data, recorded draws, MAP draw, variational parameters, "
  "current weights and assignments) exactly as it was; at most the random generator advances.",
  ["histories", "inputs"],
  "every query of every model after every fit, with and without new data",
  "The tests evaluate one query once; a second query, or a warm start after one, is never compared with a run without the query.",
  [MB, MU, WB] + W,
  [("queries read self and work on fresh arrays", MB), ("variational_* expectations only read the fitted parameters", "pyrichlet/weight_models")],
  ["any query evaluated twice", "state after a query"])

p("C04", "Recorded draws are frozen",
  "Each draw recorded during Gibbs sampling, and the recorded MAP draw, keeps the weights, atoms, assignments and slice levels it had when it "
  "was recorded, whatever sampling steps, warm-started fits, weight extensions or queries happen afterwards.",
  ["histories"],
  "every recorded draw, every later history of steps and queries",
  "The tests only look at averages after the fit; a recorded draw that aliases the live state changes silently and keeps the averages plausible.",
  [MB, WB] + W,
  [("a recorded draw copies the atom dictionary and refers to arrays that are only ever rebound", MB),
   ("weight models rebind w instead of writing into it", "pyrichlet/weight_models")],
  ["get_sim_params()", "gibbs_eap_density", "gibbs_map_density"])

p("C05", "Caller data is neither modified nor retained",
  "No array, list, series, data frame or parameter object passed to a constructor, a fit or a query is ever modified. The observations given to "
  "a mixture's fit, and the assignment vector given to a weighting model's fit, are copied: changing them afterwards does not change the fitted object.",
  ["inputs", "histories"],
  "every accepted input type, every fit and query, every later modification by the caller",
  "The tests pass one fresh array and never look at it again.",
  [MB, MU, WB] + W,
  [("fit copies the observations (np.copy, np.array, to_numpy(copy=True))", MB), ("BaseWeight.fit copies d", WB)],
  ["the argument after the call", "queries after the caller changed the argument"])

p("C06", "A cold fit forgets every earlier fit",
  "The results of a fit that is not a warm start depend only on the constructor's settings, the data and options of that call and the random "
  "stream: no draw, MAP record, weight, group count, convergence flag or default prior estimated from earlier data survives into them.",
  ["histories", "inputs"],
  "every mixture, every pair of data sets (also of different dimension) and every sequence of earlier fits",
  "Every test fits a freshly built object exactly once.",
  [MB, WB] + W,
  [("_initialize_gibbs_params and _initialize_variational_params rebuild every latent variable", MB),
   ("default priors are estimated anew from each data set", MB)],
  ["all gibbs_* queries after a second cold fit", "all var_* queries after a second cold fit"])

p("C07", "A warm start continues the previous run",
  "A warm-started Gibbs fit keeps all previously recorded draws and the MAP record, adds to them, and starts its first step from the state the "
  "previous run ended in; a warm-started variational fit starts from the previous variational parameters.",
  ["histories"],
  "every mixture, every number of warm-started continuations",
  "No test uses warm_start.",
  [MB],
  [("the initialisation is skipped when warm_start is true", MB)],
  ["get_sim_params() before and after", "gibbs_eap_affinity_matrix()"])

p("C08", "Burn-in, thinning and the length of the Gibbs record",
  "A cold Gibbs fit performs exactly total_iter steps, records nothing during the first burn_in of them, and afterwards records every "
  "subsample_steps-th step, that is ceil((total_iter - burn_in) / subsample_steps) draws. The list of draws, the group counts and the atom "
  "counts always have one entry per recorded draw, and the group counts are the numbers of occupied groups of those draws.",
  ["configurations", "histories"],
  "every total_iter > burn_in >= 0 and subsample_steps >= 1, cold and warm fits",
  "The tests use the default schedule (1000/100/1) and never count the recorded draws.",
  [MB],
  [("two loops over burn_in and total_iter - burn_in steps, record when i % subsample_steps == 0", MB),
   ("_save_params updates all records together", MB)],
  ["get_sim_params()", "get_n_groups()", "get_n_theta()"])

p("C09", "The MAP record is the best state visited",
  "After every step of a Gibbs fit, burn-in included, the log-likelihood of the current state (observations given atoms and assignments, plus "
  "assignments given weights) is compared with the best so far, and the MAP draw and its log-likelihood are replaced together exactly when the "
  "new value is higher. MAP density and MAP clustering are computed from that record alone.",
  ["histories", "inputs"],
  "every Gibbs run, every step",
  "The tests check the MAP density with one decimal place on well separated data, where almost any recorded draw passes.",
  [MB, WB],
  [("_update_map_params after each step", MB)],
  ["gibbs_map_density", "gibbs_map_cluster", "map_log_likelihood"],
  [("map_log_likelihood", "best log-likelihood so far", MB), ("map_sim_params", "draw that attains it", MB)])

p("C10", "Affinity entries are co-clustering proportions",
  "An entry of the Gibbs affinity matrix is the number of recorded draws in which the two observations share a group divided by the number of "
  "recorded draws, for the fitted data and for new points alike, so it lies in [0, 1], the matrix is symmetric and its diagonal is one. "
  "The variational affinity is the inner product of the two observations' assignment probabilities.",
  ["inputs", "histories", "configurations"],
  "every schedule, cold and warm fits, every data set",
  "No test evaluates an affinity matrix.",
  [MB, MU],
  [("affinity accumulator and its divisor advance together", MB)],
  ["gibbs_eap_affinity_matrix", "var_eap_affinity_matrix"])

p("C11", "Drawn weights are always a valid (sub-)probability vector",
  "Every weight vector a weighting model returns from random, complete, tail or get_weights consists of numbers in [0, 1] with sum at most one: "
  "the stick-breaking transform of its current stick fractions for the infinite models and a probability vector for the finite ones. "
  "Normalised weights sum to one and random assignments index existing weights.",
  ["inputs", "histories"],
  "every weighting model, admissible parameter, fitted assignment vector and sequence of fit/random/complete/tail/reset",
  "The tests average the first two weights over prior draws; posterior draws, extensions and longer vectors are not looked at.",
  W + [WB],
  [("w = v * cumprod([1, 1 - v[:-1]]) after every change of v", "pyrichlet/weight_models"), ("get_normalized_weights", WB)],
  ["random", "complete", "tail", "get_weights", "get_normalized_weights", "random_assignment"])

p("C12", "complete and tail extend the current weights as promised",
  "complete(k) returns the current weights with at least k entries for the infinite models and keeps all existing entries unchanged in front; "
  "random, complete and tail always return the weight vector that get_weights reports. tail(x) returns weights whose sum is at least x, and rejects x outside [0, 1).",
  ["inputs", "histories"],
  "every weighting model, every k and x, after every history of draws and fits",
  "The tests call random only; complete and tail are reached through the sampler, where a too short vector is repaired or unnoticed.",
  W + [WB],
  [("complete appends stick fractions", "pyrichlet/weight_models"), ("tail loops until the sum reaches x", WB)],
  ["random", "complete", "tail"])

p("C13", "Variational weight expectations stay in range",
  "Under a fitted variational distribution the expected weight and the modal weight of a component lie in [0, 1], its expected log-weight is at most "
  "zero, and the expected log-probability of the assignments is at most zero. A component index at or beyond the truncation has expected and modal weight zero and "
  "expected log-weight minus infinity.",
  ["inputs", "configurations"],
  "every weighting model with a variational family, every admissible parameter, responsibility matrix and component index",
  "The variational tests check a density with one decimal place; no expectation is looked at on its own and no index beyond the truncation is used.",
  WV + [UF],
  [("truncation guards j >= variational_k", "pyrichlet/weight_models"), ("mean_log_beta", UF)],
  ["variational_mean_w_j", "variational_mode_w_j", "variational_mean_log_w_j", "variational_mean_log_p_d__w"])

p("C14", "Assignment probabilities are finite, positive and normalised",
  "For any data and any fitted parameters the variational assignment probabilities, during fitting and for new observations, are strictly positive, "
  "finite and sum to one over the components for each observation: the exponentials are taken after subtracting the largest log-probability so they cannot overflow. "
  "A clustering query reports for each observation the most probable component, and as its uncertainty one minus that probability, which lies in [0, 1]. A component that no observation starts in is no exception.",
  ["inputs"],
  "every data set, however far from the fitted components",
  "The test data are two clusters 20 apart; overflow and zero rows need more distant points.",
  [MB, MU],
  [("log-probabilities shifted by their maximum, exponentiated, offset by eps, divided by their sum", MB)],
  ["var_map_cluster(full=True)", "gibbs_map_cluster(full=True)", "var_eap_affinity_matrix", "var_d"])

p("C15", "Inference is covariant under shifting and rescaling the data",
  "Measuring the observations (and any given priors) in other units or from another origin, coordinate by coordinate, multiplies every density by the inverse of the "
  "product of the scale factors and otherwise changes nothing: given the same starting assignment, cluster labels, affinities, weights and assignment probabilities do not depend on units or origin. This holds in any dimension.",
  ["inputs", "configurations"],
  "every rescaling and shift of each coordinate, every dimension, both fitting methods, every density and clustering query",
  "The tests use a single one-dimensional data set; wrong powers, determinants or missing centring are invisible there.",
  [MB, MU, UF],
  [("conjugate normal-inverse-Wishart updates", MU), ("variational normal-Wishart updates", MB), ("density kernels", UF)],
  ["gibbs_*_density", "var_*_density", "gibbs_map_cluster", "var_map_cluster", "affinity matrices"])

p("C16", "Query results have one entry per observation",
  "A density query returns a vector with one value per evaluated point, a clustering query one label (and on request one uncertainty) per point, and an affinity query "
  "a square matrix over the points: for any dimension of the data, with or without new points, for a single component, and for marginal densities given by one index or a list of indices.",
  ["inputs", "configurations"],
  "every query with every combination of y, dim, component and full, for data of any dimension",
  "The tests call three queries with default arguments on one-dimensional data.",
  [MB, MU, UF],
  [("_cast_observations", MB), ("mixture_density, cluster", MU), ("density_students_t, density_normal", UF)],
  ["all gibbs_* and var_* queries"])

p("C17", "Every accepted form of the observations is handled alike",
  "Lists, one- and two-dimensional arrays, series and data frames are accepted by both fits and by every query that takes observations, and are interpreted as the same matrix with one "
  "row per observation; one-dimensional input is one column. Any other type is rejected with a TypeError before the model changes its data or draws.",
  ["inputs"],
  "every input type, every fit and query",
  "The tests pass one-dimensional arrays to the fits and nothing to the queries.",
  [MB],
  [("_initialize_common_params normalises fit data", MB), ("_cast_observations normalises query data", MB)],
  ["fit_gibbs", "fit_variational", "all queries taking y"])

p("C18", "Constructor settings reach the model they name",
  "Each keyword a mixture accepts is forwarded, unchanged and under its own meaning, to the weighting model or the Gaussian base it configures: no setting is dropped, crossed with another or "
  "overridden by a default. Every mixture accepts the common settings (priors, schedule, progress display, generator).",
  ["configurations"],
  "every mixture and weighting model constructor, every keyword, every value",
  "The tests set n, a and pyd only, mostly to values equal or close to the defaults.",
  MM + [MB] + W,
  [("constructors forward keywords", "pyrichlet/mixture_models"), ("constructors store them", "pyrichlet/weight_models")],
  ["attributes of the mixture and of its weighting model", "draws"])

p("C19", "Every advertised option value is handled, every other one rejected",
  "For each option chosen by name (initialisation method of either fit, update method of the beta-in-beta model) all documented values are implemented and any other value raises an error "
  "when it is given, before any fitting work; no accepted value ends in an unknown-option failure later.",
  ["configurations"],
  "every option, every string",
  "The tests use the default value of each option.",
  [MB, W[4]],
  [("if/elif chain with an error in the else branch", MB), ("accepted_methods list and the chain in random_p", W[4])],
  ["fit_gibbs(init_method=)", "fit_variational(init_method=)", "BetaInBeta(p_method=)"])

p("C20", "Every model implements its whole interface and is exported",
  "Every public weighting model is concrete, implements drawing, completing and the weighting log-likelihood, and either the whole variational family of methods or none of it; every one has a "
  "mixture class built on it. All documented models are importable from the package and all importable models are documented.",
  ["configurations", "programs"],
  "all classes of the package",
  "Tests name the classes they use; a forgotten override, export or documentation entry is not named anywhere.",
  ["pyrichlet/weight_models/__init__.py", "pyrichlet/mixture_models/__init__.py", "pyrichlet/__init__.py", "docs/models.rst", WB] + W + MM,
  [("abstract base class", WB), ("package exports", "pyrichlet/__init__.py")],
  ["import pyrichlet", "method resolution"])

p("C21", "The variational objective counts each term once, and converged means it",
  "The evidence lower bound adds the expected log-densities of observations, assignments, weights and atoms and subtracts the expected log variational densities of assignments, weights and atoms, "
  "each exactly once. A variational fit runs at most total_iter sweeps, stops when the bound changes by no more than the tolerance, and reports convergence only in that case.",
  ["inputs", "configurations"],
  "every variational model, every data set, tolerance and iteration limit",
  "The convergence tests assert the flag on data where it converges anyway; the bound itself is never observed.",
  [MB] + WV,
  [("_calc_elbo", MB), ("loop of fit_variational", MB)],
  ["var_converged", "number of sweeps"])

p("C22", "Each Gibbs step refreshes every block in a valid order",
  "Every Gibbs step redraws the atoms of the occupied groups from the current assignments, fits and redraws the weights from the current assignments, redraws the slice levels below the weights of the "
  "current assignments, extends the weights until the left-over mass is below every slice level, and only then redraws all assignments among components whose weight exceeds the slice level.",
  ["histories", "inputs"],
  "every step of every Gibbs fit of every mixture",
  "The tests look at a density after 1000 steps; a skipped or stale block still fits well separated clusters.",
  [MB, WB],
  [("_gibbs_step, _update_weights, _update_atoms, _update_d", MB)],
  ["saved draws"])

p("C23", "The bundled data loaders return aligned, label-free features",
  "Each data loader returns the numeric measurement columns of its file and the species labels, row by row aligned and without missing values; the label column and row identifiers are never among the features. Every complete row of the file is returned exactly once.",
  ["inputs", "configurations"],
  "every loader and every row of the bundled files",
  "The loaders have no tests.",
  [UL],
  [("usecols / index_col / iloc selection, dropna before splitting", UL)],
  ["load_penguins", "load_chaetocnema"])

p("C24", "Prior, posterior and variational weights use the same model",
  "Within each weighting model the posterior draw adds exactly the counts of the fitted assignments (group sizes, and sizes of all later groups for stick fractions) to the parameters of the prior draw, extensions draw from the prior, "
  "and the log-density and the variational family use the same parameters as the sampler.",
  ["inputs", "configurations"],
  "every weighting model, parameter value and assignment vector",
  "The tests check two moments of prior draws at parameter values where several different models coincide (alpha = 1, discount 0).",
  W + [UF],
  [("beta / dirichlet parameters in random, complete, fit_variational and weighting_log_likelihood", "pyrichlet/weight_models")],
  ["random after fit", "complete", "weighting_log_likelihood", "fit_variational"])

p("C25", "Samplers are never asked for an impossible distribution",
  "For admissible settings and any fitted assignments no draw is requested with parameters outside the domain of its distribution, and no logarithm, division or stick fraction is undefined at the documented "
  "limits of the settings: drawing, extending and fitting never fail or return NaN for numerical-domain reasons.",
  ["inputs", "configurations"],
  "every weighting model, admissible parameter including boundary values, assignment vector and size",
  "The tests draw from the prior with default parameters.",
  W + [WB],
  [("parameters of beta, binomial, dirichlet, uniform calls", "pyrichlet/weight_models")],
  ["random", "complete", "tail", "weighting_log_likelihood"])

p("C26", "The Gibbs sampler leaves the posterior invariant",
  "Each block of a Gibbs step is drawn from its full conditional distribution under the stated model, given the current values of the others, so that every step leaves the posterior invariant: the atom of an occupied "
  "group from the normal-inverse-Wishart posterior given the observations of that group, the atom of a new component from the prior, each slice level uniformly below the weight of its observation's component, and each label, "
  "independently, with probability proportional to the density of the observation under the components whose weight exceeds its slice level. (The conditional of the weights is C24.)",
  ["inputs", "histories"], "every mixture, prior and data set, every step, data of any dimension",
  "A wrong degree of freedom, scale or label probability shifts the posterior by less than the tests resolve (one decimal place of a density of 50 points); stationarity cannot be tested from single runs.",
  [MB, MU] + W, [("_gibbs_step: _update_atoms, _update_weights, _update_d", MB), ("posterior_norm_invw_params, random_normal_invw, gumbel_max_sampling", MU)],
  ["get_sim_params()", "all gibbs_* queries"])

p("C27", "The variational bound never decreases",
  "Every sweep of the variational fit leaves the evidence lower bound at least as high as before it.",
  ["inputs"], "every model and data set, every sweep",
  "The bound is never observed by the tests.", [MB] + WV, [("coordinate ascent", MB)], ["bound between sweeps"])

p("C28", "Drawing weights always terminates",
  "random, complete, tail and a Gibbs step terminate for every admissible setting and every reachable state.",
  ["inputs", "histories"], "every model, every requested mass below one",
  "The tests reach only masses the first few sticks cover.", [WB] + W, [("tail loop", WB)], ["tail"])

p("C29", "Fitted densities integrate to one",
  "The EAP and MAP densities of a fitted mixture are non-negative and integrate to one up to the mass beyond the truncation. A marginal density (dim given) is the integral of the density "
  "over the features left out.",
  ["inputs"], "every fitted mixture, dimension and choice of features", "The tests compare a density at 50 points with one decimal place.", [MB, MU, UF],
  [("density kernels", UF)], ["gibbs_*_density", "var_*_density"])

p("C30", "Density queries evaluate the fitted mixture",
  "A density query returns at each point the mixture the fit stands for: the average over the last `periods` recorded draws (all by default) of the sum of weight times normal density for the Gibbs EAP; the same sum for the MAP record; "
  "expected weights times Student t predictive densities for the variational EAP; modal weights times normal densities at the posterior mode for the variational MAP. `component` selects one component, `dim` the marginal over the "
  "named features, and y = None stands for the fitted observations.",
  ["inputs", "configurations", "histories"],
  "every density query, data source, period count, component and choice of features, after every fit, for data of any dimension",
  "The tests compare one-dimensional default queries with one decimal place on well separated data.",
  [MB, MU, UF],
  [("mixture_density", MU), ("density_normal, density_students_t, full_log_likelihood_1d", UF),
   ("var_eap_density, var_map_density", MB)],
  ["gibbs_eap_density", "gibbs_map_density", "var_eap_density", "var_map_density"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
