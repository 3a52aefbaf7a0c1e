#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json by tools/gen_manifest.py)."""
import json, os
R = "src/mfpml/"
SF = R + "design_of_experiment/sf_samplers.py"; MF = R + "design_of_experiment/mf_samplers.py"
EA = R + "optimization/evolutionary_algorithms.py"
SA = R + "optimization/sf_uncons_acqusitions.py"; CA = R + "optimization/sf_cons_acqusitions.py"; MA = R + "optimization/mf_acqusitions.py"
SB = R + "optimization/sf_uncons_bo.py"; CB = R + "optimization/sf_cons_bo.py"; MB = R + "optimization/mf_uncons_bo.py"
KE = R + "models/kernels.py"; BF = R + "models/basis_functions.py"; GP = R + "models/gaussian_process.py"; MG = R + "models/mf_gaussian_process.py"
HK = R + "models/hierarchical_kriging.py"; SK = R + "models/scale_kriging.py"; CK = R + "models/co_kriging.py"
FF = R + "problems/functions.py"; F1 = R + "problems/sf_functions.py"; FC = R + "problems/sf_cons_functions.py"; FM = R + "problems/mf_functions.py"

P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe))))

# ------------------------------------------------------------------ design of experiment
p("D01", "Single-fidelity designs have the requested size and stay in the box",
  "The Latin-hypercube, random and Sobol samplers return, for any box with lower < upper bounds, any dimension and any requested number of points (more than thirty included), exactly that many points, one column per variable, with every coordinate inside that variable's own bounds. The points are the unit-cube design mapped affinely onto the box, coordinate by coordinate. The sampler keeps exactly the returned points as its current samples.",
  ["inputs", "configurations"], "every box, dimension, count and every outcome of the random source within its contract",
  "the tests compare three fixed draws of one box with stored numbers", [SF],
  [("scaling of the unit-cube draw", SF + ":scale_samples"), ("drawing", SF + ":get_samples of LatinHyperCube, RandomSampler, SobolSequence")],
  ["returned array", "samples attribute"])
p("D02", "A design depends only on design space, sizes and seed",
  "Asking any single- or multi-fidelity sampler twice with the same design space, sizes and integer seed gives identical points, on the same or on another sampler object, whatever was drawn before or in between (including from the global random generator). The caller's design space and list of sizes are left unmodified.",
  ["histories", "inputs"], "every earlier state of the global generator, every interleaved draw, every box and seed",
  "the tests draw once per sampler with one seed in a fixed global state", [SF, MF],
  [("seeding of each draw", SF + ":get_samples"), ("seeding per fidelity and of the nested subset", MF + ":_get_non_nested_samples,_get_nested_samples"), ("consumption of the size list", MF + ":get_samples")],
  ["returned arrays", "caller's arguments"])
p("D03", "Latin-hypercube designs are stratified in every dimension",
  "A Latin-hypercube design of n points over a box has, in every dimension, exactly one point in each of the n equal-width slices of that dimension's range. This holds for the single-fidelity sampler and for each independently drawn fidelity level of the multi-fidelity sampler.",
  ["inputs"], "every box, every permutation and within-slice position the generator may produce, for the bounded sizes",
  "a stored sample for one seed says nothing about other draws or boxes", [SF, MF],
  [("affine map keeps slices", SF + ":scale_samples"), ("per-fidelity map", MF + ":_get_non_nested_samples")], ["returned arrays"])
p("D04", "Multi-fidelity designs honour per-level sizes and design spaces",
  "For a list of sizes ordered from high to low fidelity, the multi-fidelity samplers return one array per level, in that order, each with the requested number of rows and, when levels are drawn independently, with every coordinate inside that level's own design space. A size list in which a higher fidelity has more points than a lower one is rejected.",
  ["inputs", "configurations"], "every list of 2-3 sizes in the bound, one shared or one separate design space per level, nested or not",
  "tests use one size list and one shared box", [MF],
  [("order of levels and size rule", MF + ":get_samples,_mf_samples_rules"), ("bounds of each level", MF + ":lb,ub")], ["returned list"])
p("D05", "Nested designs: high-fidelity points are distinct low-fidelity points",
  "With nesting requested, every high-fidelity point of a multi-fidelity design is one of the points of the next lower fidelity, and no low-fidelity point is used twice.",
  ["inputs"], "every outcome of the random source and every admissible pair of sizes in the bound",
  "tests check one draw", [MF], [("subset selection", MF + ":_get_nested_samples")], ["returned list"])
p("D06", "Saving a design stores exactly the last drawn samples",
  "Saving a sampler's design writes one file, named as requested with the pickle extension, whose content loads back to exactly the most recently drawn samples (for the multi-fidelity samplers: the list of all levels).",
  ["inputs", "histories"], "every file name in the bound, every drawn design",
  "not tested at all", [SF, MF], [("dump", SF + ":save_data"), ("dump", MF + ":save_data")], ["written file"])

# ------------------------------------------------------------------ evolutionary optimisers
p("E01", "Evolutionary optimisers never evaluate a point outside the design space",
  "Every point that particle swarm or differential evolution (both strategies) passes to the objective lies inside the design space in every coordinate, for any rates, step sizes, objective and random outcomes; the reported best point does too.",
  ["inputs", "schedules", "configurations"], "every objective, box, algorithm parameter and random outcome, for bounded populations and generations",
  "tests run two objectives with a fixed seed and look only at the final optimum", [EA],
  [("initial placement", EA + ":_location_initialzer"), ("re-placement of out-of-range coordinates", EA + ":_loc_cons")], ["arguments of every objective call", "results"])
p("E02", "Evolutionary optimisers report the best point they evaluated",
  "The best value returned by particle swarm or differential evolution is the minimum of all objective values obtained in the run, the best point is one with that value, and the result record's best entries agree with the returned ones whether or not the run stopped early. The recorded best value never increases from one generation to the next.",
  ["inputs", "histories"], "every objective (arbitrary value at every point), random outcome and stopping threshold, bounded population and generations",
  "tests use smooth objectives with fixed seeds and compare with loose tolerances; early stopping is not tested", [EA],
  [("generation best", EA + ":__update_gen_optimum"), ("result record", EA + ":run_optimizer")], ["returned tuple", "result record"])
p("E03", "Recorded populations pair every point with its own objective value",
  "In the result record of both evolutionary optimisers, each recorded response is the objective value of the recorded point at the same position, for every generation that was run. Differential evolution replaces an individual only by a trial point with a strictly smaller objective value, so an individual's recorded value never increases; a swarm member's remembered best is the best it has visited.",
  ["inputs", "histories"], "every objective and random outcome in the bound",
  "no test reads the recorded populations", [EA],
  [("selection", EA + ":DE.__update_obj"), ("personal best", EA + ":PSO.__update_pop_optimum"), ("recording", EA + ":samples/responses")], ["result record"])
p("E04", "Evolutionary optimisers respect their evaluation budget and stopping threshold",
  "Without a stopping threshold a run evaluates the objective exactly once per individual for the initial population and once per individual in each generation. With a threshold, the run ends at the first generation whose best value is below it, and never earlier; extra objective arguments are passed through unchanged on every evaluation.",
  ["inputs", "histories"], "every objective and threshold, bounded generations",
  "no test uses a threshold or counts evaluations", [EA, FF],
  [("main loop", EA + ":run_optimizer"), ("argument pass-through", FF + ":FunctionWrapper")], ["objective calls"])
p("E05", "Swarm moves respect the maximum velocity",
  "In particle swarm optimisation every coordinate of a particle's velocity stays, in absolute value, within the maximum velocity rate times that variable's range, keeping its sign when limited, and between two generations a particle moves by exactly its velocity in every coordinate that is not re-placed for leaving the design space.",
  ["inputs"], "every swarm state, objective and parameter in the bound",
  "no test observes velocities", [EA], [("limiting", EA + ":PSO.__velocity_cons"), ("move", EA + ":PSO.__update_pop")], ["recorded populations", "velocity"])

p("E06", "Saved and printed optimiser progress is faithful and free of side effects",
  "When a particle-swarm or differential-evolution run is asked to save its steps, step_results.pickle holds, after every finished generation, exactly the populations, responses, per-generation best values and best points of all generations run so far, with the design space and the sizes; at the end it agrees with the returned record. Without the request no file is written, and neither saving nor printing progress changes anything about the run.",
  ["histories", "crash_points"], "every objective, random outcome and stopping threshold in the bound; the file is read at every objective call, i.e. wherever an evaluation may abort the run",
  "no test switches saving or printing on", [EA], [("file", EA + ":EABase._save_results"), ("when it is written", EA + ":run_optimizer"), ("printing", EA + ":EABase.print_info")], ["step_results.pickle", "result record"])
p("E07", "Evolutionary runs are determined by the seed and leave no trace in the optimiser",
  "With the global generator seeded alike, two particle-swarm or differential-evolution runs with the same settings, objective and design space evaluate the same points and return the same record, whether on the same optimiser object, on another one, or on one that meanwhile solved another problem. A record returned earlier keeps its values when the object runs again, and the caller's design space is not modified.",
  ["inputs", "histories"], "every objective, parameter and random outcome in the bound; histories of up to five runs over two objects",
  "tests run each optimiser once", [EA], [("start of a run", EA + ":run_optimizer"), ("initial population", EA + ":_pso_initializer / _de_initializer"), ("draws", EA + ":EABase._location_initialzer")], ["result record", "evaluated points"])

# ------------------------------------------------------------------ acquisitions
p("A01", "Unconstrained acquisition values follow their closed forms at every batch size",
  "For any predictive mean and standard deviation, lower confidence bound returns weight-1 times mean minus weight-2 times standard deviation, expected improvement returns minus (gap * Phi(z) + deviation * phi(z)) and probability of improvement returns minus Phi(z), where gap is the smallest observed response minus the mean and z is gap / (deviation + 1e-9). Evaluating a batch of points gives each point the value it gets alone.",
  ["inputs"], "every mean, deviation >= 0, observed responses, weights; batches of 1-3 points",
  "tests only run an optimisation end to end on one function", [SA],
  [("closed forms", SA + ":LCB.eval,EI.eval,PI.eval")], ["returned values"])
p("A02", "Suggested points lie in the design space and optimise the acquisition",
  "The point an acquisition function proposes is the one found by minimising that same acquisition function, for the given surrogate, over the surrogate's design space, so it lies inside it. This holds with the built-in search and with a user-supplied optimiser, for unconstrained, constrained and multi-fidelity acquisitions.",
  ["inputs", "configurations"], "every surrogate (arbitrary predictions), design space and every point the search may return",
  "tests never supply an optimiser and check one end-to-end run", [SA, CA, MA],
  [("search", SA + ":query"), ("search", CA + ":query"), ("search", MA + ":query")], ["proposed point", "objective given to the search"])
p("A03", "Constrained expected improvement is improvement times probability of feasibility",
  "The constrained expected improvement is minus the expected improvement over the best feasible response so far multiplied by the product over all constraints of Phi(-mean / (deviation + 1e-9)), the predicted probability that the constraint is at most zero; for any number of constraints and any batch size each point gets the value it gets alone. When no feasible response exists yet, minus the probability of feasibility alone is returned.",
  ["inputs"], "every prediction of objective and constraints, 1-3 constraints, batches of 1-3 points",
  "tests run one end-to-end optimisation with scalar evaluations", [CA],
  [("closed form", CA + ":CEI.eval")], ["returned values"])
p("A04", "Multi-fidelity acquisition values follow their closed forms at every batch size",
  "With f the high-fidelity mean, s the deviation: lower confidence bound is weight-1*f - weight-2*s (low fidelity: s is the low-fidelity deviation times the cost ratio); variable-fidelity expected improvement is minus the closed-form expected improvement over the given best (z = gap/(s+1e-8), low fidelity: s is |trend coefficient| times the low-fidelity deviation); augmented expected improvement and extended probability of improvement are minus the expected improvement over the high-fidelity prediction at the sampled point with the smallest mean plus deviation, respectively minus the probability of improving on the given best (z = gap/s). The last two are multiplied, at the low fidelity, by the cost ratio and by the correlation low deviation / (|f - low-fidelity mean| + s), extended probability of improvement at either fidelity also by its density term, the product over that fidelity's samples of the correlations with the point; a deviation below machine epsilon counts as no improvement. Evaluating a batch of points gives each point the value it gets alone.",
  ["inputs"], "every mean, deviation, correlation in [0,1], cost ratio, observed responses; both fidelities; batches of 1-3 points",
  "tests only run optimisations end to end", [MA],
  [("closed forms", MA + ":eval of AugmentedEI, VFEI, VFLCB, ExtendedPI")], ["returned values"])
p("A05", "The queried fidelity is the one with the better acquisition value",
  "Variable-fidelity acquisitions propose the location and fidelity whose optimised acquisition value is better, and choose the high fidelity on ties; the proposed location is the optimum found for the proposed fidelity.",
  ["inputs"], "every pair of optima the search may return", "tests see the single outcome of one run", [MA],
  [("comparison", MA + ":query")], ["proposed point and fidelity"])

# ------------------------------------------------------------------ Bayesian optimisation
p("B01", "Single-fidelity Bayesian optimisation keeps exact records",
  "After initialisation and after every iteration, the sample and response histories have one row per evaluated point, with each response the objective value of its sample; every point proposed by the acquisition is evaluated and appended exactly once, and the surrogate has been retrained on all of them. The reported best value is the minimum response, the best point is a sample with that response, and the best-value history has one non-increasing entry per iteration.",
  ["inputs", "histories"], "every objective and every sequence of proposed points, bounded iterations",
  "tests run one benchmark with a fixed seed", [SB], [("main loop", SB + ":run_optimizer"), ("best tracking", SB + ":_update_para")], ["sample, response, best and history attributes", "returned pair"])
p("B02", "Constrained Bayesian optimisation reports only feasible points as best",
  "Whenever some evaluated point satisfies all constraints, the reported best value is the smallest objective value among the points that satisfy every constraint, and the reported best point is feasible with that value; when none does, the best is reported as infinite with no point. Samples, objective responses and constraint responses stay row-aligned, and the objective and every constraint surrogate are retrained on all rows.",
  ["inputs", "histories"], "every objective and constraint values (ties included) and proposals, bounded iterations",
  "tests run one benchmark with one seed", [CB], [("feasible filter", CB + ":_update_para,_initialization")], ["best, history and sample attributes", "returned pair"])
p("B03", "Multi-fidelity Bayesian optimisation keeps fidelities apart",
  "Each proposed point is evaluated exactly once with the function of the proposed fidelity and appended to that fidelity's samples and responses only, and the surrogate is retrained on all samples of both fidelities. The reported best value is the minimum of the high-fidelity responses and the best point a high-fidelity sample with that response: low-fidelity responses never become the best.",
  ["inputs", "histories"], "every pair of functions and every sequence of proposals (points and fidelities), bounded iterations",
  "tests run one benchmark with one seed", [MB], [("main loop", MB + ":run_optimizer"), ("best tracking", MB + ":_update_para")], ["samples, responses, best attributes", "returned pair"])
p("B04", "Bayesian optimisers stop exactly when budget or error target is reached",
  "Single-fidelity, constrained and multi-fidelity Bayesian optimisation perform iterations until the iteration (or cost) budget is used up or the relative error to a known optimum (absolute when that optimum is zero) falls below the requested target, not earlier and not later; with no known optimum they use the whole budget.",
  ["inputs", "histories"], "every known or unknown optimum, objective values, targets and budgets in the bound",
  "tests use one target and one optimum", [SB, CB, MB], [("loop condition", SB + ":run_optimizer"), ("error", SB + ":__update_error"), ("loop condition", MB + ":run_optimizer")], ["number of evaluations"])

p("B05", "Bayesian optimisation runs are determined by problem, settings and seed",
  "Two Bayesian optimisers (single-fidelity, constrained or multi-fidelity) built for the same problem with the same settings and seed, and given the same proposals, record the same samples, responses, best values and histories, whatever other optimisers ran before or in between on the same problem and whatever the state of the global random generator. An optimiser's records change only by its own runs, and the problem's domain is not modified.",
  ["inputs", "histories"], "every objective, constraint, proposal and generator state in the bound; up to four optimisers interleaved on one problem",
  "tests run one optimiser at a time and never repeat a run", [SB, CB, MB], [("initial design", SB + ":_initialization"), ("initial design", CB + ":_initialization"), ("initial designs", MB + ":_initialization")], ["recorded samples", "histories"])

# ------------------------------------------------------------------ kernels and GP models
p("K01", "The correlation kernel is the squared-exponential of its current parameters",
  "For any two sets of points and log10 parameters, the kernel matrix entry for a pair is exp of minus the parameter-weighted squared distance (up to the 1e-10 jitter on the main diagonal): symmetric under exchange of the two sets, at most one (plus jitter), one on coincident points. Evaluating with explicit parameters equals setting them first and evaluating after.",
  ["inputs"], "every point set in the bounded sizes, every parameter vector", "tests compare two fixed matrices", [KE],
  [("matrix", KE + ":RBF.get_kernel_matrix,RBF.__call__"), ("parameters", KE + ":RBF.set_params")], ["kernel matrix"])
p("K02", "Regression bases list exactly the monomials they promise",
  "The constant, linear and quadratic bases return for every point one row holding, in a fixed order, 1; 1 and each variable; or 1, each variable and each product of two variables exactly once.",
  ["inputs"], "every point set in the bounded sizes and dimensions", "tests evaluate single fixed arrays", [BF],
  [("columns", BF + ":Ordinary,Linear,Quadratic")], ["basis matrix"])
p("G01", "Noise-free Gaussian-process models interpolate their training data",
  "Without noise, the single-fidelity Gaussian-process model, hierarchical kriging, scaled kriging and co-kriging predict at each (high-fidelity) training point exactly the training response, whatever the hyper-parameters within their bounds (up to the kernel's 1e-10 jitter). The standard deviation there is zero (for scaled kriging it is the scale factor times the deviation of the low-fidelity model). Responses (and discrepancies) are not all equal.",
  ["inputs", "configurations"], "every training set of distinct points in the bounded sizes, every response vector, every hyper-parameter the search may return, every design space",
  "tests compare a few predictions on one function", [GP, HK, SK, CK],
  [("predictor", GP + ":predict"), ("predictor", HK + ":predict"), ("discrepancy", SK + ":_getDisc"), ("joint covariance", CK + ":predict")], ["predict"])
p("G02", "The Gaussian-process predictor is the generalised least-squares kriging formula",
  "For any training data, noise level and hyper-parameters, mean and variance at any point are those of universal kriging with generalised-least-squares trend and maximum-likelihood process variance, computed on standardised data and mapped back to the user's units; the reported deviation is the square root of that variance plus the noise variance, floored at zero. Predictions at several points at once equal those point by point.",
  ["inputs", "configurations"], "every training set, query point, noise and hyper-parameter in the bounded sizes; constant, linear, quadratic trend",
  "tests check a few digits on one data set with one trend", [GP],
  [("coefficients", GP + ":_update_kernel_matrix"), ("predictor", GP + ":predict")], ["predict"])
p("G03", "Prediction is a pure function of the trained model",
  "Calling predict changes nothing: any later prediction of the single-fidelity Gaussian process, hierarchical, scaled or co-kriging model returns what it would have returned without it, with or without standard deviations, and the mean is the same whether or not the standard deviation is requested. Inputs passed by the caller are not modified.",
  ["histories", "inputs"], "every trained model in the bound, every sequence of two or three predictions", "tests predict once per model", [GP, HK, SK, CK],
  [("predict", GP + ":predict"), ("predict", HK + ":predict"), ("predict", SK + ":predict"), ("predict", CK + ":predict")], ["predict"])
p("G04", "Retraining forgets the past",
  "Training a single-fidelity Gaussian process, hierarchical, scaled or co-kriging model a second time gives the same model as training a fresh one on the second data set (same search outcomes): nothing of earlier data, estimated noise or scaling survives, and the noise is estimated again whenever it was left to be estimated. Adding points to a trained model of the co-kriging module's single-fidelity kind is the same as training it on the concatenated data.",
  ["histories", "inputs"], "every pair of data sets in the bounded sizes, every search outcome", "tests train each model once", [GP, HK, SK, CK],
  [("training", GP + ":train"), ("noise bookkeeping", GP + ":_update_kernel_matrix"), ("training", CK + ":train")], ["predict after the second training"])
p("G05", "Gaussian-process predictions are equivariant under changes of units",
  "Rescaling or shifting the inputs together with the design space leaves predictions unchanged, and replacing the responses by a positive multiple plus a constant changes the mean by the same map and the standard deviation by the same multiple, for the same search outcomes; permuting the training points changes nothing. A given noise level is in response units and scales with them; this holds for the single-fidelity and the multi-fidelity models (all fidelities rescaled alike).",
  ["inputs"], "every data set in the bounded sizes, every affine map with positive scale", "no test changes units", [GP, MG],
  [("normalisation", GP + ":normalize_input,normalize_output")], ["predict"])
p("G06", "Hyper-parameters are the best candidate found and lie within their bounds",
  "Training uses, among all restarts of the built-in search, the parameters with the smallest negative log-likelihood, and with a user-supplied optimiser the best point that optimiser reports; the search is run the requested number of times, from starting points inside the declared bounds, over exactly those bounds, on the model's own likelihood.",
  ["inputs", "schedules"], "every outcome of every restart", "tests see one random outcome", [GP, HK, CK, SK],
  [("restart loop", GP + ":_hyper_paras_optimization"), ("restart loop", HK + ":_optHyperHF"), ("restart loop", CK + ":_hyper_paras_optimization")], ["model parameters"])
p("G07", "The training objective is the concentrated likelihood of the model",
  "The objective minimised in training equals, for every candidate parameter vector, minus the log-likelihood, up to a constant, of the standardised data under the model that prediction then uses (same covariance, trend and noise treatment): half the log-determinant of the correlation matrix plus half the number of points times the logarithm of the maximum-likelihood variance when the noise is given as zero, times that variance itself otherwise; evaluating a batch of candidates gives each the value it gets alone, and evaluating it does not alter the model.",
  ["inputs"], "every candidate vector and data set in the bounded sizes", "tests never evaluate the likelihood", [GP, HK, CK],
  [("likelihood", GP + ":_logLikelihood"), ("likelihood", HK + ":_logLikelihood"), ("likelihood", CK + ":_logLikelihood")], ["likelihood value"])
p("H01", "Hierarchical kriging uses the low-fidelity prediction as its trend",
  "For any data and hyper-parameters, hierarchical kriging predicts the least-squares scaled low-fidelity prediction plus a kriging correction of the high-fidelity residuals; if the high-fidelity responses are an exact multiple of the (standardised) low-fidelity predictions, it predicts that multiple everywhere with zero deviation.",
  ["inputs"], "every low- and high-fidelity data set in the bounded sizes, every query point", "tests check digits on one data set", [HK, MG],
  [("trend and predictor", HK + ":_update_parameters,predict")], ["predict"])
p("H02", "Scaled kriging is scale factor times low fidelity plus discrepancy",
  "Scaled kriging predicts the scale factor times the low-fidelity prediction plus the discrepancy model's prediction, with variances combined accordingly, for every scale factor and whether or not the deviation is requested. With scale-factor optimisation the factor stays inside its bounds and minimises the documented criterion.",
  ["inputs", "configurations"], "every data set, factor within bounds and query point in the bound", "tests only use factor one", [SK],
  [("predict", SK + ":predict"), ("discrepancy", SK + ":_getDisc"), ("criterion", SK + ":_eval_error")], ["predict"])
p("H03", "Co-kriging uses the auto-regressive joint covariance of both fidelities",
  "For any data and hyper-parameters the co-kriging covariance between two low-fidelity points, a low- and a high-fidelity point, and two high-fidelity points is the auto-regressive one (low-fidelity covariance scaled by 1, factor, factor squared, plus the discrepancy covariance for two high-fidelity points), and its mean is the generalised-least-squares kriging predictor of that covariance in the user's units. Its variance is the prior variance at the point minus the part explained by the data (without a trend term), floored at zero, plus the noise variance.",
  ["inputs"], "every pair of data sets, parameters and query points in the bounded sizes", "tests check digits on one data set", [CK],
  [("covariance", CK + ":_update_parameters"), ("predict", CK + ":predict")], ["predict"])

# ------------------------------------------------------------------ benchmark problems
p("F01", "Benchmark functions compute their published formulas",
  "Every single-fidelity, constrained and multi-fidelity benchmark returns for every point of its domain the value of its published closed form, for every fidelity level and constraint, and for every dimension it accepts.",
  ["inputs"], "every point, in the bounded dimensions", "tests evaluate each function at one or two points", [F1, FC, FM],
  [("formulas", F1), ("formulas", FC), ("formulas", FM)], ["returned values"])
p("F02", "Benchmark evaluation is row-wise and leaves its input alone",
  "Evaluating any benchmark (objective, each fidelity, constraints) on n points returns n rows, row i depending only on point i and equal to evaluating that point alone; the input array is not modified.",
  ["inputs"], "every batch of 1-3 points", "tests use one fixed batch", [F1, FC, FM],
  [("column-wise evaluation", F1), ("dispatch", FM + ":MultiFidelityFunctions.__call__")], ["returned values", "input array"])
p("F03", "The declared optimum is attained and is a lower bound on the whole domain",
  "For every benchmark that declares an optimum value and an optimal design, the design lies in the declared domain, is feasible, attains the declared value (within 0.0002 of max(1, |value|)), and no (feasible) point of the domain has a value lower by more than 0.001 of max(1, |value|).",
  ["inputs"], "every point of the domain", "tests compare single numbers", [F1, FC, FM],
  [("declared optimum", F1 + ":optimum,optimum_scheme")], ["declared optimum", "function values"])
p("F04", "Benchmarks are defined (finite) everywhere on their domain",
  "Every benchmark returns a finite real value for every point of its declared domain, boundary included (no infinity, no NaN).",
  ["inputs"], "every point of the domain", "tests evaluate interior points only", [F1, FC, FM],
  [("formulas", F1), ("formulas", FM)], ["returned values"])
p("F05", "Multi-fidelity dispatch pairs each fidelity with its own samples and function",
  "Evaluating a multi-fidelity problem on a pair of sample arrays returns the pair of the high-fidelity function on the first and the low-fidelity function on the second, and the high fidelity of a multi-fidelity problem coincides with the single-fidelity problem of the same name where both exist. The cost ratio of a problem is the rounded ratio of the two costs it was given, and its domain reads the same as array and as dictionary.",
  ["inputs"], "every pair of sample arrays in the bound", "tests call single functions", [FM, F1],
  [("dispatch", FM + ":MultiFidelityFunctions.__call__")], ["returned values"])
p("F06", "Problem objects are independent of each other",
  "Constructing or using one benchmark object never changes what another object of the same or another benchmark reports (dimension, domain, optimum, optimal design, values), for problems of selectable dimension in particular; unsupported dimensions are rejected.",
  ["histories", "configurations"], "every pair of dimensions in the bound, every order of construction", "tests build one object at a time", [F1, FF],
  [("constructor", F1 + ":Ackley.__init__,Thevenot.__init__")], ["attributes of problem objects"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
