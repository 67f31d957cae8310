#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
SM = "smt/surrogate_models/"
AP = "smt/applications/"
UT = "smt/utils/"

p("S01", "Predicted derivatives are the derivatives of the predicted values",
  "For every trained model that supports derivatives, the derivative predicted with respect to an input variable equals the actual slope, along that variable, of the values the same model predicts, at every point where the prediction is smooth, for every output. A model that cannot provide a derivative for its configuration refuses with an error instead of returning a wrong number.",
  ["inputs", "configurations"],
  "all models with derivative support (LS, QP, RBF, IDW, RMTB, RMTC, Kriging, KPLS, KPLSK, GEKPLS, GENN, VFM, MFK, MFKPLS, MFKPLSK), all their options, input dimensions, numbers of outputs, data sets, evaluation points and batches",
  "Tests compare derivatives with a loose relative error for a few one-output problems at default options; a wrong trend term, scale factor or chunk of a Jacobian for another option, dimension or output count passes them.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"ls.py", SM+"qp.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py", SM+"genn.py", AP+"mfk.py", AP+"vfm.py", "smt/src"],
  [("SurrogateModel.predict_derivatives", SM+"surrogate_model.py"), ("KrgBased._predict_derivatives", SM+"krg_based.py"), ("MFK._predict_derivatives", AP+"mfk.py")],
  observe="predict_values / predict_derivatives of trained models")

p("S02", "Interpolating models reproduce their training data",
  "A noise-free interpolating model (kriging family, single-fidelity and the highest level of multi-fidelity, RBF, IDW) returns the training output at every training input, for every output, and kriging models report (near) zero variance there, up to the effect of the documented jitter. This holds for any set of distinct, well-conditioned training points, in any order, whatever the number of points, and no prediction is NaN or infinite for finite inputs.",
  ["inputs", "configurations"],
  "all training sets of distinct points (any order, scale, offset and number of outputs) and option combinations without noise",
  "Tests check an average error on a test set with 1e-1-like tolerances; exact reproduction at every training point for all option combinations and scales is not asserted.",
  [SM+"krg_based.py", SM+"rbf.py", SM+"idw.py", AP+"mfk.py", "smt/src/idw", "smt/src/rbf"],
  [("KrgBased._predict_values", SM+"krg_based.py"), ("IDW::evaluate", "smt/src/idw/idw.cpp"), ("RBF::compute_jac", "smt/src/rbf/rbf.cpp")],
  observe="predict_values / predict_variances at the training inputs")

p("S03", "Kriging mean and variance are the best linear unbiased prediction",
  "Given the hyperparameters a kriging model has selected, its predicted mean and variance equal the universal-kriging (generalised least squares) mean and mean squared error for the chosen trend, correlation, nugget and noise, with the reported process variance; the variance is never negative. Variance derivatives equal the slope of the predicted variance.",
  ["inputs", "configurations"],
  "all trend x correlation x noise x model (Kriging, KPLS, KPLSK, GEKPLS) combinations, data sets, and evaluation points",
  "Tests never compare with an independent closed form and look at variances only for the default trend; wrong triangular solves or trend terms stay invisible.",
  [SM+"krg_based.py", SM+"krg.py", SM+"kpls.py", SM+"kplsk.py", SM+"gekpls.py", UT+"kriging_utils.py"],
  [("KrgBased._predict_values", SM+"krg_based.py"), ("KrgBased._predict_variances", SM+"krg_based.py"), ("KrgBased._predict_variance_derivatives", SM+"krg_based.py"), ("KrgBased._reduced_likelihood_function", SM+"krg_based.py")],
  [("optimal_theta", "selected correlation hyperparameters", SM+"krg_based.py"), ("optimal_par", "GLS/GP quantities used for prediction", SM+"krg_based.py")],
  observe="predict_values / predict_variances / predict_variance_derivatives, optimal_theta after training")

p("S04", "Output derivatives are the sensitivities to the training outputs",
  "For models that report derivatives of predictions with respect to training outputs (RBF, IDW, RMTB, RMTC, LS-type where supported), the reported matrix equals the change of the prediction when the model is retrained with perturbed training outputs, and multiplied by the training outputs it reproduces the prediction of these linear models.",
  ["inputs", "configurations"],
  "all models with output-derivative support, options, data sets and evaluation points",
  "A test compares one configuration per model; wrong transposes or regularisation terms for other options and sizes pass.",
  [SM+"rbf.py", SM+"idw.py", SM+"rmts.py", SM+"surrogate_model.py"],
  [("RBF._predict_output_derivatives", SM+"rbf.py"), ("IDW._predict_output_derivatives", SM+"idw.py"), ("RMTS._predict_output_derivatives", SM+"rmts.py")],
  observe="predict_output_derivatives versus retraining")

p("S05", "Selected hyperparameters are feasible and no worse than the start",
  "Training a kriging-family model ends with hyperparameters inside the declared bounds (up to the optimiser's constraint tolerance), whose reported likelihood is the likelihood of the model actually used for prediction and is not worse than at the user's starting point. The likelihood gradient (and, for MGP, Hessian) supplied to the optimiser equals the derivative of the likelihood.",
  ["inputs", "configurations"],
  "all models, correlations, optimisers (Cobyla, TNC), bounds, starting points (inside or outside the bounds), noise options, and data sets",
  "Tests only look at final accuracy; a wrong gradient or a lost best iterate only slows convergence, and tests still pass.",
  [SM+"krg_based.py", SM+"krg_mgp.py", UT+"kriging_utils.py"],
  [("KrgBased._optimize_hyperparam", SM+"krg_based.py"), ("KrgBased._reduced_likelihood_gradient", SM+"krg_based.py"), ("KrgBased._reduced_likelihood_hessian", SM+"krg_based.py"), ("MGP._reduced_log_prior", SM+"krg_mgp.py")],
  [("optimal_theta", "selected hyperparameters", SM+"krg_based.py"), ("optimal_rlf_value", "reported likelihood", SM+"krg_based.py")],
  observe="optimal_theta, optimal_rlf_value, likelihood calls")

p("S06", "Predicting is a pure, row-wise function",
  "Predicting values, derivatives, variances or output derivatives changes neither the caller's arrays nor the training data nor the model: the same query gives the same answer every time and after any interleaving of other queries. Each row of a batch gets the answer it would get alone, whatever the other rows, their order, or the array's memory layout or numeric type, and results have the documented shape (one row per point, one column per output).",
  ["inputs", "histories", "configurations"],
  "all models, query kinds, interleavings of queries, batch compositions, permutations, memory layouts (C, Fortran, strided, read-only) and dtypes",
  "Tests predict once per trained model on one C-contiguous batch; state leaking between calls or rows is not exercised.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"rmts.py", SM+"idw.py", SM+"rbf.py", AP+"moe.py", AP+"mfk.py", AP+"mixed_integer.py", UT+"checks.py"],
  [("SurrogateModel.predict_values", SM+"surrogate_model.py"), ("SurrogateModel.predict_derivatives", SM+"surrogate_model.py"), ("ensure_2d_array / check_nx", UT+"checks.py")],
  observe="public predict_* calls")

p("S07", "Training state follows the sequence of set/update/train calls",
  "After any sequence of setting, updating and training, a model behaves as one freshly built with the same options and given the last training data only: earlier data, earlier trainings and later in-place changes of the caller's arrays or options have no influence. Inconsistent calls (mismatched sizes, update before set, wrong number of inputs, options that contradict the data, unsupported queries) raise an error and leave the stored training data unchanged.",
  ["histories", "inputs"],
  "all interleavings of set/update (values and derivatives, named levels), train, predict and invalid calls, with data of changing size and dimension, for every model",
  "Tests train each object once; retraining the same object with other data, the order of updates, and failed calls are not covered.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"kplsk.py", SM+"gekpls.py", SM+"rbf.py", SM+"rmts.py", SM+"genn.py", AP+"mfk.py", AP+"moe.py", AP+"vfm.py", UT+"checks.py"],
  [("SurrogateModel.set_training_values", SM+"surrogate_model.py"), ("SurrogateModel.update_training_values", SM+"surrogate_model.py"), ("SurrogateModel.update_training_derivatives", SM+"surrogate_model.py"), ("KrgBased._check_param", SM+"krg_based.py")],
  [("training_points", "stored training data per name and derivative index", SM+"surrogate_model.py"), ("options", "per-object options", SM+"surrogate_model.py")],
  observe="public API calls of surrogate models")

p("S08", "Options accept exactly what is declared and stay private",
  "An options dictionary stores a value if and only if the option is declared and the value satisfies its declared values or types; a rejected or undeclared assignment raises and leaves every stored value unchanged, an update with an invalid entry raises and never stores the invalid value, and reading an undeclared option raises. Options of different objects never influence each other, a clone is independent of its original, and using an object does not modify option values or arrays the caller passed in.",
  ["histories", "inputs", "configurations"],
  "all sequences of declare, set, update, get, delete, membership and clone operations with arbitrary names and values, and all components with options",
  "Tests cover a handful of accept/reject cases on a toy dictionary; sequences, partial updates and sharing between objects are not covered.",
  [UT+"options_dictionary.py", SM+"surrogate_model.py", "smt/sampling_methods/sampling_method.py", "smt/problems", AP+"application.py"],
  [("OptionsDictionary.__setitem__", UT+"options_dictionary.py"), ("OptionsDictionary.declare", UT+"options_dictionary.py"), ("OptionsDictionary.clone", UT+"options_dictionary.py")],
  [("_dict", "current values", UT+"options_dictionary.py"), ("_declared_entries", "declarations", UT+"options_dictionary.py")],
  observe="OptionsDictionary API")

p("S09", "Training caches never change the answer",
  "With a cache directory set, a model trained from the cache predicts exactly as one trained without it, whatever data, options or models were cached before in that directory. A cache file that is missing, truncated at any byte, corrupted, or left by an interrupted run leads to a recomputation with the right answer, never to an error or to stale results.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "all sequences of trainings sharing a directory (same or different data, options, models, training outputs), all truncation points and corruptions of cache files, and failures during the cached computation or during the write",
  "Tests use no cache or one cold and one warm run; key collisions between configurations and damaged files are not exercised.",
  [UT+"caching.py", SM+"rmts.py", SM+"rbf.py", SM+"idw.py", SM+"ls.py", SM+"qp.py"],
  [("cached_operation", UT+"caching.py"), ("_caching_checksum", UT+"caching.py"), ("RMTS energy term cache", SM+"rmts.py")],
  [("cache files", "pickled training results keyed by checksum", UT+"caching.py")],
  observe="files in the cache directory, predictions")

p("S10", "Compiled components are memory-safe and free of undefined behaviour",
  "No call of the public interface with data and options that the interface accepts makes the compiled components (inverse-distance, radial-basis and tensor-product splines) read or write outside their arrays, use uninitialised or freed memory, or execute undefined behaviour; invalid arguments are refused with a Python error. The memory they take is given back by retraining and by destroying the model. This holds across repeated training and prediction on the same object, for all dimensions, sizes, orders and evaluation points including the domain boundary and beyond.",
  ["inputs", "histories", "configurations"],
  "all public call sequences on IDW, RBF, RMTB and RMTC, with all dimensions, orders, element counts, point positions (inside, on the boundary, outside) and retraining with other shapes",
  "An out-of-bounds access usually leaves values plausible, so value-based tests pass; only an instrumented build sees it.",
  ["smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp", "smt/src/rmts/rmts.cpp", "smt/src/rmts/rmtb.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/utils.cpp", SM+"idw.py", SM+"rbf.py", SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py"],
  [("IDW", "smt/src/idw/idw.cpp"), ("RBF", "smt/src/rbf/rbf.cpp"), ("RMTS", "smt/src/rmts/rmts.cpp"), ("RMTB", "smt/src/rmts/rmtb.cpp"), ("RMTC", "smt/src/rmts/rmtc.cpp")],
  observe="sanitizer reports of an instrumented build of the extensions")

p("S11", "Samples respect the limits and the design's structure",
  "Every sampling method returns exactly the requested number of points (unclipped full factorial included) with one column per variable, all inside the limits. Latin hypercube designs have exactly one point per stratum in every variable for every criterion, full factorial designs are products of evenly spaced levels covering both ends with the level counts implied by the weights (with clipping, at least the requested number), and a seeded method returns the same design for the same seed and does not depend on or disturb unrelated state.",
  ["inputs", "configurations", "histories"],
  "all numbers of points, dimensions, limits (negative, tiny, huge, shifted), criteria, weights, clip settings and seeds, and repeated calls",
  "Tests check a fixed sample size and shape for a few settings; the structure must hold for every size, dimension and seed.",
  ["smt/sampling_methods/lhs.py", "smt/sampling_methods/random.py", "smt/sampling_methods/full_factorial.py", "smt/sampling_methods/sampling_method.py"],
  [("LHS._compute", "smt/sampling_methods/lhs.py"), ("FullFactorial._compute", "smt/sampling_methods/full_factorial.py"), ("_scale_to_xlimits", "smt/sampling_methods/sampling_method.py")],
  observe="arrays returned by sampling methods")

p("S12", "Optimised designs keep the design and do not get worse; nested designs nest",
  "The enhanced stochastic evolutionary optimisation returns a Latin hypercube whose space-filling criterion is not worse than that of the design it started from, and its incremental criterion update equals recomputation from scratch. Nested designs return one design per fidelity level with the documented sizes, every higher-fidelity point belonging to all lower-fidelity designs, all within the limits and free of duplicates.",
  ["inputs", "configurations"],
  "all sample sizes, dimensions, limits, seeds, numbers of levels and option settings",
  "Tests compare two designs for a few sizes; an incremental-update error only shows as slightly worse designs.",
  ["smt/sampling_methods/lhs.py", AP+"mfk.py"],
  [("LHS._maximinESE / _optimizeESE", "smt/sampling_methods/lhs.py"), ("LHS._PhiP_exchange", "smt/sampling_methods/lhs.py"), ("NestedLHS.__call__", AP+"mfk.py")],
  observe="designs returned, PhiP of successive designs")

p("S13", "Benchmark problems return correct values and derivatives",
  "Every benchmark problem returns one real row per input row, row by row and without changing the input; its derivative with respect to each variable equals the slope of its value everywhere it is smooth, and its value follows the documented formula. Reduced-dimension problems equal the underlying problem with the remaining variables fixed at the documented values, and problem limits are ordered, finite and those the documentation states.",
  ["inputs", "configurations"],
  "all problems, their options, dimensions, evaluation points within the limits and derivative indices (including negative ones where accepted)",
  "Tests evaluate derivative error for one sampled batch per problem at small dimensions and default options.",
  ["smt/problems"],
  [("Problem.__call__", "smt/problems/problem.py"), ("ReducedProblem._evaluate", "smt/problems/reduced_problem.py")],
  observe="problem(x, kx)")

p("S14", "Bayesian optimisation keeps an exact record of real evaluations",
  "After optimisation the recorded points begin with the initial design and contain exactly the requested number of further points (iterations times parallel points; fewer only when the inner search for a point fails), each within the limits; every recorded output is the true value of the objective at the recorded point, obtained through the evaluator, which is asked exactly once per point in the order recorded, never a predicted stand-in. The reported optimum is the best recorded point with its value and index, and with mixed variables each point given to the objective is a valid integer or category value.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all criteria, parallel strategies and counts, initial designs given or sampled, surrogates, variable types, seeds, and inner-optimisation failures",
  "Tests check the optimum on easy functions; lost, duplicated or stand-in records for unusual batch or failure histories do not move the optimum.",
  [AP+"ego.py", AP+"mixed_integer.py"],
  [("EGO.optimize", AP+"ego.py"), ("EGO._setup_optimizer", AP+"ego.py"), ("EGO._find_best_point", AP+"ego.py")],
  [("x_data/y_data", "recorded evaluations", AP+"ego.py")],
  observe="evaluator calls and the tuple returned by optimize")

p("S15", "Acquisition criteria follow their definitions",
  "Expected improvement equals its closed form for the model's mean and variance and the best recorded output, is never negative or NaN (zero where the variance is zero and no improvement is predicted), for batches as for single points; the other criteria equal the predicted mean and mean minus three standard deviations. The virtual outputs of each parallel strategy are the prediction, the prediction plus or minus three standard deviations, or the current minimum, and the chosen point is the best of the successful local searches.",
  ["inputs", "configurations"],
  "all data sets, points (including training points), criteria, strategies and batch sizes",
  "Tests only look at where the optimiser ends up.",
  [AP+"ego.py"],
  [("EGO.EI", AP+"ego.py"), ("EGO.UCB", AP+"ego.py"), ("EGO.SBO", AP+"ego.py"), ("EGO._get_virtual_point", AP+"ego.py")],
  observe="EI / UCB / SBO values, virtual points")

p("S16", "Mixed-integer handling is lossless and consistent",
  "Folding and unfolding categorical variables are inverse on valid points, projection onto valid values is idempotent, picks exactly one category, rounds integers to a valid value within the limits and leaves continuous values unchanged, without changing its argument. Sampling in a mixed-integer context yields only valid points, and a mixed-integer surrogate predicts at a point what the underlying model predicts at the projected point, whatever representation is used.",
  ["inputs", "configurations"],
  "all type lists (continuous, integer, categorical with any number of levels, in any order), limits, points, ties, and sampling methods and surrogates",
  "Tests use a few fixed points and type lists.",
  [AP+"mixed_integer.py"],
  [("cast_to_discrete_values", AP+"mixed_integer.py"), ("fold_with_enum_index / unfold_with_enum_mask", AP+"mixed_integer.py"), ("MixedIntegerSurrogateModel", AP+"mixed_integer.py"), ("MixedIntegerSamplingMethod", AP+"mixed_integer.py")],
  observe="MixedIntegerContext API")

p("S17", "Multi-fidelity predictions follow the autoregressive recursion",
  "A multi-fidelity kriging model predicts, at every level, the scale factor times the next lower level plus trend plus correlated correction given its fitted parameters, with the recursive variance; variances are non-negative and finite. Without noise the prediction at each level reproduces that level's training data, whatever the number of levels, and equal data on one level give the single-fidelity kriging prediction.",
  ["inputs", "configurations"],
  "all numbers of levels, nested or non-nested designs, trends, scale regressions, correlations, noise options, data sets and evaluation points, for the plain, PLS and PLS-K variants",
  "Tests look at one-dimensional two-level accuracy only.",
  [AP+"mfk.py", AP+"mfkpls.py", AP+"mfkplsk.py"],
  [("MFK._predict_intermediate_values", AP+"mfk.py"), ("MFK.predict_variances_all_levels", AP+"mfk.py"), ("MFK._new_train_iteration", AP+"mfk.py")],
  [("optimal_theta / optimal_par", "per-level fitted parameters", AP+"mfk.py")],
  observe="predict_values, predict_variances, predict_variances_all_levels")

p("S18", "A mixture of experts is a proper mixture of admissible experts",
  "The cluster probabilities of a mixture sum to one at every point; the smooth prediction is the probability-weighted combination of the experts' predictions (variances with squared weights) and the hard prediction is that of the most probable expert. Experts are chosen only among the allowed, not denied models that support the requested features, an impossible selection is refused, each expert is the best of its candidates on the validation data, and every training point is used to train the final experts unless separate test data are given.",
  ["inputs", "configurations"],
  "all data sets, cluster counts, recombination modes, Heaviside factors, allow/deny lists and evaluation points",
  "Tests bound an rms error for a few functions.",
  [AP+"moe.py"],
  [("MOE._predict_smooth_output", AP+"moe.py"), ("MOE._predict_hard_output", AP+"moe.py"), ("MOE._proba_cluster", AP+"moe.py"), ("MOE._find_best_model", AP+"moe.py"), ("MOE._get_enabled_expert_types", AP+"moe.py")],
  observe="MOE predictions, experts, cluster probabilities")

p("S19", "Variable-fidelity modelling composes its parts",
  "A variable-fidelity model predicts the low-fidelity prediction corrected by the bridge prediction, added for the additive bridge and multiplied for the multiplicative one, and its derivatives follow the sum and product rules. With interpolating components it reproduces the high-fidelity training data, and the option dictionaries the caller passes are not changed.",
  ["inputs", "configurations"],
  "both bridge types, all component models and options, data sets with or without derivatives, and evaluation points",
  "A test checks one example per bridge with a coarse tolerance.",
  [AP+"vfm.py"],
  [("VFM._train", AP+"vfm.py"), ("VFM.predict_derivatives", AP+"vfm.py")],
  observe="VFM predictions versus component predictions")

p("S20", "Gradient-enhanced network training uses true gradients",
  "The parameter gradients used to train the neural network equal the derivative of its training cost (values, regularisation and gradient-enhancement terms), and the Jacobian the network reports equals the slope of its outputs for any architecture. Each epoch's mini-batches are a partition of the training examples with their matching outputs and partials, normalisation is exactly undone, training does not end with a higher cost than it started with on convergent settings, the optimiser uses the requested moments, steps against the gradient it is given, leaves the initial guess alone and records the designs it visits with their costs, derivatives given at other points than the values are refused, and the same seed gives the same network.",
  ["inputs", "configurations"],
  "all architectures, activations, batch sizes, data sets, numbers of outputs, regularisation and enhancement coefficients, seeds",
  "Tests check goodness of fit; a slightly wrong gradient or dropped batch still learns.",
  [UT+"neural_net", SM+"genn.py"],
  [("L_grads_backward / L_model_backward", UT+"neural_net/bwd_prop.py"), ("random_mini_batches", UT+"neural_net/data.py"), ("L_grads_forward", UT+"neural_net/fwd_prop.py"), ("Model.train", UT+"neural_net/model.py")],
  observe="cost, gradients, mini-batches, predictions")

p("S21", "Tensor-product splines are smooth and minimise the stated energy",
  "A trained regularised tensor-product spline minimises the documented energy functional (data misfit plus smoothness and regularisation) over its coefficients for every solver that claims convergence, is continuous with continuous first derivatives across element boundaries, reproduces constants, and extrapolates outside the domain in a documented, finite and continuous way. The result does not depend on the linear solver chosen, on multigrid or caching settings, beyond solver tolerance.",
  ["inputs", "configurations"],
  "RMTB and RMTC, all solvers, derivative solvers, line searches, orders, control points / elements, smoothness, weights, data sets with or without derivatives, and evaluation points inside, on boundaries and outside",
  "Tests check accuracy after training for default settings; a suboptimal or discontinuous spline can still be accurate enough.",
  [SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", UT+"linear_solvers.py", UT+"line_search.py", "smt/src/rmts"],
  [("RMTS._solve_for_coeff / _opt_*", SM+"rmts.py"), ("RMTB/RMTC basis", "smt/src/rmts")],
  observe="predictions and energy of trained splines")

p("S22", "Linear solvers and line searches meet their contracts",
  "Each linear solver returns the solution of the given symmetric positive definite system to its stated tolerance, for every right-hand side, with or without an initial guess, and does not alter the matrix or the right-hand side. Each line search returns a step that satisfies the sufficient-decrease (and, where claimed, curvature) condition on every function along a descent direction, and terminates.",
  ["inputs", "configurations"],
  "all solvers and preconditioners, matrices, right-hand sides and guesses; all line searches, functions and descent directions",
  "Solvers are only exercised through default surrogate settings, where later iterations hide errors.",
  [UT+"linear_solvers.py", UT+"line_search.py"],
  [("get_solver", UT+"linear_solvers.py"), ("get_line_search_class", UT+"line_search.py")],
  observe="solver and line-search results")

p("S23", "Correlation functions and distances are valid kernels",
  "Every correlation function is one at zero distance, symmetric, between zero and one, and gives positive semi-definite correlation matrices; its derivatives with respect to the hyperparameters (first and second order) and to the inputs equal its actual slopes, for any number of point pairs and components. Pairwise distance, projected distance and standardisation helpers equal their definitions.",
  ["inputs", "configurations"],
  "all correlation functions, hyperparameters, dimensions and numbers of pairs (including those beyond internal block sizes)",
  "Tests do not exercise the block processing or second derivatives beyond a few points.",
  [UT+"kriging_utils.py"],
  [("squar_exp / abs_exp / matern52 / matern32 / act_exp", UT+"kriging_utils.py"), ("cross_distances / differences / componentwise_distance(_PLS)", UT+"kriging_utils.py"), ("standardization", UT+"kriging_utils.py")],
  observe="kernel and distance helper calls")

p("S24", "Polynomial models are least-squares optimal",
  "Linear and quadratic polynomial models are the least-squares fit over their documented basis: the training residual is orthogonal to every basis function and any polynomial of that class is recovered exactly, for every output. The fit does not depend on the order of the training points and is equivariant under scaling and shifting of the outputs.",
  ["inputs"],
  "all data sets with full-rank design, dimensions and numbers of outputs",
  "Tests use one-output data with loose tolerances.",
  [SM+"ls.py", SM+"qp.py"],
  [("LS._new_train", SM+"ls.py"), ("QP._new_train", SM+"qp.py")],
  observe="predict_values at training points")

p("S25", "Silent means silent and printing state survives failures",
  "With global printing disabled no component writes anything to standard output during setup, training or prediction, and each printing switch governs only its own section. An operation that fails part-way leaves the object's printing state, nesting and later output as if the failure had not happened, and printing never changes a result.",
  ["configurations", "fault_sequences", "histories"],
  "all surrogate models and print options, successful and failing operations in any order",
  "Tests redirect or ignore output.",
  [UT+"printer.py", UT+"caching.py", SM+"surrogate_model.py", UT+"linear_solvers.py"],
  [("Printer._timed_context", UT+"printer.py"), ("SurrogateModel.train", SM+"surrogate_model.py")],
  [("active / depth", "printing state", UT+"printer.py")],
  observe="captured standard output")

p("S26", "Active-subspace kriging follows its closed form",
  "The marginal Gaussian process predicts the mean and variance of its closed form for its fitted embedding, in the full and in the reduced input space alike, and its variances are non-negative. Projecting a reduced point to the full space and back returns the same point, and points with the same projection get the same prediction for a constant trend.",
  ["inputs", "configurations"],
  "all data sets, numbers of components, embeddings, trends and evaluation points",
  "One test checks accuracy on a single embedded function.",
  [SM+"krg_mgp.py", SM+"krg_based.py", UT+"kriging_utils.py"],
  [("MGP.predict_values / predict_variances", SM+"krg_mgp.py"), ("MGP.get_x_from_u / get_u_from_x", SM+"krg_mgp.py"), ("act_exp", UT+"kriging_utils.py")],
  observe="MGP API")

p("S27", "The error measure reports the documented ratio",
  "The relative rms error of a model is the 2-norm of the prediction error divided by the 2-norm of the reference, for values and for the derivative with respect to each variable, against given reference data or the stored training data. It changes neither the model nor the data.",
  ["inputs", "configurations"],
  "all models, reference data given or not, values and each derivative",
  "Tests use the helper to judge models; its own branches are never checked.",
  [UT+"misc.py"],
  [("compute_rms_error", UT+"misc.py")],
  observe="compute_rms_error results")

p("S28", "Reduced and gradient-enhanced kriging use the directions and data they define",
  "Kriging with partial least squares predicts as kriging along the partial least squares directions of its training data (of the highest level for multi-fidelity models), and the full-dimensional variant started from it is not less likely. Gradient-enhanced kriging averages the absolute directions of the first-order data around each training point and adds, at each training point, exactly the requested number of points along the most influential variables, at the stated step and with the first-order value of every output; it refuses derivatives not given at its training points.",
  ["inputs", "configurations"],
  "all data sets, dimensions, numbers of components, outputs and extra points, steps, limits, correlations and trends",
  "Tests bound the error on fixed functions; wrong directions or first-order data still give plausible predictions.",
  [SM+"kpls.py", SM+"kplsk.py", SM+"gekpls.py", "smt/applications/mfkpls.py", UT+"kriging_utils.py"],
  [("KPLS._compute_pls", SM+"kpls.py"), ("GEKPLS._compute_pls", SM+"gekpls.py"), ("ge_compute_pls", UT+"kriging_utils.py"), ("componentwise_distance_PLS", UT+"kriging_utils.py")],
  observe="predict_values / predict_variances")

p("S29", "Declared capabilities are honest and belong to the object",
  "A model answers every kind of query it declares as supported, in the documented form, or explains with an error which configurations it cannot handle, and some configuration is answered; every query it declares as unsupported is refused as not implemented. Refusals and answers leave the model, its data and its declarations unchanged, and the declarations of one model never depend on those of another, wrapped or not. A model that accepts derivative data uses them, any other refuses them.",
  ["configurations", "histories"],
  "all models, wrapped models and their options, all kinds of queries in any order, before and after training",
  "Tests read the declarations to decide what to test; a claim that is never exercised, or a dictionary shared by two objects, stays unseen.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"krg_mgp.py", AP+"mfk.py", AP+"moe.py", AP+"mixed_integer.py", UT+"checks.py"],
  [("check_support", UT+"checks.py"), ("SurrogateModel.supports", SM+"surrogate_model.py"), ("MixedIntegerSurrogateModel.__init__", AP+"mixed_integer.py")],
  observe="supports, answers and errors of the predict methods")

p("S30", "Units, numbering and order of the data carry no information",
  "With the same hyperparameters, expressing the outputs or the inputs in other units (and with them the options that carry units), renumbering inputs or outputs and reordering training points change the predicted values, derivatives and variances only by the corresponding conversion, up to rounding. Models whose training treats outputs separately (linear, quadratic, radial-basis, inverse-distance and tensor-product spline models) predict each output as if trained on it alone.",
  ["inputs", "configurations"],
  "all data sets, positive scale factors and shifts per variable, permutations of points, inputs and outputs, and option combinations",
  "Tests use one data set in one system of units; an absolute threshold, a scale factor applied twice or a swapped index changes nothing there.",
  [SM+"krg_based.py", SM+"kpls.py", SM+"gekpls.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", SM+"ls.py", SM+"qp.py", SM+"genn.py", AP+"mfk.py", AP+"vfm.py", UT+"kriging_utils.py", "smt/src"],
  [("standardization", UT+"kriging_utils.py"), ("RMTS._compute_energy_terms", SM+"rmts.py"), ("Model.train", UT+"neural_net/model.py")],
  observe="predict_values / predict_derivatives / predict_variances / predict_output_derivatives")


p("S31", "Random choices come from the declared generator and stay contained",
  "An object that is given a seed or a generator (Latin hypercube designs, Bayesian optimisation, network training and its batches) makes the same random choices every time, whatever the state of the global generator and in any process; designs and networks given their own neither read nor disturb the global generator. Everything else is a function of its inputs and of the state of the global generator: trained or sampled twice from the same state it gives the same result and leaves the same state. Nothing ever resets the global generator, and predicting draws nothing.",
  ["inputs", "configurations", "histories"],
  "all models, sampling methods and optimisation strategies, seeds, generators, states of the global generator and processes",
  "Tests fix one seed at the start and compare with loose tolerances; a draw from the wrong generator or a hidden reseeding only shows when two runs from different states are compared.",
  ["smt/sampling_methods/lhs.py", "smt/sampling_methods/random.py", AP+"ego.py", AP+"moe.py", SM+"genn.py", SM+"krg_based.py", UT+"neural_net/data.py", UT+"neural_net/model.py"],
  [("LHS._compute", "smt/sampling_methods/lhs.py"), ("EGO._setup_optimizer", AP+"ego.py"), ("GENN._train", SM+"genn.py"), ("random_mini_batches", UT+"neural_net/data.py")],
  observe="designs, evaluated points and answers; numpy.random.get_state around every step")


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
