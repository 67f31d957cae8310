TECH = {
 "S01": ("runtime oracle: reported derivatives against adaptive numerical differentiation of the predictions", "Every supported model and option family sampled; points near kinks or with a rough reference are reported as undecided."),
 "S03": ("runtime oracle: predictions against an independent saddle-point universal-kriging solver", "Undecided when the correlation system is too ill-conditioned for the oracle; the correlation formulas are re-implemented from the documentation."),
 "S05": ("monitor at the optimiser boundary: likelihood, gradient, bounds and start value against an independent likelihood", "Executions explored; undecided when the correlation system is too ill-conditioned."),
}
TECH.update({
 "S02": ("runtime oracle: predictions and variances at the training inputs, finiteness of every prediction", "Tolerances scale with the condition number of the correlation system; undecided beyond."),
 "S04": ("runtime oracle: output derivatives against retraining with perturbed training outputs", "Undecided where the nonlinear training does not settle."),
 "S22": ("runtime monitor of solver calls and line searches: residuals, unchanged arguments, sufficient decrease and curvature on the real functions", "Undecided for systems whose condition number exceeds what the stated tolerance can express."),
})
TECH.update({
 "S06": ("runtime monitor of every query: per-row reference answers re-checked through random interleavings, layouts, batches and scribbled results; state snapshots", "Sampled interleavings; differences below rounding noise (1e-7 of the answer) are not seen."),
 "S20": ("runtime monitor on the network trainer: recorded batches, costs and gradients against an independent forward pass, complex-step and adaptive differentiation", "Sampled architectures and data; descent judged for small learning rates only."),
})
TECH.update({
 "S08": ("runtime monitor of options dictionaries against a reference dictionary under random declare/assign/clone/update sequences, and before/after snapshots of options and arguments of every component", "Sampled sequences and components; identity of stored objects is not judged."),
 "S11": ("runtime monitor of returned designs: counts, limits, strata, factorial grids, seeds, global random state", "Sampled sizes, limits and seeds; hangs are reported after 60 s."),
 "S12": ("runtime monitor of optimised and nested designs, with every 50th incremental criterion update recomputed from scratch", "The start of the optimisation is observed at the pyDOE2 call; updates with heavy cancellation are undecided."),
 "S13": ("runtime oracle: values against independent formulas, derivatives against complex steps and adaptive differentiation", "Sampled points; finite-difference options are judged up to their step's rounding."),
 "S23": ("runtime oracle: every correlation and distance helper against hand-derived closed forms, cross-checked by complex steps", "Sampled points, sizes around the block size of 10^4 pairs included."),
 "S24": ("runtime oracle: fits against an independent least-squares solution in centred coordinates", "Undecided when the basis is too ill-conditioned."),
 "S27": ("runtime oracle: reported error against the ratio computed from the model's own predictions", "Predictions are taken from the model."),
})
TECH.update({
 "S07": ("runtime monitor of model histories: random set/update/train/query sequences against a freshly built model with the last data; state snapshots around refused calls", "Sampled histories; both models train from the same random state."),
 "S16": ("runtime oracle: folding, unfolding, projection and sampling against independent definitions, mixed-integer surrogates against the inner model at the projected point", "Sampled variable lists; integer limits."),
 "S19": ("runtime oracle: variable-fidelity predictions and derivatives against separately built and trained parts", "Parts are trained from the same random state; derivatives of the parts are judged by S01."),
})
TECH.update({
 "S17": ("runtime oracle: predictions, level means and variances against an independent autoregressive recursion with one saddle-point kriging per level", "Undecided when a level's correlation system is too ill-conditioned."),
 "S18": ("runtime monitor of every expert's training and prediction inside a mixture (recorded events), predictions against the combination by independently recomputed cluster probabilities", "Tolerances follow the measured rounding of the experts."),
})
TECH.update({
 "S14": ("runtime monitor of evaluator and objective calls, surrogate training data and injected inner-search failures, checked against the record an optimisation returns", "Sampled objectives, variable types, strategies and failures."),
 "S15": ("runtime oracle: criteria on trained and stand-in models against the closed form; monitor of virtual points and of the local searches inside an optimisation", "Means and variances are taken from the model."),
 "S21": ("runtime oracle: trained splines recovered and compared with an independent spline space, energy functional and minimiser", "Undecided when the system is too ill-conditioned; stationary iterations make no convergence claim."),
 "S25": ("runtime monitor of standard output (file descriptor 1) under every print switch and with faults injected at function entries of the package", "Sampled fault places; standard error is not judged."),
 "S26": ("runtime oracle: marginal Gaussian process against a saddle-point solver with analytic derivatives, limits measured by perturbing the correlations by rounding", "Undecided when rounding dominates the covariance of the hyperparameters."),
})
TECH.update({
 "S09": ("runtime monitor of training histories that share a cache directory, with damaged files, killed and failing writes, runs broken off at arbitrary lines, and concurrent processes; answers compared bit by bit with uncached models", "Sampled histories and damage; a run whose own write fails may raise."),
 "S10": ("address and undefined-behaviour sanitizers on the compiled components built from the current sources, poisoned allocations for uninitialised reads", "Sampled call histories, sizes and points; sizes beyond 2**31 entries only in the thorough tier, without sanitizers."),
})
TECH.update({
 "S28": ("runtime oracle: predictions against universal kriging along independently computed partial least squares directions and first-order data", "Undecided when the directions or the correlation system are ill-determined."),
 "S29": ("runtime monitor of every kind of query against the model's declared capabilities, with snapshots of model, data and declarations around refusals", "VFM and MOE have no declarations and are held to their documented methods."),
 "S30": ("metamorphic runtime oracle: paired runs in other units, numberings and orders, tolerance from runs with data changed in the last digits", "Hyperparameters are pinned by narrow bounds; MGP, MFKPLSK and mixtures of several clusters are not in the workload."),
})
TECH.update({
 "S31": ("runtime monitor: paired runs from equal and different generator states, with the state of the global generator recorded around every step, also across processes", "Bayesian optimisation is given surrogates trained by COBYLA; designs without seed take operating-system entropy and are not repeated."),
})
