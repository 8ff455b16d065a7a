# per property: (label, text) pairs for DESIGN.md
NOTES = {
"C01": [("Monitor", "every fit/predict of every nuisance learner is an event (row ids, targets, features, parameters, instance id); an offline checker over the event log assigns each prediction that appears in the public `predictions` to the learner instance that produced it and demands: training rows = training set of that observation's fold ∩ conditioning subgroup, right target, right feature columns, exactly one test prediction per observation; clusters disjoint; nested halves disjoint."),
        ("Beyond tests", "the training-set fingerprint in the predictions makes a leak of a single row visible; splits are uneven, user-supplied, reduced, clustered.")],
"C02": [("Monitor", "public `psi`, `psi_elements`, `psi_deriv`, `all_coef`: mean of the score zero at every (treatment, repetition), score = elements evaluated at the estimate, derivative = finite difference; for quantile scores a sign change/minimiser within solver tolerance; scores also recomputed from the documented formula."),
        ("Bounds", "callable scores included; the quantile solvers are judged on the tolerance of the bracket, not on a point value.")],
"C03": [("Oracle", "`vlib/oracle.py`: textbook formulas written from the documentation, fed with public predictions, data frame and splits; nothing of the library is called."),
        ("Beyond tests", "all option combinations (weights vectors/dicts, trimming, normalisation, subgroups, arms) on asymmetric data.")],
"C04": [("Oracle", "own sandwich, one-way and two-way cluster formulas on the documented score; aggregation over repetitions by medians incl. the variance correction.")],
"C05": [("Oracle", "scipy normal distribution on published estimates and standard errors; joint critical values from the published bootstrap statistics; nesting and monotonicity over levels.")],
"C06": [("Oracle", "probe frameworks with one score per observation expose the raw multipliers, which are checked for range, moments, distribution, independence between repetitions and draws; linearity in the score; scaling; reproducibility under a seed.")],
"C07": [("Oracle", "own step-down bootstrap, Bonferroni, Holm and FDR implementations on published statistics; permutation of parameters permutes p-values; adjusted ≥ unadjusted where valid; order consistency.")],
"C08": [("Oracle", "random expression trees evaluated on raw arrays (estimates per repetition, scores, sensitivity elements) by independent code."),
        ("Beyond tests", "negative and zero factors, clusters, repetitions, unequal variance scalings, models refitted after being combined (no aliasing).")],
"C09": [("Monitor", "history monitor over draw / set / refit: partition, strata balance (max-min ≤ 1 per stratum), cluster product structure, supplied splits used as given, number of folds/repetitions, refusal of invalid splits without state change, reproducibility under a seed.")],
"C10": [("Oracle", "an executable model of roles (about 150 lines): after each setter (accepted or refused) every public array, list and flag is compared.")],
"C11": [("Monitor", "deep snapshots (values, dtypes, index, attributes of learners) of everything the user passed, before and after each operation of a random history.")],
"C12": [("Oracle", "the sequential run of the same configuration; modes: threads and processes with injected uneven delays (folds finish out of order), stored models, unstored predictions, refits, other fits in between, pickled copies, other global seeds, one repetition alone, one treatment alone."),
        ("Concurrency", "the library's only concurrency is joblib over folds/levels; delays per call make the completion order differ between runs, and thread backends make sharing visible.")],
"C13": [("Oracle", "(a) round trip: own predictions supplied back give bit-identical results with no learner call for those nuisances; (b) foreign predictions: the reference formulas at exactly these values; the event log shows that only the other nuisances were fitted.")],
"C14": [("Oracle", "own formulas of bounds, standard errors of bounds, confidence bounds, robustness values (root search), benchmarks (short model refitted by hand) and contour plots.")],
"C15": [("Oracle", "propensities are prescribed per observation by table learners (or externally), including exact bounds and neighbours; stored propensities, the propensities implied by scores, and weight averages are compared."),
        ("Known findings", "IIVM and SSM normalisation (the repository's own reference tests encode the behaviour, so it cannot be repaired without editing tests).")],
"C16": [("Oracle", "own least squares / sandwich on the signal recomputed from public predictions; interval algebra at random levels; policies compared with the weighted classification problem solved directly and with brute force depth-one trees."),
        ("Known findings", "level and joint critical value of `DoubleMLBLP.confint` (encoded in the repository's own tests).")],
"C17": [("Monitor", "offline matching of every recorded fit to (nuisance, treatment, repetition, fold) and the parameters the history prescribes; tuning: the recorded searches see the right rows/targets, and the stored best parameters are the best of the recorded search.")],
"C18": [("Oracle", "metamorphic pairs of executions: transformations of data, folds, labels, scaling, row order, treatment order, duplicates, with equivariant learners; exact relations.")],
"C19": [("Oracle", "the single models, fitted separately on the composite's folds; contrasts by direct algebra incl. sharper bias bounds.")],
"C20": [("Oracle", "event log of weighted fits (rows, weights, features, targets, prediction points at the cutoff), adjusted outcome rebuilt from recorded predictions and handed to `rdrobust` itself.")],
"C21": [("Monitor", "pandas/numpy display options raise the precision of every printed table, which is parsed back and compared row by row with published and recomputed numbers.")],
"C22": [("Oracle", "structural checks on every return type; documented equations judged from the samples alone: residuals under the documented design have the documented moments (z-tests at 1e-9-level thresholds, so that the check is quiet over all seeds), exact identities where noise can be switched off."),
        ("Documentation discrepancies", "where documentation and code disagree (variance of the confounded IRM data: documentation N(0,5), code 1; `make_ssm_data`: documentation x'β·d, code x'β; effect formula of the discrete-treatment design and the default of `random_state`) either reading is accepted.")],
"C23": [("Oracle", "targets rebuilt from the data frame (subgroups as missing), losses and user metrics recomputed; recorded learner targets agree.")],
"C24": [("Faults", "raise at fit, raise at predict, nan, inf, wrong shapes at sampled (for small configurations: every) learner call of first fits, refits and parallel fits; afterwards the fault is removed and a clean fit has to equal that of a fresh object."),
        ("Invalid calls", "about 200 invalid calls per object; public state is compared before and after.")],
"C25": [("Oracle", "the same code on data in which missing cells hold a marker; learners map both to the same value, so every number has to agree; the recorded features prove that the cells reached the learners.")],
"C26": [("Oracle", "after every operation of a random history, all public properties and derived results equal those of a fresh object that only got the last splitting, settings and fit - or are refused on both.")],
}
