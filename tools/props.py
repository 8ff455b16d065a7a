"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  (run in /verif)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "doubleml/"
BASE = D + "double_ml.py"
FWK = D + "double_ml_framework.py"
EST = D + "utils/_estimation.py"
MODELS = [D + f for f in ("plm/plr.py", "plm/pliv.py", "irm/irm.py", "irm/apo.py", "irm/iivm.py", "irm/pq.py", "irm/lpq.py", "irm/cvar.py", "irm/ssm.py",
                          "did/did.py", "did/did_cs.py")]
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                  state=state, observe=observe))


COMMON = " Assurance is bounded to the executions produced (seeded random configurations; see evidence); trusts numpy/pandas/scikit-learn."

prop("C01", "Out-of-fold predictions never see the observations they are used for",
     "For every model, score, number of folds and repetitions, every nuisance prediction that enters an observation's score comes from a learner instance that was "
     "fitted only on observations of that observation's training set in that repetition (for clustered data: on observations sharing no cluster with it), restricted "
     "to the subgroup the nuisance function conditions on and fitted on the right target and the right features. "
     "Every observation of every test fold gets exactly one such prediction per nuisance function, and nested (preliminary) fits use disjoint halves of the training fold only. "
     "The learners supplied by the user, with the parameters set for that nuisance, treatment, repetition and fold, are what is fitted.",
     ["inputs", "configurations", "histories"],
     "all model classes, scores, splittings (drawn, redrawn, user-supplied, clustered), treatments, subgroup options and parameter settings",
     "Tests compare final coefficients with a re-implementation on a handful of fixed data sets using the same helper; a leak that changes the numbers slightly, or only "
     "for unusual splits, treatments or subgroups, is invisible to them.",
     [BASE, EST] + MODELS,
     [("cross-fitted prediction helper", EST + ":_dml_cv_predict"), ("conditional sub-splits", EST + ":_get_cond_smpls, _get_cond_smpls_2d"), ("nuisance estimation of each model", "_nuisance_est in every model file")],
     "runtime trace monitor on recording learners (fit/predict event log vs fold assignment)",
     "Every fit and predict call of every nuisance learner is logged with row ids, targets, features and parameters and checked against the sample splitting." + COMMON,
     observe=["fit/predict calls at the scikit-learn learner boundary", "stored predictions"])

prop("C02", "The reported coefficient solves its empirical moment condition",
     "After fitting, for every treatment and repetition the reported score evaluated at that repetition's coefficient averages to zero (weighted by fold for clustered data), "
     "the score elements reproduce the reported score, and the reported derivative equals the derivative of the averaged score in the parameter. "
     "For quantile-type scores the coefficient is, up to the solver's tolerance, a root (sign change) or minimiser of the averaged score.",
     ["inputs", "configurations"], "all models, scores (including callable scores), data sets, splittings, repetitions",
     "Tests check point values on fixed designs; the identity has to hold for every data set, repetition, weight and score.",
     [BASE, D + "double_ml_score_mixins.py"] + MODELS,
     [("linear score solver", D + "double_ml_score_mixins.py:LinearScoreMixin"), ("non-linear score solver", D + "double_ml_score_mixins.py:NonLinearScoreMixin")],
     "runtime invariant monitor over fitted models",
     "Re-evaluates the moment condition from the published score arrays for each fitted model." + COMMON)

prop("C03", "Each estimator computes its documented doubly robust formula",
     "For every model and score option, the coefficient of each treatment and repetition equals the value of the documented Neyman-orthogonal formula evaluated at the model's own "
     "stored out-of-fold predictions and the data, with documented weights, trimming, normalization and subgroup options. "
     "The reported coefficient across repetitions is the median of the repetitions' coefficients.",
     ["inputs", "configurations"], "all models, scores and option combinations over random data",
     "Test references re-use library helpers and cover few option combinations on fixed designs; wrong arms or indices can cancel on symmetric data.",
     [BASE] + MODELS, [("score elements", "_nuisance_est/_score_elements in every model file"), ("aggregation over repetitions", BASE + ":_agg_cross_fit -> " + EST + ":_aggregate_coefs_and_ses")],
     "reference-formula monitor over fitted models (independent re-implementation as oracle)",
     "Oracle is an independent textbook implementation fed with the recorded predictions." + COMMON)

prop("C04", "Standard errors follow the sandwich and cluster-robust formulas",
     "For every fitted model the standard error of every treatment and repetition equals the sandwich formula of the reported score and derivative; for clustered data the one- or two-way "
     "cluster-robust formula over folds. "
     "The reported aggregate adds to each repetition's squared error the squared distance of its coefficient to the median and takes the median, on the root-n scale of the effective sample size. "
     "Standard errors are finite and non-negative.",
     ["inputs", "configurations"], "all models, cluster structures (one and two way, unequal sizes), splittings and numbers of repetitions",
     "Tests use a couple of fixed cluster designs with a shared helper as reference.",
     [BASE, EST], [("variance estimate", EST + ":_var_est"), ("aggregation", EST + ":_aggregate_coefs_and_ses")],
     "reference-formula monitor over fitted models", "Independent sandwich/cluster formula as oracle." + COMMON)

prop("C05", "t-statistics, p-values and confidence intervals are mutually consistent",
     "For every fitted model and inference object, t-statistic, two-sided p-value and summary agree with coefficient and standard error; confidence intervals contain the estimate, widen with the level, "
     "and exclude zero exactly when the p-value is below one minus the level for a single repetition. "
     "With several repetitions, intervals and p-values are medians over the repetitions; joint intervals use the bootstrap quantile of the maximal t-statistic and are never "
     "narrower than what that quantile implies.",
     ["inputs", "configurations", "histories"], "all levels, repetitions, numbers of parameters, joint or pointwise, bootstrap methods",
     "Tests sample one or two levels; duality, monotonicity and aggregation must hold for all.",
     [BASE, FWK], [("inference", FWK + ":confint, t_stats, pvals, summary"), ("delegation", BASE + ":confint, summary, pval, t_stat")],
     "invariant monitor plus reference quantiles over synthetic and fitted inference objects", "Checks equations between published quantities." + COMMON)

prop("C06", "The multiplier bootstrap resamples the estimated score with valid weights",
     "For every inference object, method, repetition count and bootstrap size, each bootstrap t-statistic is the scaled average of the score with multipliers of mean zero and unit variance "
     "from the requested distribution, one multiplier vector per draw shared by all parameters of a repetition. "
     "Bootstrap results are reproducible from the random seed, and a model's bootstrap is its inference object's bootstrap.",
     ["inputs", "configurations", "histories"], "all methods, sizes, parameters, repetitions, fitted models and synthetic objects",
     "Tests compare with a copy of the same formula on one design; the multiplier law and sharing across parameters are not observed.",
     [FWK, EST, BASE], [("weights", EST + ":_draw_weights"), ("bootstrap", FWK + ":bootstrap")],
     "probe monitors that read the multipliers back, plus distribution tests", "Multipliers are recovered exactly from probe scores." + COMMON)

prop("C07", "Multiple-testing adjusted p-values are valid for the chosen method",
     "Adjusted p-values lie between the raw p-values (up to bootstrap error for the step-down method) and one, keep the ordering of the evidence, and do not depend on the order in which the parameters are listed. "
     "For the step-down bootstrap method they equal the step-down maximum over the remaining hypotheses of the bootstrap statistics; for the other methods they equal the textbook correction of the raw p-values. "
     "With several repetitions they are the median over the repetitions.",
     ["inputs", "configurations"], "all numbers of parameters, repetitions, orderings, dependence structures and methods",
     "Tests check types and a single simulated design.",
     [FWK], [("p-value adjustment", FWK + ":p_adjust")],
     "reference monitor (independent step-down and textbook corrections) plus permutation relations", "Reference computed from the published bootstrap statistics." + COMMON)

prop("C08", "Combining inference objects is exact linear algebra on estimates and scores",
     "Sums, differences, scalar multiples and concatenations of inference objects give estimates, scores and standard errors equal to those of the corresponding linear combination in every repetition, for independent and clustered data; "
     "standard errors stay non-negative and sensitivity bounds add up conservatively. "
     "Operands are never modified, incompatible objects are rejected, and an object obtained from a model keeps its values when the model is changed afterwards.",
     ["inputs", "histories"], "all expressions over compatible objects, fitted models, repetitions, clusters",
     "Tests cover two expressions on one design without negative scalars, clusters or later refits.",
     [FWK, BASE], [("algebra", FWK + ":__add__, __sub__, __mul__, concat"), ("construction", BASE + ":construct_framework")],
     "algebraic-law monitor over random expression trees of inference objects", "Random expressions compared with direct evaluation on the raw arrays." + COMMON)

prop("C09", "Sample splits are partitions, respect strata and clusters, and are used as given",
     "Every drawn splitting has the requested number of repetitions and folds, its test folds partition the observations, each training set is the complement (for clustered data: shares no cluster with its test fold and every cluster combination is tested once), "
     "repetitions differ, discrete-treatment models keep all strata in every training set in near-equal shares, and draws are reproducible from the seed. "
     "A supplied splitting is used verbatim, whatever accepted shape it is given in, and a splitting that is not a partition, overlaps or breaks clusters is refused or triggers the documented handling.",
     ["inputs", "configurations", "histories"], "all sizes, folds, repetitions, cluster structures and supplied splittings",
     "Tests check a few hand-written splittings.",
     [D + "utils/resampling.py", BASE, D + "utils/_checks.py", EST], [("resampling", D + "utils/resampling.py:DoubleMLResampling, DoubleMLClusterResampling"), ("user splits", D + "utils/_checks.py:_check_sample_splitting"), ("setters", BASE + ":draw_sample_splitting, set_sample_splitting")],
     "structural invariant monitor over splitting histories", "Partition, disjointness, strata and provenance oracles over random histories." + COMMON)

prop("C10", "The data backend exposes exactly the user's columns, rows and roles",
     "For every accepted specification, outcome, treatment, covariate, instrument, time, selection and cluster arrays equal the user's columns in the order and dtype-independent value given, default covariates are all remaining columns, "
     "and switching the treatment makes exactly the other treatments covariates when requested. "
     "Overlapping or unknown roles, duplicates, missing values and non-finite entries are refused unless documented as allowed, and a refused change leaves the object as it was.",
     ["inputs", "histories"], "all frames, role assignments, sequences of setter calls, accepted and refused",
     "Tests check hand-picked constructor calls and few setter sequences.",
     [D + "double_ml_data.py"], [("roles and arrays", D + "double_ml_data.py:DoubleMLData, DoubleMLClusterData")],
     "model-based history monitor (reference data-role model vs. object) ", "Random setter histories against a small executable model." + COMMON)

prop("C11", "User-supplied objects are never modified",
     "Constructing, fitting, tuning, bootstrapping, sensitivity analysis and post-estimation never change the user's data frame, arrays, learners, parameter or prediction dictionaries, weights, splittings or scoring arguments; results handed out earlier keep their values.",
     ["inputs", "histories"], "all public operations, models and argument kinds",
     "Tests almost never compare inputs before and after.",
     [BASE, D + "double_ml_data.py", FWK] + MODELS, [("cloning and copying", BASE + ":fit, tune, set_ml_nuisance_params")],
     "before/after snapshot monitor around every public operation", "Deep snapshots of every argument before and after the calls." + COMMON)

prop("C12", "Results do not depend on execution mode",
     "With deterministic learners, estimates, scores, standard errors and predictions are bitwise or numerically identical whether folds are run sequentially or in parallel, whether models and predictions are stored or not, "
     "when fitting again, and whether the model was fitted alone or together with other treatments or composite levels.",
     ["schedules", "configurations", "histories"], "all models, job counts, storage flags, repeated fits",
     "Tests run one job count and one storage mode per case.",
     [BASE, EST], [("parallel cross-fitting", EST + ":_dml_cv_predict"), ("fit", BASE + ":fit")],
     "differential execution monitor across modes with injected delays", "Same configuration run under several modes and compared." + COMMON)

prop("C13", "External predictions replace learners exactly",
     "Supplying a model's own out-of-fold predictions as external predictions reproduces coefficients, standard errors and scores exactly, for all or any permitted subset of nuisance functions, treatments and repetitions, and the learners of supplied functions are never fitted. "
     "Malformed external predictions (unknown names, wrong shapes) are refused before any result changes.",
     ["inputs", "configurations"], "all models and composites, subsets, treatments, repetitions",
     "Tests supply full sets on few designs and cannot see whether a learner was fitted.",
     [BASE, D + "utils/_checks.py"] + MODELS, [("external prediction checks", D + "utils/_checks.py:_check_external_predictions"), ("use in nuisance estimation", "_nuisance_est in every model file")],
     "round-trip differential monitor plus learner call trace", "Round trip of stored predictions with learner-call recording." + COMMON)

prop("C14", "Sensitivity bounds follow the omitted-variable-bias formulas",
     "For every supported model and confounding scenario the bias bound equals the documented product of confounding strength, correlation and the estimated residual and Riesz norms; bounds contain the estimate, are symmetric, vanish without confounding and grow with its strength. "
     "Confidence bounds contain the bounds, robustness values are the equal confounding strengths at which the bound or its confidence limit touches the null hypothesis, and benchmarks reproduce the change from refitting without the named covariates. "
     "A plot shows the same values as the analysis.",
     ["inputs", "configurations"], "all supported models, scenarios, levels, null hypotheses, repetitions, weights",
     "Tests check equality with a copy of the implementation on one design.",
     [FWK, BASE, D + "utils/_sensitivity.py", D + "utils/gain_statistics.py", D + "utils/_plots.py"] + MODELS, [("analysis", FWK + ":sensitivity_analysis"), ("elements", "_sensitivity_element_est in models"), ("benchmark", BASE + ":sensitivity_benchmark, " + D + "utils/gain_statistics.py")],
     "reference-formula monitor plus bound-shape invariants", "Independent OVB formulas as oracle." + COMMON)

prop("C15", "Propensity trimming and weight normalization do exactly what is documented",
     "Every treatment (for instrument models: instrument) propensity score that enters a score, a Riesz representer or a preliminary quantile lies within the trimming threshold of zero and one: predictions inside the band are used untouched, those outside are moved exactly to the boundary, whether they come from a learner or from external predictions. "
     "With normalization on, the inverse-propensity weights of each arm average to one within each repetition, leaving the relative weights within the arm unchanged; off means unchanged weights. Thresholds outside (0, 0.5) and unknown trimming rules are refused.",
     ["inputs", "configurations"], "all propensity models, thresholds, normalization options",
     "Tests use one threshold with well-behaved propensities.",
     [D + "utils/_propensity_score.py", EST] + MODELS, [("trimming", D + "utils/_propensity_score.py:_trimm"), ("normalization", D + "utils/_propensity_score.py:_normalize_ipw")],
     "invariant monitor with extreme injected propensities", "Extreme propensities injected through learners and external predictions." + COMMON)

prop("C16", "Group, conditional and policy effects are projections of the model's own scores",
     "Group and conditional average effects equal the least-squares projection of the model's orthogonal signal on the basis (group means for indicators), with heteroskedasticity-robust covariance and matching intervals, for every basis and group definition. "
     "Policy trees never do worse on their own training score than any constant rule and their rule only uses the supplied covariates.",
     ["inputs", "configurations"], "all bases, groups, levels, joint or pointwise intervals, depths",
     "Tests check shapes and one or two designs.",
     [D + "utils/blp.py", D + "utils/policytree.py", D + "irm/irm.py", D + "irm/apo.py", D + "plm/plr.py"], [("best linear predictor", D + "utils/blp.py:DoubleMLBLP"), ("policy tree", D + "utils/policytree.py:DoubleMLPolicyTree")],
     "reference-formula monitor plus optimality check by enumeration of small trees", "Own least-squares/HC formulas and brute-force policy values." + COMMON)

prop("C17", "Hyperparameters reach exactly the learners they were set for",
     "Parameters set or tuned for a nuisance function, treatment, repetition or fold are applied to exactly those fits and no others; every other fit keeps the user's learner settings. "
     "Tuning selects, among the candidates, one that is best by the requested criterion on the data of that nuisance function, and tuned settings are the ones reported and used in the next fit.",
     ["configurations", "histories"], "all models, treatments, repetitions, folds, grids, tuning modes",
     "Tests compare final coefficients on few grids; misplaced parameters for higher treatments or repetitions are unobserved.",
     [BASE, EST] + MODELS, [("setting", BASE + ":set_ml_nuisance_params"), ("tuning", BASE + ":tune, " + EST + ":_dml_tune")],
     "trace monitor of learner parameters at each fit, own grid search as oracle", "Parameters observed at every recorded fit." + COMMON)

prop("C18", "Estimates respect the symmetries of the problem",
     "With equivariant learners, shifting or scaling the outcome (or scaling the treatment) transforms coefficient and standard error accordingly, permuting observations together with their folds, renaming or reordering columns, relabelling clusters or changing index and dtype changes nothing, "
     "and swapping the arms flips the sign of the effect.",
     ["inputs", "configurations"], "all models, data sets, transformations",
     "No test compares two related data sets.",
     [BASE, D + "double_ml_data.py"] + MODELS, [("scores", "_score_elements in every model file"), ("data access", D + "double_ml_data.py")],
     "metamorphic monitor over pairs of executions", "Pairs of related executions compared." + COMMON)

prop("C19", "Composite models equal their separately fitted parts",
     "Average-potential-outcome and quantile-effect composites give, for every level or quantile, the same estimate and standard error as the single model fitted on the same folds with the same learners, and contrasts equal differences of their inference objects, with one joint bootstrap. "
     "The composite's results, order and labels follow the requested levels or quantiles.",
     ["inputs", "configurations", "histories"], "all level and quantile lists, reference levels, scores, job counts",
     "Tests check few level lists against manual copies.",
     [D + "irm/apos.py", D + "irm/qte.py"], [("APOS", D + "irm/apos.py:DoubleMLAPOS"), ("QTE", D + "irm/qte.py:DoubleMLQTE")],
     "differential monitor composite vs parts", "Composite compared with separately fitted parts." + COMMON)

prop("C20", "Flexible RDD adjusts the outcome out-of-fold and reports the local estimate",
     "The flexible regression-discontinuity estimator subtracts from the outcome (and treatment, if fuzzy) the average of left and right out-of-fold learner predictions at the cutoff, fitted only on other folds with the stated kernel weights (a global learner: on all rows, without them; a sharp design uses no treatment learner), and reports exactly the local-polynomial estimate, "
     "standard error and intervals of the adjusted data, as the median over repetitions. "
     "Shifting the running variable together with the cutoff changes nothing, and inputs are never truncated.",
     ["inputs", "configurations", "histories"], "all designs (sharp, fuzzy), cutoffs, kernels, bandwidths, iterations, repetitions, learners",
     "Tests check a few designs for estimate within bounds.",
     [D + "rdd/rdd.py"], [("RDFlex", D + "rdd/rdd.py:RDFlex")],
     "trace monitor of weighted learner calls plus differential monitor against direct local-polynomial estimation", "Learner calls recorded; reference via rdrobust directly." + COMMON)

prop("C21", "Printed reports state the object's own current numbers",
     "In every state (not fitted, fitted, fitted again, bootstrapped, after role changes or sensitivity analyses), the text of a data object, model, composite, combined inference object, effect object or policy tree "
     "states the object's actual data roles, numbers of observations, folds and repetitions, learners, out-of-sample performance of every nuisance function, and a table whose rows are labelled by the right treatments, "
     "levels, quantiles, contrasts or basis columns and show that row's estimate, standard error, test statistic, p-value and interval; the sensitivity summary states the analysed scenario, the bounds and the robustness values "
     "of each row against its own null hypothesis.",
     ["inputs", "configurations", "histories"], "all report-producing classes, states, label kinds, numbers of treatments and repetitions",
     "Tests only check that strings are produced.",
     [BASE, FWK, D + "double_ml_data.py", D + "irm/apos.py", D + "irm/qte.py", D + "utils/blp.py", D + "utils/policytree.py", D + "utils/_estimation.py"],
     [("report texts", "__str__, summary, sensitivity_summary of each class"), ("row labels", FWK + ":treatment_names")],
     "runtime monitor parsing printed reports at full precision against independently derived numbers", "Printed tables are parsed back at full precision and compared with published estimates and recomputed statistics." + COMMON)

prop("C22", "Data generators follow their documented designs and seeds",
     "Every synthetic data generator returns the requested number of rows and columns in every return type with identical content for the same seed, respects its documented supports (binary treatments, selection, trimmed cells), and embeds the effect parameter it is given, with errors that follow the documented distributions.",
     ["inputs", "configurations"], "all generators, sizes, parameters and return types",
     "Tests check types and shapes only.",
     [D + "datasets.py", D + "rdd/datasets/simple_dgp.py"], [("generators", D + "datasets.py:make_*")],
     "invariant and statistical monitor over generated samples", "Statistical tests at p<1e-9; exact structural equations where documented." + COMMON)

prop("C23", "Learner evaluation uses the true targets of each nuisance function",
     "The reported nuisance losses and user-metric evaluations equal the metric of the stored out-of-fold predictions against the outcome, treatment, instrument, time or selection values each nuisance function predicts, restricted to the observations for which the target is defined, per treatment and repetition.",
     ["inputs", "configurations"], "all models, nuisance functions, repetitions, metrics",
     "Tests check that a metric runs, on one or two models.",
     [BASE, EST] + MODELS, [("loss evaluation", BASE + ":evaluate_learners, _calc_nuisance_loss_per_rep"), ("targets", "_nuisance_est psi targets")],
     "reference monitor over fitted models", "Targets rebuilt independently from the raw data." + COMMON)

prop("C24", "Invalid input and learner faults are refused without corrupting state",
     "A learner that raises or returns non-finite predictions makes fitting fail with an error instead of producing an estimate, wherever the fault occurs, and afterwards a clean fit gives exactly the results of a fresh object. "
     "Invalid arguments (data that violate a model's requirements and placeholder learners included) are refused at the call that receives them and leave the object's previous state and results intact.",
     ["fault_sequences", "inputs", "histories"], "every fit/predict call position, model, job count; invalid argument classes for each public entry point",
     "Tests check exceptions on fresh objects, never the state afterwards, and never faults at later calls.",
     [BASE, EST, D + "utils/_checks.py"] + MODELS, [("finite-prediction checks", D + "utils/_checks.py:_check_finite_predictions"), ("argument checks", "constructors and setters")],
     "fault injection at every learner call with differential recovery monitor", "Every learner call position of each configuration is a fault point." + COMMON)

prop("C25", "Permitted missing covariates reach the learners and change nothing else",
     "When a data object is told to accept missing (or infinite) covariate values, every model class, composite and RDD estimator works on it wherever its learners can handle such values: "
     "the learners receive exactly the user's cells, missing ones included (np.nan or pd.NA), and every result (estimates, scores, tuning, bootstrap, sensitivity, benchmarks, evaluation, effects) "
     "is the one obtained from data in which the missing cells hold a marker that the learners treat the same way. "
     "Where the option forbids them, and always in outcomes, treatments and instruments, missing or infinite values are refused.",
     ["inputs", "configurations", "histories"], "all model classes, options, ways of creating or changing the data object, patterns of missing cells, post-estimation operations",
     "One test fits one model class with missing values; each of the other model classes and operations has its own input checks that could reject or alter them.",
     [D + "double_ml_data.py"] + MODELS, [("finiteness options", D + "double_ml_data.py:force_all_x_finite, set_x_d"), ("input checks of each model", "_nuisance_est in every model file")],
     "differential runtime monitor: data with missing cells vs data with markers, recording learners", "The marker run of the same code is the reference; the monitor counts missing cells actually seen by learners." + COMMON)

prop("C26", "Results always belong to the latest fit and splitting",
     "At every point of any sequence of fitting, re-splitting, bootstrapping, parameter changes and post-estimation calls, every result a model hands out is either the one belonging to its most recent fit and splitting or is refused as not available; no result mixes repetitions, treatments or fits.",
     ["histories"], "all sequences of public operations on one or several models sharing data and learners",
     "Tests exercise one linear life cycle per object.",
     [BASE, FWK, D + "irm/apos.py", D + "irm/qte.py"], [("state reset", BASE + ":_initialize_arrays, fit, set_sample_splitting")],
     "history monitor: random operation sequences vs fresh-object oracle", "Random histories compared with fresh objects." + COMMON)

CLAIMED_ORDER = [p["id"] for p in P]
LEVELS = {"C24": "fault_enumeration"}
NOT_APPLICABLE = {}


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
            if p["observe"]:
                a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"].strip(), quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import vlib.zoo, vlib.core'", checks=[], not_applicable=[])
    for p in P:
        i = p["id"]
        if i in NOT_APPLICABLE:
            m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE[i]))
        elif i not in built:
            m["not_applicable"].append(dict(property=i, reason="the monitor for this property is not built yet"))
        else:
            m["checks"].append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
                                    evidence_file=f"evidence/{i}.json", technique=p["technique"], level=LEVELS.get(i, "exploration"), level_note=p["note"]))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
