"""C24 faults: learner faults at recorded call positions and invalid calls on fitted objects; state before and after."""
import contextlib
import io
import warnings

import joblib
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, RegressorMixin, is_classifier, is_regressor

from vlib import fitted, fw, spy, zoo
from vlib.ops import own_predictions, quiet
from vlib.oracle import f64
from vlib.splits import user_splits
from vlib.state import diff, public
from vlib.trace import keys_of

import doubleml as dml
from doubleml.utils import DMLDummyClassifier, DMLDummyRegressor, DoubleMLBLP, DoubleMLPolicyTree, gain_statistics

LEVEL = "fault_enumeration"
N_QUICK = 484
RULE = ("fault cases: random configuration of every model class, composite and RDFlex; learner faults (fit raises, predict raises, nan, inf, wrong shapes) injected at sampled call positions (for a share of small configurations: at every learner call) of a first fit, a refit, a parallel fit "
        "or a benchmark; then a clean fit compared with an object that never failed. Invalid cases: every public entry point called with invalid arguments on fitted and unfitted objects and all public properties compared before and after. "
        "distinct = (model, options, fault kind, relative position) / (model, invalid call)")
FLOORS = {"ev:fault-refused": 700, "ev:recovered": 8000, "ev:no-results": 3000, "ev:invalid-refused": 3500, "ev:state-kept": 3500, "ev:ctor-refused": 450, "fault-points-enumerated": 150}
ASSUMPTIONS = ["the spy learners raise or corrupt exactly one chosen call"]
QUICK_BUDGET = 500

KINDS = ["fit", "predict", "nan", "nan", "inf", "inf", "short", "long", "one", "col"]
SHAPES = ("short", "long", "one", "col")
EXTRA = ["APOS", "QTE", "RD"]


def gen(rng, tier):
    # every constructor first: they are cheap and each class has its own checks
    for model in list(zoo.SINGLE) * 4:
        yield dict(kind="ctor", model=model, sub=int(rng.integers(2**31)))
    for k in range(8):
        yield dict(kind="composite", model=["APOS", "QTE"][k % 2], sub=int(rng.integers(2**31)), fit=k < 6)
        yield dict(kind="framework", model="FW", sub=int(rng.integers(2**31)))
    for k in range(3):
        yield dict(kind="utils", model="utils", sub=int(rng.integers(2**31)))
    while True:
        if rng.random() < 0.68:
            model = str(rng.choice(zoo.SINGLE + EXTRA))
            o = dict(kind="fault", model=model, sub=int(rng.integers(2**31)), jobs=bool(rng.random() < 0.2), history=str(rng.choice(["first", "refit", "refit", "benchmark"])), store_models=bool(rng.random() < 0.2), n_pos=4, enum=bool(rng.random() < (0.12 if tier == "quick" else 0.6)))
            if model in zoo.SINGLE:
                s = fitted.draw(rng, model=model, small=True, max_rep=2)
                if s["split"] == "nosplit":
                    s["split"] = "drawn"
                s["n_folds"] = min(s["n_folds"], 3)
                o["s"] = s
            elif model == "APOS":
                o["s"] = zoo.draw_spec(rng, model="APO", small=True, max_rep=2, allow_cluster=False)
                o["s"]["binary_y"] = o["s"]["g_clf"] = False
            elif model == "QTE":
                o["s"] = zoo.draw_spec(rng, model=str(rng.choice(["PQ", "CVAR"])), max_rep=1, allow_cluster=False)
            else:
                o["s"] = dict(model="RD", seed=int(rng.integers(2**31)), fuzzy=bool(rng.random() < 0.5), n_it=int(rng.integers(1, 3)), n_rep=int(rng.integers(1, 3)))
            o["cap"] = (12 if model in ("QTE", "RD", "LPQ") else 36) if tier == "quick" else 400
            if o["enum"]:
                o["jobs"] = False
                o["s"]["n_rep"] = 1
                if "n_folds" in o["s"]:
                    o["s"]["n_folds"] = 2
            yield o
        elif rng.random() < 0.85:
            s = fitted.draw(rng, small=True, max_rep=2)
            if s["split"] == "nosplit":
                s["split"] = "drawn"
            yield dict(kind="invalid", model=s["model"], s=s, fit=bool(rng.random() < 0.8), sub=int(rng.integers(2**31)))
        elif rng.random() < 0.3:
            yield dict(kind="framework", model="FW", sub=int(rng.integers(2**31)))
        elif rng.random() < 0.5:
            yield dict(kind="composite", model=str(rng.choice(["APOS", "QTE"])), sub=int(rng.integers(2**31)), fit=bool(rng.random() < 0.8))
        else:
            yield dict(kind="ctor", model=str(rng.choice(zoo.SINGLE)), sub=int(rng.integers(2**31)))


def run(o, mon):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), joblib.parallel_backend("threading"):
        warnings.simplefilter("ignore")
        {"fault": fault, "invalid": invalid, "composite": composite, "ctor": ctor, "framework": framework, "utils": utilities}[o["kind"]](o, mon)


# ------------------------------------------------------------------ faults
def factory(o):
    """returns make() -> a new unfitted object with the same splits, and fit(model)"""
    s = o["s"]
    rng = np.random.default_rng(o["sub"])
    if o["model"] == "RD":
        from doubleml.rdd import RDFlex

        r = np.random.default_rng(s["seed"])
        n = 460
        x = r.normal(size=n)
        W = r.uniform(-1, 1, size=(n, 2))
        right = x >= 0
        d = (r.uniform(size=n) < 0.2 + 0.6 * right).astype(int) if s["fuzzy"] else right.astype(int)
        y = W[:, 0] + d + 0.2 * x + r.normal(size=n) * 0.4
        df = pd.DataFrame(dict(uid=spy.UID0 + np.arange(n), a=W[:, 0], b=W[:, 1], s=x, d=d, y=y))
        data = dml.DoubleMLData(df, "y", "d", x_cols=["uid", "a", "b"], s_col="s")

        def make():
            np.random.seed(o["sub"] % 2**31)
            return RDFlex(data, spy.SpyReg(record=False), spy.SpyClf(record=False) if s["fuzzy"] else None, fuzzy=s["fuzzy"], n_folds=2, n_rep=s["n_rep"], h_fs=1.0)

        return make, lambda m: m.fit(n_iterations=s["n_it"]), None
    if o["model"] in ("APOS", "QTE"):
        df, roles = zoo.make_frame(s)
        data = zoo.make_data(s, df, roles)
        L = zoo.make_learners(s, record=False)
        kw = dict(n_folds=2, n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"])

        def make():
            np.random.seed(o["sub"] % 2**31)
            if o["model"] == "APOS":
                return dml.DoubleMLAPOS(data, L["ml_g"], L["ml_m"], treatment_levels=[int(v) for v in np.random.default_rng(o["sub"]).permutation(s["levels"])[:2]], **kw)
            return dml.DoubleMLQTE(data, L["ml_g"], L["ml_m"], quantiles=[0.5, 0.4], score={"PQ": "PQ", "CVAR": "CVaR"}[s["model"]], **kw)

        jobs = dict(n_jobs_models=2) if o["jobs"] else {}
        return make, lambda m: m.fit(store_models=o["store_models"], **jobs), None
    first = fitted.fit(s, do_fit=False)
    sm, cl = first.model.smpls, (first.model.smpls_cluster if s["cluster"] else None)
    jobs = dict(n_jobs_cv=2) if o["jobs"] else {}

    def make():
        L = zoo.make_learners(s, record=False)
        m = zoo.build_model(s, first.data, L, first.weights, n_rep=s["n_rep"], draw_sample_splitting=False)
        if s["cluster"]:
            m.set_sample_splitting(sm, all_smpls_cluster=cl)
        else:
            m.set_sample_splitting(sm)
        return m

    del rng
    return make, lambda m: m.fit(store_models=o["store_models"], **jobs), first


def key_results(m):
    out = {k: getattr(m, k) for k in ("coef", "se", "all_coef", "all_se", "psi", "psi_deriv", "h", "ci") if hasattr(m, k)}
    out["summary"] = m.summary.values if hasattr(m, "summary") else None
    for k in ("predictions", "nuisance_loss", "nuisance_targets", "sensitivity_elements"):
        v = getattr(m, k, None)
        for a, b in (v or {}).items():
            out[f"{k}.{a}"] = b
    return {k: f64(v).copy() for k, v in out.items() if v is not None}


def set_fault(kind, pos, row):
    F = spy.FAULTS
    F.reset()
    F.row = row
    if kind == "fit":
        F.fail_fit_at = pos
    elif kind == "predict":
        F.fail_predict_at = pos
    elif kind == "nan":
        F.nan_predict_at = pos
    elif kind == "inf":
        F.inf_predict_at = pos
    else:
        F.shape_predict_at, F.shape = pos, kind


def fault(o, mon):
    rng = np.random.default_rng(o["sub"] + 1)
    make, fit, first = factory(o)
    base = make()
    spy.FAULTS.reset()
    fit(base)
    nf, npred = spy.FAULTS.fit_calls, spy.FAULTS.predict_calls
    want = key_results(base)
    what = f"{o['model']} {o['s'].get('score', '')} {o['s'].get('kind', '')}".strip()
    bench = o["history"] == "benchmark" and o["model"] in zoo.SENS_OK and len(first.roles["x_cols"]) > 2 and not o["s"]["callable"] and not (o["s"]["model"] == "PLR" and o["s"]["score"] not in ("partialling out", "IV-type"))
    if bench:
        try:
            xs = [c for c in first.roles["x_cols"] if c != "uid"][:1]
            spy.FAULTS.reset()
            base.sensitivity_benchmark(xs)
            nf, npred = spy.FAULTS.fit_calls, spy.FAULTS.predict_calls
        except Exception:
            bench = False
    m = None
    if o["enum"]:  # every learner call of this configuration is a fault point
        plan = [("fit", p) for p in range(1, nf + 1)] + [(k, p) for p in range(1, npred + 1) for k in (("nan",) if p % 2 else ("inf",)) + (("predict",) if p % 3 == 0 else ())]
        if len(plan) > o["cap"]:
            plan = [plan[i] for i in sorted(rng.choice(len(plan), o["cap"], replace=False))]
        mon.count("fault-points-enumerated", len(plan))
    else:
        plan = []
        for _ in range(o["n_pos"]):
            kind = str(rng.choice(KINDS))
            tot = nf if kind == "fit" else npred
            if tot:
                plan.append((kind, int(rng.integers(1, tot + 1))))
    for kind, pos in plan:
        tot = nf if kind == "fit" else npred
        if m is None or o["history"] == "first":
            m = make()
            if o["history"] != "first":
                fit(m)
                if hasattr(m, "bootstrap") and not o["s"].get("cluster"):
                    m.bootstrap(n_rep_boot=5)
        before = key_results(m) if bench else None
        set_fault(kind, pos, float(rng.choice([0.0, 0.5, 1.0])))
        err = None
        try:
            m.sensitivity_benchmark(xs) if bench else fit(m)
        except Exception as e:
            err = e
        fired = spy.FAULTS.fired
        spy.FAULTS.reset()
        if not fired:
            mon.count("fault-not-reached")
            m = None
            continue
        mon.count("fault:" + kind)
        if bench:
            mon.check(err is not None or kind in SHAPES, "fault-refused", f"{what}: {kind} at call {pos}/{tot} of a benchmark's refit: no error")
            after = key_results(m)
            for k in before:
                mon.close(after.get(k, np.nan), before[k], "benchmark-state", f"{what}: {k} after a failed benchmark", rtol=0, atol=0)
            continue
        if err is None:
            if kind in SHAPES:  # the shape of predictions is the learner's (scikit-learn's) contract: an error is not promised
                mon.count("shape-accepted")
                m = None if o["history"] == "first" else m
                fit(m or make())
                continue
            mon.check(False, "fault-refused", f"{what}: {kind} at {'fit' if kind == 'fit' else 'predict'} call {pos}/{tot}: no error, coef {np.ravel(m.coef)[:3]} (without the fault {want['coef'][:3]})")
        else:
            mon.count("ev:fault-refused")
            no_results(o, mon, m, what, kind, pos, tot)
        fit(m)
        got = key_results(m)
        mon.check(set(got) == set(want), "recovered", f"{what}: results after recovery {sorted(set(got) ^ set(want))}")
        for k in want:
            if k in got:
                mon.close(got[k], want[k], "recovered", f"{what}: {k} of a clean fit after a fault ({kind} at {pos}/{tot})", rtol=1e-8, atol=1e-10)
        mon.sig(o["model"], o["s"].get("score"), o["s"].get("kind"), kind, round(4 * pos / tot), o["history"], o["jobs"], o["s"].get("cluster"))


def no_results(o, mon, m, what, kind, pos, tot):
    """a failed fit leaves no estimate behind"""
    mech = "no-results"
    for a in ("coef", "se", "ci", "boot_t_stat"):
        try:
            v = getattr(m, a, None)
        except Exception:
            continue
        mon.check(v is None or np.all(np.isnan(f64(v))), mech, f"{what}: {a} = {np.ravel(v)[:3] if v is not None else None} after a failed fit ({kind} at {pos}/{tot})")
    for nm, f in (("confint", lambda: m.confint()), ("bootstrap", lambda: m.bootstrap(n_rep_boot=3)), ("p_adjust", lambda: m.p_adjust())):
        if not hasattr(m, nm):
            continue
        try:
            v = f()
        except Exception:
            mon.count("ev:no-results")
            continue
        v = getattr(v, "values", None)
        mon.check(v is not None and np.all(np.isnan(f64(v))), mech, f"{what}: {nm} works after a failed fit ({kind} at {pos}/{tot})")


# ------------------------------------------------------------------ invalid calls
def invalid(o, mon):
    s = o["s"]
    rng = np.random.default_rng(o["sub"])
    c = fitted.fit(s, do_fit=o["fit"])
    m, df, roles = c.model, c.df, c.roles
    n, R = len(df), s["n_rep"]
    what = f"{s['model']} {s.get('score')} {s.get('kind', '')}"
    if o["fit"]:
        if not s["cluster"]:
            m.bootstrap(n_rep_boot=4)
        if not s["callable"] and s["model"] in zoo.SENS_OK and rng.random() < 0.5:
            quiet(lambda: m.sensitivity_analysis())
    d0 = roles["d_cols"][0]
    ln = m.params_names[0]
    sm = m.smpls
    calls = generic(m, rng, n)
    half = [(sm[0][0][0], sm[0][0][1])] * 2
    calls += [
        ("set_sample_splitting string", lambda: m.set_sample_splitting("all")),
        ("set_sample_splitting index", lambda: m.set_sample_splitting([[(np.array([0, n + 3]), np.array([1]))] * 2])),
        ("set_sample_splitting negative", lambda: m.set_sample_splitting([[(np.array([0, -1]), np.array([1]))] * 2])),
        ("set_sample_splitting no partition", lambda: m.set_sample_splitting([half])),
        ("set_sample_splitting float", lambda: m.set_sample_splitting([[(a.astype(float), b.astype(float) + 0.5) for a, b in sm[0]]])),
        ("set_sample_splitting overlap", lambda: m.set_sample_splitting([[(np.arange(n), b) for a, b in sm[0]]])),
        ("set_sample_splitting mixed folds", lambda: m.set_sample_splitting([sm[0], sm[0][:-1]])),
        ("set_sample_splitting duplicated test", lambda: m.set_sample_splitting([[(a, np.concatenate([b, b[:1]])) for a, b in sm[0]]])),
        ("set_ml_nuisance_params learner", lambda: m.set_ml_nuisance_params("ml_x", d0, {"alpha": 1.0})),
        ("set_ml_nuisance_params treat", lambda: m.set_ml_nuisance_params(ln, "other", {"alpha": 1.0})),
        ("set_ml_nuisance_params length", lambda: m.set_ml_nuisance_params(ln, d0, [{"alpha": 1.0}] * (R + 1))),
        ("evaluate_learners", lambda: m.evaluate_learners(learners=["nope"])),
        ("evaluate_learners metric", lambda: m.evaluate_learners(metric="mse")),
        ("tune no grid", lambda: m.tune({"ml_zz": {"alpha": [1.0]}})),
        ("tune mode", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, search_mode="grid")),
        ("tune folds", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, n_folds_tune=1)),
        ("tune folds type", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, n_folds_tune="2")),
        ("tune iterations", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, search_mode="randomized_search", n_iter_randomized_search=1)),
        ("tune jobs", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, n_jobs_cv="a")),
        ("tune on folds", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, tune_on_folds=1)),
        ("tune scoring", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, scoring_methods="neg_mean_squared_error")),
        ("tune scoring learner", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, scoring_methods={"ml_zz": "neg_mean_squared_error"})),
        ("tune iterations type", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, search_mode="randomized_search", n_iter_randomized_search=2.5)),
        ("tune set_as_params", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, set_as_params="yes")),
        ("tune return", lambda: m.tune({k: {"alpha": [1.0]} for k in m.params_names}, return_tune_res=1)),
        ("get_params", lambda: m.get_params("ml_zz")), ("get_params type", lambda: m.get_params(1)),
        ("set_sample_splitting test float", lambda: m.set_sample_splitting([[(a, b + 0.5) for a, b in sm[0]]])),
        ("set_sample_splitting triple", lambda: m.set_sample_splitting([(a, b, b) for a, b in sm[0]])),
        ("fit jobs", lambda: m.fit(n_jobs_cv="1")),
        ("fit store_models", lambda: m.fit(store_models=1)),
        ("fit store_predictions", lambda: m.fit(store_predictions="yes")),
        ("fit external type", lambda: m.fit(external_predictions=[1])),
        ("fit external treatment", lambda: m.fit(external_predictions={"other": {ln: np.zeros((n, R))}})),
        ("fit external learner", lambda: m.fit(external_predictions={d0: {"ml_zz": np.zeros((n, R))}})),
        ("fit external shape", lambda: m.fit(external_predictions={d0: {ln: np.zeros((n, R + 1))}})),
    ]
    if s["cluster"]:
        cl = m.smpls_cluster
        calls += [("set_sample_splitting without cluster", lambda: m.set_sample_splitting(sm)), ("set_sample_splitting cluster length", lambda: m.set_sample_splitting(sm, all_smpls_cluster=[cl[0][:-1]] * len(cl)))]
    if s["model"] in ("IRM", "PLR", "APO") and o["fit"]:
        B = pd.DataFrame(np.ones((n + 1, 1)))
        if s["model"] != "APO":
            calls += [("cate type", lambda: m.cate(np.ones((n, 1)))), ("cate rows", lambda: m.cate(B))]
            calls += [("gate type", lambda: m.gate(np.ones((n, 1)))), ("gate values", lambda: m.gate(pd.DataFrame(np.arange(2.0 * n).reshape(-1, 2))))]
    run_calls(o, mon, m, calls, what)
    if o["fit"]:
        # the object still works
        a = key_results(m)
        m2 = fitted.fit(s).model
        b = key_results(m2)
        for k in b:
            mon.close(a[k], b[k], "usable", f"{what}: {k} after refused calls", rtol=1e-9, atol=1e-11)


def generic(m, rng, n):
    """invalid calls shared by models and composites"""
    calls = [
        ("bootstrap method", lambda: m.bootstrap(method="gauss")), ("bootstrap type", lambda: m.bootstrap(method=1)), ("bootstrap size", lambda: m.bootstrap(n_rep_boot=0)), ("bootstrap size type", lambda: m.bootstrap(n_rep_boot="5")),
        ("bootstrap size float", lambda: m.bootstrap(n_rep_boot=5.5)),
        ("confint level", lambda: m.confint(level=1.0)), ("confint level 0", lambda: m.confint(level=0.0)), ("confint type", lambda: m.confint(level="0.9")), ("confint int", lambda: m.confint(level=1)), ("confint joint", lambda: m.confint(joint=1)),
        ("p_adjust", lambda: m.p_adjust(method="nope")), ("p_adjust type", lambda: m.p_adjust(method=1)),
        ("sensitivity cf_y", lambda: m.sensitivity_analysis(cf_y=1.5)), ("sensitivity cf_y type", lambda: m.sensitivity_analysis(cf_y="a")), ("sensitivity cf_d", lambda: m.sensitivity_analysis(cf_d=1.0)), ("sensitivity cf_d neg", lambda: m.sensitivity_analysis(cf_d=-0.1)),
        ("sensitivity rho", lambda: m.sensitivity_analysis(rho=1.2)), ("sensitivity rho type", lambda: m.sensitivity_analysis(rho="1")), ("sensitivity level", lambda: m.sensitivity_analysis(level=1.0)),
        ("sensitivity null type", lambda: m.sensitivity_analysis(null_hypothesis="0")), ("sensitivity null int", lambda: m.sensitivity_analysis(null_hypothesis=1)), ("plot value type", lambda: m.sensitivity_plot(value=1)), ("sensitivity null", lambda: m.sensitivity_analysis(null_hypothesis=np.array(["a"]))), ("sensitivity null length", lambda: m.sensitivity_analysis(null_hypothesis=np.zeros(97))),
        ("benchmark type", lambda: m.sensitivity_benchmark("x0")), ("benchmark empty", lambda: m.sensitivity_benchmark([])), ("benchmark unknown", lambda: m.sensitivity_benchmark(["nope"])), ("benchmark args", lambda: m.sensitivity_benchmark(["x0"], fit_args=1)),
        ("plot idx", lambda: m.sensitivity_plot(idx_treatment=99)), ("plot value", lambda: m.sensitivity_plot(value="x")), ("plot bounds", lambda: m.sensitivity_plot(grid_bounds=(0.0, 1.2))),
    ]
    return [c for c in calls if hasattr(m, {"bootstrap": "bootstrap", "confint": "confint", "p_adjust": "p_adjust"}.get(c[0].split()[0], "sensitivity_analysis"))]


def run_calls(o, mon, m, calls, what):
    before = public(m)
    for nm, f in calls:
        try:
            f()
            mon.check(False, "invalid-refused", f"{what}: {nm} was accepted ({'fitted' if o['fit'] else 'unfitted'})")
        except Exception:
            mon.count("ev:invalid-refused")
        r = diff(before, public(m))
        mon.check(r is None, "state-kept", f"{what}: refused {nm} changed {r}")
        if r is not None:
            before = public(m)
        mon.sig(what, nm, o["fit"])


def composite(o, mon):
    rng = np.random.default_rng(o["sub"])
    if o["model"] == "APOS":
        s = zoo.draw_spec(rng, model="APO", small=True, max_rep=2, allow_cluster=False)
        s["binary_y"] = s["g_clf"] = False
    else:
        s = zoo.draw_spec(rng, model=str(rng.choice(["PQ", "CVAR", "LPQ"])), max_rep=1, allow_cluster=False)
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    L = zoo.make_learners(s, record=False)
    kw = dict(n_folds=2, n_rep=s["n_rep"])
    g, ml = L["ml_g"], L["ml_m"]
    if o["model"] == "APOS":
        mk = lambda **k: dml.DoubleMLAPOS(data, g, ml, **{**dict(treatment_levels=[0, 1]), **kw, **k})  # noqa: E731
        bad = [("levels", dict(treatment_levels=[0, 77])), ("score", dict(score="ATE"))]
    else:
        sc = {"PQ": "PQ", "CVAR": "CVaR", "LPQ": "LPQ"}[s["model"]]
        mk = lambda **k: dml.DoubleMLQTE(data, g, ml, **{**dict(quantiles=[0.4, 0.6], score=sc), **kw, **k})  # noqa: E731
        bad = [("quantile 0", dict(quantiles=[0.0, 0.5])), ("quantile 1", dict(quantiles=[0.5, 1.0])), ("score", dict(score="ATE")), ("kde", dict(kde=1) if s["model"] != "CVAR" else dict(score=1))]
    bad += [("folds", dict(n_folds=1.5)), ("rep", dict(n_rep=0)), ("rep type", dict(n_rep=1.5)), ("trimming", dict(trimming_threshold=0.6)), ("trimming rule", dict(trimming_rule="discard")), ("normalize", dict(normalize_ipw=1))]
    for nm, k in bad:
        mon.raises(lambda: mk(**k), "ctor-refused", f"{o['model']} {nm}", exc=(TypeError, ValueError, NotImplementedError))
    m = mk()
    if o["fit"]:
        m.fit()
        m.bootstrap(n_rep_boot=4)
    n = len(df)
    sm = m.smpls
    calls = generic(m, rng, n) + [
        ("set_sample_splitting string", lambda: m.set_sample_splitting("all")), ("set_sample_splitting index", lambda: m.set_sample_splitting([[(np.array([0, n + 3]), np.array([1]))] * 2])),
        ("set_sample_splitting overlap", lambda: m.set_sample_splitting([[(np.arange(n), b) for a, b in sm[0]]])), ("set_sample_splitting mixed folds", lambda: m.set_sample_splitting([sm[0], sm[0][:-1]])),
        ("set_sample_splitting no partition", lambda: m.set_sample_splitting([[sm[0][0]] * 2])),
        ("fit jobs", lambda: m.fit(n_jobs_cv="1")), ("fit models jobs", lambda: m.fit(n_jobs_models="a")), ("fit store_models", lambda: m.fit(store_models=1)), ("fit store_predictions", lambda: m.fit(store_predictions=0)), ("fit external", lambda: m.fit(external_predictions=[1])),
    ]
    if o["model"] == "APOS":
        calls += [("contrast level", lambda: m.causal_contrast(99)), ("contrast levels", lambda: m.causal_contrast([0, 99])), ("fit external level", lambda: m.fit(external_predictions={99: {}})),
                  ("fit external learner", lambda: m.fit(external_predictions={0: {"ml_zz": np.zeros((n, s["n_rep"]))}})), ("fit external shape", lambda: m.fit(external_predictions={0: {"ml_m": np.zeros(3)}}))]
    run_calls(o, mon, m, calls, o["model"])


# ------------------------------------------------------------------ inference objects
def framework(o, mon):
    rng = np.random.default_rng(o["sub"])
    n, K, R = int(rng.integers(20, 60)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    d = fw.parts(rng, n, K, R, sens="full")
    f = fw.make(d)
    mon.check(f.n_thetas == K and f.n_rep == R and f.n_obs == n, "ctor-state", "sizes of a valid framework")
    bad = [("not a dict", [1, 2])]
    for k in ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors"):
        e = fw.copy_parts(d)
        e[k] = np.concatenate([e[k], e[k]], axis=0)
        bad.append((f"{k} longer", e))
        e = fw.copy_parts(d)
        del e[k]
        bad.append((f"{k} missing", e))
    for k in ("all_thetas", "all_ses"):
        e = fw.copy_parts(d)
        e[k] = np.concatenate([e[k], e[k]], axis=1)
        bad.append((f"{k} repetitions", e))
    e = fw.copy_parts(d)
    del e["scaled_psi"]
    bad.append(("scaled_psi missing", e))
    for k in ("max_bias", "psi_max_bias", "sigma2", "nu2"):
        for why, v in (("type", "x"), ("list", d["sensitivity_elements"][k].tolist()), ("shape", np.concatenate([d["sensitivity_elements"][k]] * 2, axis=1)), ("repetitions", np.concatenate([d["sensitivity_elements"][k]] * 2, axis=2))):
            e = fw.copy_parts(d)
            e["sensitivity_elements"][k] = v
            bad.append((f"{k} {why}", e))
    for k in ("max_bias", "psi_max_bias"):
        e = fw.copy_parts(d)
        del e["sensitivity_elements"][k]
        bad.append((f"{k} missing", e))
    for k in ("sigma2", "nu2"):
        e = fw.copy_parts(d)
        i = tuple(int(rng.integers(s)) for s in e["sensitivity_elements"][k].shape)
        e["sensitivity_elements"][k][i] = -0.1
        bad.append((f"{k} negative", e))
    bad += [("sensitivity type", {**d, "sensitivity_elements": 1}), ("names type", {**d, "treatment_names": "a"}), ("names length", {**d, "treatment_names": ["a"] * (K + 1)}), ("names value", {**d, "treatment_names": [1] * K}),
            ("cluster type", {**d, "is_cluster_data": 1}), ("cluster without dict", {**d, "is_cluster_data": True}), ("cluster dict type", {**d, "is_cluster_data": True, "cluster_dict": 1}), ("cluster dict keys", {**d, "is_cluster_data": True, "cluster_dict": {"smpls": 1}})]
    for nm, e in bad:
        mon.raises(lambda: dml.DoubleMLFramework(e), "ctor-refused", f"framework {nm}", exc=(TypeError, ValueError))
        mon.sig("framework", nm)
    g_n, g_r, g_k = (fw.make(fw.parts(rng, *sz)) for sz in ((n + 1, K, R), (n, K, R + 1), (n, K + 1, R)))
    f.bootstrap(n_rep_boot=int(rng.integers(3, 12)))
    quiet(lambda: f.sensitivity_analysis())
    two = {"cf_y": [0.1, 0.2], "cf_d": [0.1, 0.2], "name": ["a", "b"]}
    calls = [("add n", lambda: f + g_n), ("add rep", lambda: f + g_r), ("add thetas", lambda: f + g_k), ("sub n", lambda: f - g_n), ("sub rep", lambda: f - g_r), ("sub thetas", lambda: f - g_k), ("add number", lambda: f + 1.0), ("sub number", lambda: f - 2),
             ("mul frame", lambda: f * f), ("mul text", lambda: f * "2"), ("concat n", lambda: dml.concat([f, g_n])), ("concat rep", lambda: dml.concat([f, g_r])), ("concat empty", lambda: dml.concat([])), ("concat other", lambda: dml.concat([f, 1])),
             ("names", lambda: setattr(f, "treatment_names", ["a"] * (K + 1))), ("names type", lambda: setattr(f, "treatment_names", "abc"[:K])), ("names value", lambda: setattr(f, "treatment_names", [1] * K))]
    calls += [c for c in generic(f, rng, n) if not c[0].startswith("benchmark")]
    calls += [("plot benchmarks " + nm, lambda b=b: f.sensitivity_plot(benchmarks=b)) for nm, b in (("type", [1]), ("keys", {"cf_y": [0.1], "cf_d": [0.1]}), ("length", {**two, "name": ["a"]}), ("value", {**two, "cf_y": [0.1, 1.5]}), ("names", {**two, "name": [1, 2]}))]
    calls += [("plot idx type", lambda: f.sensitivity_plot(idx_treatment="0")), ("plot idx negative", lambda: f.sensitivity_plot(idx_treatment=-1)), ("plot grid", lambda: f.sensitivity_plot(grid_size=5)), ("plot grid type", lambda: f.sensitivity_plot(grid_size="100")),
              ("plot scenario", lambda: f.sensitivity_plot(include_scenario=1)), ("plot fill", lambda: f.sensitivity_plot(fill=1)), ("plot bounds type", lambda: f.sensitivity_plot(grid_bounds=(1, 0.3)))]
    run_calls({"fit": True}, mon, f, calls, "framework")
    u = fw.make(d)  # nothing bootstrapped or analysed
    run_calls({"fit": False}, mon, u, [("joint", lambda: u.confint(joint=True)), ("romano-wolf", lambda: u.p_adjust()), ("scenario", lambda: u.sensitivity_plot())], "framework")
    e = {k: v for k, v in d.items() if k != "sensitivity_elements"}
    w = fw.make(e)
    run_calls({"fit": False}, mon, w, [("no sensitivity", lambda: w.sensitivity_analysis()), ("no sensitivity plot", lambda: w.sensitivity_plot())], "framework")


# ------------------------------------------------------------------ constructors
def ctor(o, mon):
    rng = np.random.default_rng(o["sub"])
    s = zoo.draw_spec(rng, model=o["model"], small=True, allow_cluster=False, allow_callable=False)
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    L = zoo.make_learners(s, record=False)
    W = zoo.make_weights(s)
    mk = lambda d=data, lr=L, **k: zoo.build_model(s, d, lr, W, **k)  # noqa: E731
    what = o["model"]
    keep = public(mk())
    bad = [("score", dict(score="nope")), ("score type", dict(score=1)), ("folds", dict(n_folds=1.5)), ("folds 0", dict(n_folds=0)), ("rep", dict(n_rep=0)), ("rep type", dict(n_rep="2")), ("draw", dict(draw_sample_splitting=1)), ("folds bool", dict(n_folds="3"))]
    if "trimming_threshold" in s and o["model"] not in ("PLR", "PLIV"):
        bad += [("trimming", dict(trimming_threshold=0.7)), ("trimming 0.5", dict(trimming_threshold=0.5)), ("trimming 0", dict(trimming_threshold=0.0)), ("trimming neg", dict(trimming_threshold=-0.1)), ("trimming type", dict(trimming_threshold="a")), ("trimming rule", dict(trimming_rule="discard"))]
    if "normalize_ipw" in s:
        bad.append(("normalize", dict(normalize_ipw="yes")))
    if "quantile" in s:
        bad += [("quantile", dict(quantile=0.0)), ("quantile 1", dict(quantile=1.0)), ("quantile type", dict(quantile="0.5")), ("treatment", dict(treatment=2)), ("treatment type", dict(treatment="1"))]
        if o["model"] != "CVAR":
            bad.append(("kde", dict(kde="gaussian")))
    if "in_sample_normalization" in s:
        bad.append(("in_sample_normalization", dict(in_sample_normalization=1)))
    if o["model"] == "IIVM":
        bad += [("subgroups", dict(subgroups={"always_takers": True})), ("subgroups type", dict(subgroups=[True, True])), ("subgroups value", dict(subgroups={"always_takers": 1, "never_takers": True})), ("subgroups second value", dict(subgroups={"always_takers": True, "never_takers": "no"})), ("subgroups keys", dict(subgroups={"always_takers": True, "never": True}))]
    if o["model"] == "APO":
        bad += [("level", dict(treatment_level=99))]
    if o["model"] in ("IRM", "APO"):
        n = len(df)
        bad += [("weights type", dict(weights=1)), ("weights length", dict(weights=np.ones(n + 1))), ("weights negative", dict(weights=-np.ones(n))), ("weights zero", dict(weights=np.zeros(n))), ("weights 2d", dict(weights=np.ones((n, 1)))), ("weights list", dict(weights=[1.0] * n)), ("weights one negative", dict(weights=np.r_[np.ones(n - 1), -0.1])),
                ("weights dict negative", dict(weights={"weights": np.r_[-0.1, np.ones(n - 1)], "weights_bar": np.ones((n, s["n_rep"]))})), ("weights bar negative", dict(weights={"weights": np.ones(n), "weights_bar": np.r_[np.ones((n - 1, s["n_rep"])), -0.1 * np.ones((1, s["n_rep"]))]})),
                ("weights dict", dict(weights={"weights": np.ones(n)})), ("weights dict short", dict(weights={"weights": np.ones(n - 1), "weights_bar": np.ones((n, s["n_rep"]))})), ("weights dict zero", dict(weights={"weights": np.zeros(n), "weights_bar": np.ones((n, s["n_rep"]))})), ("weights bar zero", dict(weights={"weights": np.ones(n), "weights_bar": np.zeros((n, s["n_rep"]))})), ("weights dict keys", dict(weights={"weights": np.ones(n), "bar": np.ones((n, s["n_rep"]))})), ("weights nan", dict(weights=np.r_[np.nan, np.ones(n - 1)])), ("weights bar", dict(weights={"weights": np.ones(n), "weights_bar": np.ones((n, 7))}))]
    if o["model"] == "IRM" and s["score"] == "ATTE":
        bad += [("weights atte dict", dict(weights={"weights": np.ones(len(df)), "weights_bar": np.ones((len(df), s["n_rep"]))})), ("weights atte values", dict(weights=np.r_[0.5, np.ones(len(df) - 1)]))]
    for nm, k in bad:
        try:
            zoo.build_model(s, data, L, k.pop("weights", W), **k)
            mon.check(False, "ctor-refused", f"{what}: {nm} was accepted")
        except (TypeError, ValueError, NotImplementedError, AssertionError, KeyError):
            mon.count("ev:ctor-refused")
        mon.sig(what, "ctor", nm)
    for nm in L:
        if nm == "ml_m" and o["model"] in ("DID", "DIDCS") and s["score"] == "experimental":
            continue
        for why, bad_l in (("class", type(L[nm])), ("no learner", "LassoCV"), ("no fit", object())):
            mon.raises(lambda: mk(lr={**L, nm: bad_l}), "ctor-refused", f"{what}: {nm} {why}", exc=TypeError)
        if hasattr(L[nm], "predict_proba") and not (nm == "ml_g" and o["model"] in ("IRM", "APO", "IIVM", "SSM", "DID", "DIDCS")) and not (o["model"] == "PLR"):
            mon.raises(lambda: mk(lr={**L, nm: spy.SpyReg()}), "ctor-refused", f"{what}: regressor for {nm}", exc=(TypeError, ValueError))
        for why, bad_l in (("no set_params", Bare(("fit", "get_params", "predict", "predict_proba"))), ("no get_params", Bare(("fit", "set_params", "predict", "predict_proba"))), ("no prediction method", Bare(("fit", "set_params", "get_params")))):
            mon.raises(lambda: mk(lr={**L, nm: bad_l}), "ctor-refused", f"{what}: {nm} {why}", exc=TypeError)
    y01 = set(np.unique(df[roles["y_col"]])) <= {0, 1}
    if "ml_g" in L and o["model"] in ("IRM", "APO", "IIVM", "SSM", "DID", "DIDCS") and not y01:
        mon.raises(lambda: mk(lr={**L, "ml_g": spy.SpyClf(record=False)}), "ctor-refused", f"{what}: classifier for an outcome that is not binary", exc=ValueError)
    if o["model"] == "PLR" and not set(np.unique(df[roles["d_cols"][0]])) <= {0, 1}:
        mon.raises(lambda: mk(lr={**L, "ml_m": spy.SpyClf(record=False)}), "ctor-refused", f"{what}: classifier for a treatment that is not binary", exc=ValueError)
    # class labels instead of probabilities
    if o["model"] in ("IRM", "APO", "IIVM") and y01:
        lab = mk(lr={**L, "ml_g": Labels()})
        mon.raises(lambda: quiet(lambda: lab.fit()), "fault-refused", f"{what}: a learner that predicts labels of a binary outcome", exc=ValueError)
    if o["model"] == "PLR" and all(set(np.unique(df[c])) <= {0, 1} for c in roles["d_cols"]):
        lab = mk(lr={**L, "ml_m": Labels()})
        mon.raises(lambda: quiet(lambda: lab.fit()), "fault-refused", f"{what}: a learner that predicts labels of a binary treatment", exc=ValueError)
    # data the model cannot use
    mon.raises(lambda: mk(d=df), "ctor-refused", f"{what}: a data frame", exc=TypeError)
    d2 = df.copy()
    if o["model"] not in ("PLR", "PLIV"):
        if o["model"] != "APO":
            d2[roles["d_cols"][0]] = d2[roles["d_cols"][0]] + 1
            mon.raises(lambda: mk(d=zoo.make_data(s, d2, roles)), "ctor-refused", f"{what}: treatment not 0/1", exc=ValueError)
        d2 = df.copy()
        d2["other"] = np.arange(len(df)) % 2
        r2 = {**roles, "d_cols": roles["d_cols"] + ["other"]}
        if o["model"] != "SSM":
            mon.raises(lambda: mk(d=zoo.make_data(s, d2, r2)), "ctor-refused", f"{what}: two treatments", exc=ValueError)
    if o["model"] in ("IRM", "APO", "PLR", "DID", "PQ", "CVAR"):
        d2 = df.copy()
        d2["zz"] = np.arange(len(df)) % 2
        mon.raises(lambda: mk(d=zoo.make_data(s, d2, {**roles, "z_cols": ["zz"]})), "ctor-refused", f"{what}: instrument", exc=ValueError)
    if o["model"] in ("DIDCS", "IIVM", "LPQ"):  # binary time or instrument
        col, word = (roles["t_col"], "time") if o["model"] == "DIDCS" else (roles["z_cols"][0], "instrument")
        for why, v in (("three values", np.arange(len(df)) % 3), ("not 0/1", df[col] + 1), ("half steps", df[col] / 2)):
            mon.raises(lambda: mk(d=zoo.make_data(s, df.assign(**{col: v}), roles)), "ctor-refused", f"{what}: {word} with {why}", exc=ValueError)
    if o["model"] in ("IIVM", "LPQ", "PLIV") or (o["model"] == "SSM" and s["score"] == "nonignorable"):
        mon.raises(lambda: mk(d=zoo.make_data(s, df, {**roles, "z_cols": None})), "ctor-refused", f"{what}: no instrument", exc=ValueError)
    if o["model"] in ("IIVM", "LPQ"):
        mon.raises(lambda: mk(d=zoo.make_data(s, df.assign(zz=np.arange(len(df)) % 2), {**roles, "z_cols": roles["z_cols"] + ["zz"]})), "ctor-refused", f"{what}: two instruments", exc=ValueError)
    if o["model"] == "DIDCS":
        mon.raises(lambda: mk(d=zoo.make_data(s, df.assign(zz=np.arange(len(df)) % 2), {**roles, "z_cols": ["zz"]})), "ctor-refused", f"{what}: instrument", exc=ValueError)
    r = diff(keep, public(mk()))
    mon.check(r is None or "smpls" in r, "ctor-state", f"{what}: a new object differs after refused constructions: {r}")


# ------------------------------------------------------------------ utilities
class Bare:
    """an object that has only the given methods of a learner"""

    def __init__(self, names):
        self._names = names

    def __getattr__(self, a):
        if a != "_names" and a in self.__dict__.get("_names", ()):
            return lambda *args, **kw: {} if a == "get_params" else self
        raise AttributeError(a)


class Labels(RegressorMixin, BaseEstimator):
    def fit(self, X, y):
        self.cut_ = float(np.median(np.asarray(X)[:, 0]))
        return self

    def predict(self, X):
        return (np.asarray(X)[:, 0] > self.cut_) * 1.0


def utilities(o, mon):
    rng = np.random.default_rng(o["sub"])
    n = int(rng.integers(30, 80))
    A = rng.normal(size=(n, 3))
    y = A[:, 0] + rng.normal(size=n)
    b = (y > np.median(y)) * 1
    X = pd.DataFrame(A, columns=["a", "b", "c"])

    def refuse(fn, what, exc=(TypeError, ValueError)):
        mon.raises(fn, "invalid-refused", what, exc=exc)

    # dummy learners refuse every use, also inside a model
    for cls, nm in ((DMLDummyRegressor, ("fit", "predict", "set_params")), (DMLDummyClassifier, ("fit", "predict", "set_params", "predict_proba"))):
        for a in nm:
            refuse(lambda: getattr(cls(), a)(), f"{cls.__name__}.{a}", AttributeError)
            refuse(lambda: getattr(cls(), a)(A, b), f"{cls.__name__}.{a} with data", (AttributeError, TypeError))
        mon.check(is_classifier(cls()) == (cls is DMLDummyClassifier) and is_regressor(cls()) == (cls is DMLDummyRegressor), "dummy-kind", f"{cls.__name__}: kind of learner")
    data = dml.DoubleMLData.from_arrays(A, y, b)
    for lr in ((DMLDummyRegressor(), DMLDummyClassifier()), (spy.SpyReg(record=False), DMLDummyClassifier()), (DMLDummyRegressor(), spy.SpyClf(record=False))):
        for cls in (dml.DoubleMLIRM, dml.DoubleMLPLR):
            m = cls(data, *lr, n_folds=2)
            refuse(lambda: m.fit(), f"{cls.__name__} fitted with a dummy learner", AttributeError)
            mon.check(m.coef is None or np.all(np.isnan(m.coef)), "no-results", f"{cls.__name__}: coefficient {m.coef} from a dummy learner")
    # policy trees and best linear predictors
    sig = y * 1.0
    for what, fn in (("signal list", lambda: DoubleMLPolicyTree(list(sig), X)), ("signal 2d", lambda: DoubleMLPolicyTree(sig.reshape(-1, 1), X)), ("features array", lambda: DoubleMLPolicyTree(sig, A)), ("features names", lambda: DoubleMLPolicyTree(sig, X.set_axis(["a", "a", "b"], axis=1)))):
        refuse(fn, "policy tree " + what)
    t = DoubleMLPolicyTree(sig, X, depth=2)
    refuse(lambda: t.predict(X), "policy tree predicts before it is fitted", Exception)
    t.fit()
    for what, fn in (("array", lambda: t.predict(A)), ("missing column", lambda: t.predict(X[["a", "b"]])), ("other column", lambda: t.predict(X.rename(columns={"a": "z"})))):
        refuse(fn, "policy tree predict " + what, (TypeError, KeyError, ValueError))
    mon.check(t.orth_signal is sig or np.array_equal(t.orth_signal, sig), "utils-state", "policy tree signal")
    mon.check(t.features.equals(X), "utils-state", "policy tree features")
    for what, fn in (("signal list", lambda: DoubleMLBLP(list(sig), X)), ("signal 2d", lambda: DoubleMLBLP(sig.reshape(-1, 1), X)), ("basis array", lambda: DoubleMLBLP(sig, A)), ("basis names", lambda: DoubleMLBLP(sig, X.set_axis(["a", "a", "b"], axis=1)))):
        refuse(fn, "blp " + what)
    q = DoubleMLBLP(sig, X)
    refuse(lambda: q.confint(), "blp interval before the fit", ValueError)
    q.fit()
    for what, fn in (("joint", lambda: q.confint(joint=1)), ("level", lambda: q.confint(level=1.0)), ("level type", lambda: q.confint(level="a")), ("level int", lambda: q.confint(level=1)), ("boot", lambda: q.confint(n_rep_boot=0)), ("boot type", lambda: q.confint(n_rep_boot=2.5)),
                     ("basis array", lambda: q.confint(basis=A)), ("basis columns", lambda: q.confint(basis=X[["a", "b"]])), ("basis order", lambda: q.confint(basis=X[["b", "a", "c"]]))):
        refuse(fn, "blp interval " + what, (TypeError, ValueError, AttributeError))
    # gain statistics
    pl = dml.DoubleMLPLR(data, spy.SpyReg(record=False), spy.SpyReg(record=False), n_folds=2).fit()
    sh = dml.DoubleMLPLR(dml.DoubleMLData.from_arrays(A[:, :2], y, b), spy.SpyReg(record=False), spy.SpyReg(record=False), n_folds=2).fit()
    r2 = dml.DoubleMLPLR(data, spy.SpyReg(record=False), spy.SpyReg(record=False), n_folds=2, n_rep=2).fit()
    g = gain_statistics(pl, sh)
    mon.check(set(g) == {"cf_y", "cf_d", "rho", "delta_theta"} and all(np.shape(v) == (1,) for v in g.values()), "utils-state", f"gain statistics {g}")
    cv = dml.DoubleMLCVAR(data, spy.SpyReg(record=False), spy.SpyClf(record=False), treatment=1, quantile=0.5, n_folds=2).fit()
    for what, a, c in (("repetitions", pl, r2), ("repetitions", r2, pl), ("no elements", pl, cv), ("no elements", cv, pl), ("unfitted", pl, dml.DoubleMLPLR(data, spy.SpyReg(record=False), spy.SpyReg(record=False))), ("type", pl, 1)):
        refuse(lambda: gain_statistics(a, c), "gain statistics " + what, (TypeError, ValueError, AttributeError))
    mon.sig("utilities", o["sub"] % 4)
