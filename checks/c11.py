"""C11 user-supplied objects are never modified: deep snapshots of every argument around random sequences of public operations."""
import copy

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression

from vlib import fitted, ops, zoo
from vlib.ops import Watch, basis_frame, diff, grids, group_frame, own_predictions, quiet, snap, x_no_uid
from vlib.splits import user_splits

import doubleml as dml
from doubleml.utils import DoubleMLBLP, DoubleMLPolicyTree

LEVEL = "exploration"
N_QUICK = 700
RULE = ("all model classes, composites and RD models: random sequences of public operations (fit modes, splitting, tuning, parameters, external predictions, bootstrap, inference, sensitivity, benchmarks, "
        "group/conditional effects, trees); after each operation every user-supplied object and every result array handed out before is compared with its deep snapshot; distinct = (class, operations)")
FLOORS = {"ev:unchanged:df": 2500, "ev:unchanged:learner": 2500, "ev:unchanged:data": 2000, "ev:unchanged:weights": 150, "ev:unchanged:splits": 200, "ev:unchanged:ext": 120, "ev:unchanged:grid": 250,
          "ev:unchanged:scoring": 100, "ev:unchanged:params": 150, "ev:unchanged:result": 1500, "ev:unchanged:basis": 150, "ev:unchanged:groups": 25, "ev:unchanged:bench": 80}
OPS = ["fit", "fit_jobs", "fit_models", "boot", "confint", "padjust", "summary", "sens", "sens_plot", "bench", "tune", "tune_folds", "params", "splits", "redraw", "ext", "evaluate", "gate", "cate", "tree", "fw"]


def gen(rng, tier):
    while True:
        r = rng.random()
        steps = [str(x) for x in rng.choice(OPS, size=int(rng.integers(3, 8)))]
        if r < 0.74:
            s = fitted.draw(rng, splits=False, small=True)
            if s["model"] in ("PLR", "IRM", "APO") and set(steps) & {"gate", "cate", "tree"}:
                s["n_rep"] = 1
                if s["model"] == "IRM":
                    s["score"] = "ATE"
            yield dict(kind="model", s=s, steps=steps, seed=int(rng.integers(2**31)))
        elif r < 0.9:
            s = zoo.draw_spec(rng, model="APO" if rng.random() < 0.6 else "IRM", small=True, allow_cluster=False, allow_callable=False, max_rep=2)
            if s["model"] == "IRM":
                s["weights"] = None
                s["binary_y"] = s["g_clf"] = False
            yield dict(kind="APOS" if s["model"] == "APO" else "QTE", s=s, steps=steps, seed=int(rng.integers(2**31)), score=str(rng.choice(["PQ", "CVaR", "LPQ"])))
        else:
            yield dict(kind="RD", seed=int(rng.integers(2**31)), fuzzy=bool(rng.random() < 0.5), steps=steps)


def handed_out(model):
    out = {}
    for a in ops.RESULT_ATTRS:
        v = getattr(model, a, None)
        if isinstance(v, np.ndarray):
            out[a] = v
    fw = getattr(model, "framework", None)
    if fw is not None:
        for a in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi"):
            out["fw." + a] = getattr(fw, a)
        if fw.sensitivity_elements is not None:
            for k, v in fw.sensitivity_elements.items():
                out["fw.sens." + k] = v
    p = getattr(model, "predictions", None)
    if p:
        for k, v in p.items():
            out["pred." + k] = v
    t = getattr(model, "nuisance_targets", None)
    if t:
        for k, v in t.items():
            out["target." + k] = v
    return out


def run(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    W = Watch(mon)
    if spec["kind"] == "RD":
        return run_rd(spec, mon, rng, W)
    s = spec["s"]
    comp = spec["kind"] in ("APOS", "QTE")
    df, roles = zoo.make_frame(s)
    if spec["kind"] == "QTE" and spec["score"] == "LPQ":
        df["z"] = ((df["d"] + (np.random.default_rng(s["seed"]).random(len(df)) < 0.25)) % 2).astype(float)
        roles = dict(roles, z_cols=["z"])
    W.add("df", df)
    data = W.add("data", zoo.make_data(s, df, roles))
    learners = zoo.make_learners(s, record=False)
    if spec["kind"] == "QTE":
        learners = dict(ml_g=LinearRegression() if spec["score"] == "CVaR" else LogisticRegression(), ml_m=LogisticRegression())
    for k, v in learners.items():
        W.add("learner:" + k, v)
    weights = W.add("weights", zoo.make_weights(s))
    np.random.seed(s["seed"] % 2**31)
    if spec["kind"] == "APOS":
        lv = W.add("levels", list(range(s["levels"]))[: int(rng.integers(2, 4))])
        model = dml.DoubleMLAPOS(data, **learners, treatment_levels=lv, n_folds=s["n_folds"], n_rep=s["n_rep"], weights=weights)
    elif spec["kind"] == "QTE":
        q = W.add("quantiles", np.array([0.3, 0.6]) if rng.random() < 0.5 else [0.4, 0.5])
        model = dml.DoubleMLQTE(data, **learners, quantiles=q, score=spec["score"], n_folds=2, n_rep=s["n_rep"])
    else:
        over = {}
        if s["model"] == "IIVM":
            over["subgroups"] = W.add("subgroups", dict(always_takers=s["always"], never_takers=s["never"]))
        model = zoo.build_model(s, data, learners, weights, **over)
    key = spec["kind"] if comp else s["model"]
    W.verify("construction")
    results = {}

    def keep():
        for k, v in handed_out(model).items():
            results[k] = (v, v.copy())

    try:
        quiet(lambda: model.fit(**({} if comp and rng.random() < 0.7 else {})))
    except Exception as e:
        if spec["kind"] == "QTE":
            mon.count("fit-failed")
            W.verify("failed fit")
            return
        raise e
    W.verify("fit")
    keep()
    mon.sig(key, "-".join(spec["steps"]))
    for st in spec["steps"]:
        done = True
        try:
            done = quiet(lambda: step(st, spec, s, model, df, roles, data, W, rng, mon))
        except NotImplementedError:
            mon.count("not-implemented:" + st)
        except ValueError as e:
            # refused (e.g. callable scores, degenerate draws): inputs must be intact all the same
            mon.count("refused:" + st)
        if done is None or done is True:
            mon.count("op:" + st)
        W.verify(st)
        for k, (ref, cp) in results.items():
            mon.check(np.array_equal(ref, cp, equal_nan=True), "unchanged:result", f"after {st}: {k} handed out earlier was changed")
        keep()


def step(st, spec, s, model, df, roles, data, W, rng, mon):
    comp = spec["kind"] in ("APOS", "QTE")
    if st == "fit":
        model.fit()
    elif st == "fit_jobs":
        from joblib import parallel_config

        with parallel_config(backend="threading"):
            model.fit(n_jobs_cv=2)
    elif st == "fit_models":
        model.fit(store_models=True, store_predictions=bool(rng.random() < 0.5))
        model.fit()
    elif st == "boot":
        model.bootstrap(method=str(rng.choice(["normal", "Bayes", "wild"])), n_rep_boot=20)
    elif st == "confint":
        model.bootstrap(n_rep_boot=20)
        model.confint(joint=bool(rng.random() < 0.5), level=float(rng.uniform(0.5, 0.99)))
    elif st == "padjust":
        if spec["kind"] == "APOS":
            return False
        model.bootstrap(n_rep_boot=20)
        model.p_adjust()
    elif st == "summary":
        if comp and model.coef is None:  # a refit on the new splitting was refused
            return False
        str(model) if not comp else None
        model.summary
        model.t_stat
        model.pval
    elif st in ("sens", "sens_plot", "bench"):
        if spec["kind"] == "QTE" or (not comp and s["model"] not in zoo.SENS_OK) or s.get("callable"):
            return False
        if st == "bench":
            b = W.add("bench", [str(x_no_uid(roles)[0])])
            fa = W.add("bench:args", dict(n_jobs_cv=1))
            model.sensitivity_benchmark(b, fit_args=fa if rng.random() < 0.5 else None)
            return True
        model.sensitivity_analysis(cf_y=0.1, cf_d=0.05, rho=0.7, level=0.9, null_hypothesis=0.1)
        model.sensitivity_summary
        if st == "sens_plot":
            b = W.add("bench:plot", {"cf_y": [0.05, 0.1], "cf_d": [0.05, 0.02], "name": ["a", "b"]})
            model.sensitivity_plot(grid_size=10, benchmarks=b)
    elif st in ("tune", "tune_folds"):
        if comp:
            return False
        g = W.add("grid", grids(model, rng))
        sc = None
        if rng.random() < 0.5:
            name = str(rng.choice(model.learner_names))
            sc = W.add("scoring", {name: None} if rng.random() < 0.5 else {})
        old = model.params
        mode = str(rng.choice(["grid_search", "randomized_search"]))
        model.tune(g, tune_on_folds=st == "tune_folds", scoring_methods=sc, n_folds_tune=2, search_mode=mode, n_iter_randomized_search=2, return_tune_res=bool(rng.random() < 0.5))
        assert old is not None
    elif st == "params":
        if comp:
            return False
        key = str(rng.choice(model.params_names))
        if s["model"] in ("IIVM",) and key in ("ml_r0", "ml_r1"):
            key = "ml_m"
        d = str(rng.choice(roles["d_cols"]))
        p = {"alpha": float(rng.choice([0.3, 3.0]))}
        if rng.random() < 0.5:
            p = [[dict(p) for _ in range(model.n_folds)] for _ in range(model.n_rep)]
        p = W.add("params", p)
        model.set_ml_nuisance_params(key, d, p)
        model.fit()
    elif st == "splits":
        if s["cluster"]:
            C = [df[x].values for x in roles["cluster_cols"]]
            g, cl = fitted.cluster_splits(rng, C, s["n_rep"], s["n_folds"])
            model.set_sample_splitting(W.add("splits", g), all_smpls_cluster=W.add("splits:cluster", cl))
        else:
            g = user_splits(rng, fitted.strata_of(df), s["n_rep"], 2, kind=str(rng.choice(["list", "array"])))
            model.set_sample_splitting(W.add("splits", g))
        model.fit()
    elif st == "redraw":
        model.draw_sample_splitting()
        model.fit()
    elif st == "ext":
        if spec["kind"] == "QTE" or (not comp and (s["model"] not in zoo.EXT_OK or (s["model"] == "PLIV" and s["kind"] != "std"))):
            return False
        model.fit()
        if comp:
            e = {}
            for lv, mm in zip(model.treatment_levels, model.modellist):
                p = {k: v[:, :, 0].copy() for k, v in mm.predictions.items()}
                if lv != model.treatment_levels[0] or True:
                    e[lv] = {"ml_g_d_lvl0": p["ml_g_d_lvl0"], "ml_g_d_lvl1": p["ml_g_d_lvl1"], "ml_m": p["ml_m"]}
        else:
            e = own_predictions(model, roles)
            if s["model"] in ("PLR", "IRM", "APO", "DID", "DIDCS"):
                names = list(model.params_names)
                for d in e:
                    e[d].pop(str(rng.choice(names)))
        model.fit(external_predictions=W.add("ext", e))
    elif st == "evaluate":
        if comp:
            return False
        ln = W.add("evaluate", list(model.params_names)[:1])
        model.evaluate_learners(ln, metric=lambda y_true, y_pred: float(np.nanmean(np.nan_to_num(y_true - y_pred))))
    elif st in ("gate", "cate", "tree"):
        if comp or s["model"] not in ("IRM", "APO", "PLR") or s["n_treat"] > 1 or s.get("callable"):
            # the utilities take user arrays directly
            sig = W.add("basis:signal", rng.normal(size=len(df)))
            if st == "tree":
                F = W.add("basis:features", df[x_no_uid(roles)].copy())
                t = DoubleMLPolicyTree(sig, F, depth=2).fit()
                t.predict(F.iloc[:20])
            else:
                B = W.add("basis", basis_frame(rng, df))
                m = DoubleMLBLP(sig, B).fit()
                m.confint(W.add("basis:new", B.iloc[:7] * 1.5), joint=bool(rng.random() < 0.5), n_rep_boot=20)
                m.summary
            return True
        if st == "tree":
            if s["model"] != "IRM":
                return False
            F = W.add("basis:features", df[x_no_uid(roles)].copy())
            model.policy_tree(F, depth=1).predict(F)
        elif st == "gate":
            g = W.add("groups", group_frame(rng, df, str(rng.choice(["str", "bool"]))))
            m = model.gapo(g) if s["model"] == "APO" else model.gate(g)
            m.confint(joint=True, n_rep_boot=20)
        else:
            B = W.add("basis", basis_frame(rng, df))
            m = model.capo(B) if s["model"] == "APO" else model.cate(B)
            m.confint(B)
    elif st == "fw":
        f = model.framework if spec["kind"] == "APOS" else model.construct_framework() if not comp else model.framework
        g = f + f
        h = 2.0 * (g - f)
        h.bootstrap(n_rep_boot=10)
        h.confint(joint=True)
        dml.concat([f, h])
    return True


def run_rd(spec, mon, rng, W):
    n = int(rng.integers(250, 400))
    x = rng.normal(size=(n, 2))
    sc = rng.normal(size=n)
    z = (sc >= 0).astype(float)
    d = np.where(rng.random(n) < 0.9, z, 1 - z) if spec["fuzzy"] else z
    y = d + 0.5 * sc + x[:, 0] + rng.normal(size=n)
    df = W.add("df", pd.DataFrame(dict(y=y, d=d, s=sc, x0=x[:, 0], x1=x[:, 1])))
    data = W.add("data", dml.DoubleMLData(df, "y", "d", x_cols=["x0", "x1"], s_col="s"))
    g = W.add("learner:ml_g", LinearRegression())
    m = W.add("learner:ml_m", LogisticRegression()) if spec["fuzzy"] else None
    kw = W.add("kwargs", dict(p=1))
    from doubleml.rdd import RDFlex

    o = quiet(lambda: RDFlex(data, g, m, fuzzy=spec["fuzzy"], n_folds=2, n_rep=int(rng.integers(1, 3)), **kw))
    W.verify("RD construction")
    quiet(lambda: o.fit(n_iterations=int(rng.integers(1, 3))))
    W.verify("RD fit")
    res = {a: (getattr(o, a), np.array(getattr(o, a)).copy()) for a in ("coef", "se", "ci")}
    o.confint(level=0.9)
    str(o)
    W.verify("RD inference")
    quiet(lambda: o.fit())
    W.verify("RD refit")
    for k, (a, b) in res.items():
        mon.check(np.array_equal(a, b, equal_nan=True), "unchanged:result", f"RDFlex.{k} handed out earlier was changed")
    mon.sig("RD", spec["fuzzy"])


assert copy and diff and snap
