"""C12 results do not depend on the execution mode: the same configuration run under several modes and compared."""
import copy
import pickle

import joblib
import numpy as np
from sklearn.linear_model import LinearRegression, LogisticRegression

from vlib import fitted, spy, zoo
from vlib.core import Skip
from vlib.ops import quiet
from vlib.oracle import f64
from vlib.trace import TraceIndex, keys_of, nuisance

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 1300
RULE = ("random configurations of every model class and of the composites, each executed sequentially and under several modes (parallel folds with injected uneven delays, stored models, predictions not stored, refits, "
        "fits of other models sharing learners and data in between, pickled copies, other global random states, repetitions alone, treatments alone); distinct = (model, options, mode)")
FLOORS = {"ev:same:jobs": 200, "ev:same:store_models": 200, "ev:same:no_store": 200, "ev:same:refit": 200, "ev:same:rep_alone": 200, "ev:same:treat_alone": 60, "ev:same:between": 200, "ev:same:pickle": 100,
          "ev:same:seed": 200, "ev:stored-model": 300, "ev:same:composite": 150}
MODES = ["jobs", "store_models", "no_store", "refit", "rep_alone", "treat_alone", "between", "pickle", "seed", "models_jobs"]


# a rare treatment level whose binary outcome has one class only in a training fold
SINGLE_CLASS = {'kind': 'model', 's': {'model': 'APO', 'seed': 540985825, 'n_obs': 178, 'n_x': 3, 'n_folds': 2, 'n_rep': 2, 'uid_pos': 1, 'cluster': 0, 'callable': False, 'n_treat': 1, 'index': 'str', 'int_dtype': False, 'trimming_threshold': 0.01, 'slope': 2.5, 'levels': 4, 'level': 0, 'normalize_ipw': True, 'binary_y': True, 'g_clf': True, 'weights': 'dict', 'score': 'APO', 'split': 'user_drop'}, 'modes': ['no_store', 'rep_alone', 'treat_alone']}


def pinned():
    for m in ("PLR", "IRM"):
        rng = np.random.default_rng(5)
        s = fitted.draw(rng, model=m, splits=False, allow_cluster=False, allow_callable=False)
        yield dict(kind="model", s=s, modes=["loky"])
    yield SINGLE_CLASS


def gen(rng, tier):
    while True:
        if rng.random() < 0.86:
            s = fitted.draw(rng, small=True)
            if s["split"] == "nosplit":
                s["split"] = "drawn"
            if s["model"] == "LPQ" and rng.random() < 0.5:
                s = fitted.draw(rng, model="PQ", small=True)
                if s["split"] == "nosplit":
                    s["split"] = "drawn"
            modes = [str(x) for x in rng.choice(MODES, size=3, replace=False)]
            if s["n_treat"] > 1 and rng.random() < 0.7:
                modes[0] = "treat_alone"
            if s["n_rep"] > 1 and rng.random() < 0.6:
                modes[1] = "rep_alone"
            yield dict(kind="model", s=s, modes=sorted(set(modes)))
        else:
            s = zoo.draw_spec(rng, model=str(rng.choice(["APO", "IRM"])), small=True, allow_cluster=False, allow_callable=False)
            s["binary_y"] = s["g_clf"] = False  # (a training fold of a rare level could hold a single class)
            if s["model"] == "IRM":
                s["weights"] = None
            yield dict(kind="composite", s=s, score=str(rng.choice(["PQ", "CVaR"])), jobs=int(rng.integers(2, 5)))


def res(m, preds=True):
    out = {a: f64(getattr(m, a)).copy() for a in ("coef", "se", "all_coef", "all_se", "psi", "psi_deriv")}
    for k, v in m.psi_elements.items():
        out["el." + k] = f64(v).copy()
    fw = m.framework
    for a in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi", "var_scaling_factors"):
        out["fw." + a] = f64(getattr(fw, a)).copy()
    if m.sensitivity_elements is not None:
        for k, v in m.sensitivity_elements.items():
            if v is not None:
                out["sens." + k] = f64(v).copy()
    if m.nuisance_loss is not None:
        for k, v in m.nuisance_loss.items():
            out["loss." + k] = f64(v).copy()
    if preds and m.predictions is not None:
        for k, v in m.predictions.items():
            out["pred." + k] = f64(v).copy()
        for k, v in m.nuisance_targets.items():
            out["target." + k] = f64(v).copy()
    return out


def compare(mon, mode, a, b, what, rtol=1e-9, atol=1e-10):
    for k in a:
        if k not in b:
            if not k.startswith(("pred.", "target.")):
                mon.fail("same:" + mode, f"{what}: {k} is missing")
            continue
        mon.close(b[k], a[k], "same:" + mode, f"{what}: {k}", rtol=rtol, atol=atol)


def same_splits(s, src, dst, r=None):
    sm = src.smpls if r is None else [src.smpls[r]]
    if s["cluster"]:
        cl = src.smpls_cluster if r is None else [src.smpls_cluster[r]]
        dst.set_sample_splitting(sm, all_smpls_cluster=cl)
    else:
        dst.set_sample_splitting(sm)
    return dst


def slice_rep(a, r, n_rep):
    """the part of a result that belongs to repetition r"""
    out = {}
    for k, v in a.items():
        if k in ("coef", "se", "fw.thetas", "fw.ses"):
            continue
        if k in ("all_coef", "all_se", "fw.all_thetas", "fw.all_ses"):
            out[k] = v[:, [r]]
        elif k == "fw.scaled_psi":
            out[k] = v[:, :, [r]]
        elif k.startswith("loss."):
            out[k] = v[[r], :]
        elif k.startswith(("psi", "el.", "pred.", "target.", "sens.")):
            out[k] = v[:, [r], :]
    return out


def slice_treat(a, k0):
    out = {}
    for k, v in a.items():
        if k in ("coef", "se", "fw.thetas", "fw.ses", "fw.var_scaling_factors"):
            out[k] = v[[k0]]
        elif k in ("all_coef", "all_se", "fw.all_thetas", "fw.all_ses"):
            out[k] = v[[k0], :]
        elif k == "fw.scaled_psi":
            out[k] = v[:, [k0], :]
        elif k.startswith("loss."):
            out[k] = v[:, [k0]]
        else:
            out[k] = v[:, :, [k0]]
    return out


def run(spec, mon):
    if spec["kind"] == "composite":
        return composite(spec, mon)
    s = spec["s"]
    try:
        c = quiet(lambda: fitted.fit(s, record=False, do_fit=False))
    except ValueError as e:
        if "strat" in str(e) or "n_splits" in str(e):
            raise Skip("degenerate strata")
        raise
    m0 = c.model
    quiet(m0.fit)
    base = res(m0)
    what = s["model"]

    def fresh(data=None, learners=None, r=None, weights=c.weights, **over):
        kw = dict(n_rep=1) if r is not None else {}
        kw.update(over)
        L = learners or zoo.make_learners(s, record=False)
        m = zoo.build_model(s, data or zoo.make_data(s, c.df, c.roles), L, weights, **kw)
        return same_splits(s, m0, m, r)

    for mode in spec["modes"]:
        if mode == "jobs" or mode == "models_jobs":
            m = fresh()
            spy.FAULTS.delay = 0.004
            with joblib.parallel_backend("threading"):
                quiet(lambda: m.fit(n_jobs_cv=2 + s["seed"] % 3, store_models=mode == "models_jobs"))
            spy.FAULTS.delay = 0.0
            compare(mon, "jobs", base, res(m), f"{what} with parallel folds")
        elif mode == "loky":
            L = {k: (LogisticRegression() if isinstance(v, spy.SpyClf) else LinearRegression()) for k, v in c.learners.items()}
            a, b = fresh(learners=L), fresh(learners=L)
            quiet(a.fit)
            quiet(lambda: b.fit(n_jobs_cv=2))
            compare(mon, "jobs", res(a), res(b), f"{what} with worker processes")
            from joblib.externals.loky import get_reusable_executor

            get_reusable_executor().shutdown(wait=True)
        elif mode == "store_models":
            m = fresh(learners=zoo.make_learners(s, record=True))
            spy.TRACE.clear()
            quiet(lambda: m.fit(store_models=True))
            compare(mon, mode, base, res(m), f"{what} with stored models")
            stored(mon, s, c, m)
        elif mode == "no_store":
            m = fresh()
            quiet(lambda: m.fit(store_predictions=False, store_models=bool(s["seed"] % 2)))
            mon.check(m.predictions is None and m.nuisance_targets is None, "nothing-stored", f"{what}: predictions stored although not requested")
            compare(mon, mode, base, res(m), f"{what} without stored predictions")
        elif mode == "refit":
            quiet(m0.fit)
            compare(mon, mode, base, res(m0), f"{what} fitted again")
            m = fresh()
            quiet(m.fit)
            quiet(lambda: m.fit(store_models=True))
            quiet(m.fit)
            compare(mon, mode, base, res(m), f"{what} fitted three times")
            mon.check(m.models is None, "nothing-stored", f"{what}: models of an earlier fit are still stored")
        elif mode == "between":
            # another model sharing data backend and learners is built and fitted in between
            data, L = zoo.make_data(s, c.df, c.roles), zoo.make_learners(s, record=False)
            m = fresh(data, L)
            other = zoo.build_model(s, data, L, c.weights)
            quiet(other.fit)
            quiet(m.fit)
            compare(mon, mode, base, res(m), f"{what} after another model with the same data and learners was fitted")
            quiet(other.fit)
            compare(mon, mode, base, res(m), f"{what} while another model with the same data and learners is fitted")
        elif mode == "pickle":
            m = fresh()
            if callable(m.score) or s["model"] in zoo.NONLIN:
                m = copy.deepcopy(m)
            else:
                m = pickle.loads(pickle.dumps(m))
            quiet(m.fit)
            compare(mon, mode, base, res(m), f"{what} copied before fitting")
            mm = copy.deepcopy(m)
            compare(mon, mode, base, res(mm), f"{what} copied after fitting")
        elif mode == "seed":
            m = fresh()
            np.random.seed((s["seed"] * 31 + 7) % 2**31)
            quiet(m.fit)
            compare(mon, mode, base, res(m), f"{what} under another global random state")
        elif mode == "rep_alone":
            r = s["seed"] % s["n_rep"]
            w = c.weights
            if isinstance(w, dict):
                w = dict(weights=w["weights"], weights_bar=w["weights_bar"][:, [r]])
            m = fresh(r=r, weights=w)
            quiet(m.fit)
            part = slice_rep(base, r, s["n_rep"])
            if "sens.nu2" in part and np.allclose(np.mean(base["sens.riesz_rep"] ** 2, axis=0), base["sens.nu2"][0]):
                # re-estimated (documented warning) in all repetitions because of a non-positive estimate in one of them
                part = {k: v for k, v in part.items() if "nu2" not in k}
            compare(mon, mode, part, res(m), f"{what}: repetition {r} alone")
        elif mode == "treat_alone":
            if s["n_treat"] == 1:
                continue
            k0 = s["seed"] % s["n_treat"]
            d = c.roles["d_cols"][k0]
            roles = dict(c.roles, d_cols=[d])
            if s.get("other_treat_cov"):
                roles["x_cols"] = list(c.roles["x_cols"]) + [q for q in c.roles["d_cols"] if q != d]
            m = fresh(data=zoo.make_data(dict(s, n_treat=1), c.df, roles))
            quiet(m.fit)
            compare(mon, mode, slice_treat(base, k0), res(m), f"{what}: treatment {d} alone", rtol=1e-7, atol=1e-8)
        mon.sig(what, s.get("score"), s.get("kind"), s["callable"], s["cluster"], s["n_rep"], s["n_treat"], mode)


def stored(mon, s, c, m):
    """the stored model of a nuisance, treatment, repetition and fold is the one that produced the stored predictions"""
    T = TraceIndex(list(spy.TRACE.events))
    thr = s.get("trimming_threshold")
    for key in keys_of(s, c.roles):
        for k, d in enumerate(c.roles["d_cols"]):
            info = nuisance(s, c.df, c.roles, key, k)
            P = f64(m.predictions[key][:, :, k])
            for r in range(s["n_rep"]):
                mods = m.models[key][d][r]
                if info["const"] or mods is None:
                    mon.count("no-model")
                    continue
                mon.check(len(mods) == len(m.smpls[r]), "stored-model", f"{s['model']} {key}: {len(mods)} models for {len(m.smpls[r])} folds")
                for f, (_, te) in enumerate(m.smpls[r]):
                    ids = {e["fit_id"] for e in T.candidates(te, P[te, r], thr if info["trimmed"] else None)}
                    mon.check(mods[f].fit_id_ in ids, "stored-model", f"{s['model']} {key}: the stored model of treatment {d} rep {r} fold {f} did not produce the stored predictions")


def composite(spec, mon):
    s = spec["s"]
    df, roles = zoo.make_frame(s)

    def make():
        data = zoo.make_data(s, df, roles)
        np.random.seed(s["seed"] % 2**31)
        if s["model"] == "APO":
            return dml.DoubleMLAPOS(data, **zoo.make_learners(s, record=False), treatment_levels=list(range(s["levels"])), n_folds=s["n_folds"], n_rep=s["n_rep"],
                                    weights=zoo.make_weights(s), normalize_ipw=s["normalize_ipw"])
        g = spy.SpyClf(alpha=1.0, record=False) if spec["score"] == "PQ" else spy.SpyReg(alpha=1.0, record=False)
        return dml.DoubleMLQTE(data, g, spy.SpyClf(alpha=2.0, record=False), quantiles=[0.35, 0.5, 0.65], score=spec["score"], n_folds=2, n_rep=s["n_rep"])

    def cres(m):
        fw = m.framework
        out = {a: f64(getattr(fw, a)).copy() for a in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi")}
        out["coef"], out["se"] = f64(m.coef).copy(), f64(m.se).copy()
        return out

    a = make()
    quiet(a.fit)
    base = cres(a)
    spy.FAULTS.delay = 0.003
    with joblib.parallel_backend("threading"):
        b = make()
        quiet(lambda: b.fit(n_jobs_models=spec["jobs"]))
        compare(mon, "composite", base, cres(b), f"{type(b).__name__} with parallel models")
        b = make()
        quiet(lambda: b.fit(n_jobs_cv=spec["jobs"], store_models=True))
        compare(mon, "composite", base, cres(b), f"{type(b).__name__} with parallel folds")
    spy.FAULTS.delay = 0.0
    b = make()
    quiet(lambda: b.fit(store_predictions=False))
    compare(mon, "composite", base, cres(b), f"{type(b).__name__} without stored predictions")
    quiet(a.fit)
    compare(mon, "composite", base, cres(a), f"{type(a).__name__} fitted again")
    mon.sig("composite", type(a).__name__, s.get("levels"), spec["score"], s["n_rep"])
