"""C23 learner evaluation: targets, nuisance losses and user metrics against targets rebuilt from the data frame."""
import warnings

import numpy as np

from vlib import fitted, zoo
from vlib.core import Skip
from vlib.ops import own_predictions, quiet, snap, diff
from vlib.oracle import f64
from vlib.spy import TRACE
from vlib.trace import TraceIndex, keys_of, nuisance

LEVEL = "exploration"
N_QUICK = 1100
RULE = ("random configuration of every model class, with splits, repetitions, external predictions, refits and storage options; targets of every nuisance function rebuilt from the data frame and the recorded learner calls; "
        "losses, evaluate_learners with default and recording metrics; distinct = (model, options, mode); non-trivial = every nuisance function was evaluated")
FLOORS = {"ev:targets": 2500, "ev:targets-threshold": 60, "ev:targets-preliminary": 60, "ev:loss": 2500, "ev:default-metric": 500, "ev:metric-arguments": 1500, "ev:metric-values": 1500, "ev:refused": 600,
          "ev:summary": 600}
ASSUMPTIONS = ["for the quantile-type models the thresholds of the outcome nuisance are bracketed by the recorded training labels"]


def gen(rng, tier):
    while True:
        s = fitted.draw(rng, tier, max_rep=3, small=True)
        yield dict(s=s, ext=bool(s["model"] in zoo.EXT_OK and rng.random() < 0.2), refit=bool(rng.random() < 0.25), store_models=bool(rng.random() < 0.3), unstored=bool(rng.random() < 0.2),
                   metric=str(rng.choice(["mae", "weighted", "maxerr", "pos"])), sub=int(rng.integers(2**31)))


def loss_of(clf, t, p):
    ok = ~np.isnan(t)
    t, p = t[ok], p[ok]
    if clf:
        q = np.clip(p, 1e-15, 1 - 1e-15)
        return float(-np.mean(t * np.log(q) + (1 - t) * np.log(1 - q)))
    return float(np.sqrt(np.mean((t - p) ** 2)))


def run(sp, mon):
    s = sp["s"]
    rng = np.random.default_rng(sp["sub"])
    quantile = s["model"] in ("PQ", "LPQ", "CVAR")
    TRACE.clear()
    c = fitted.fit(s, record=quantile, fit_kw=dict(store_models=sp["store_models"]))
    m = c.model
    ext = {}
    if sp["ext"]:
        own = own_predictions(m, c.roles)
        for d in own:
            ext[d] = {k: np.clip(v + rng.normal(size=v.shape) * 0.05, 0.02, 0.98) if nuisance(s, c.df, c.roles, k, 0)["trimmed"] else v + rng.normal(size=v.shape) * 0.1
                      for k, v in own[d].items() if rng.random() < 0.5 and not k.startswith("ml_g") or rng.random() < 0.3}
        if s["model"] == "LPQ" and any(ext.values()):
            ext = {d: {k: v for k, v in own[d].items()} for d in own}
        if quantile:
            # a PQ model clips and thresholds external predictions itself: keep its own ones
            ext = {d: {k: own[d][k] for k in e} for d, e in ext.items()}
        ext = {d: e for d, e in ext.items() if e}
    if ext or sp["refit"]:
        if sp["refit"] and not ext and rng.random() < 0.5 and s["split"] in ("drawn", "redraw"):
            m.draw_sample_splitting()
        TRACE.clear()
        try:
            quiet(lambda: m.fit(external_predictions=ext or None, store_models=sp["store_models"]))
        except Exception as e:
            if ext and isinstance(e, (ValueError, NotImplementedError)):
                raise Skip("external predictions refused")
            raise
    check(sp, s, mon, c, m, ext, rng, quantile)
    if sp["unstored"]:
        before = {k: v.copy() for k, v in m.nuisance_loss.items()}
        quiet(lambda: m.fit(external_predictions=ext or None, store_predictions=False))
        for k, v in before.items():
            mon.close(m.nuisance_loss[k], v, "loss-unstored", f"{s['model']} {k}: loss without stored predictions", rtol=1e-10)
        mon.raises(lambda: m.evaluate_learners(), "refused", "evaluation without stored predictions", exc=ValueError)
    mon.sig(*fitted.signature(s), bool(ext), sp["refit"], sp["unstored"], sp["metric"], s.get("g_clf"), s.get("m_clf"), s.get("level"))


def check(sp, s, mon, c, m, ext, rng, quantile):
    df, roles = c.df, c.roles
    K, R, n = len(roles["d_cols"]), s["n_rep"], len(df)
    keys = keys_of(s, roles)
    mon.check(set(keys) <= set(m.params_names), "keys", f"{s['model']}: nuisance functions {m.params_names}")
    T = TraceIndex(TRACE.events) if quantile else None
    truth = {}
    for key in m.params_names:
        tgt = m.nuisance_targets[key]
        if not mon.check(np.shape(tgt) == (n, R, K), "shape", f"{s['model']} {key}: targets of shape {np.shape(tgt)}"):
            continue
        out = np.full((n, R, K), np.nan)
        for k in range(K):
            given = key in ext.get(roles["d_cols"][k], {})
            for r in range(R):
                out[:, r, k] = target(s, mon, c, m, T, key, r, k, given, tgt[:, r, k])
        truth[key] = out
    clf = {key: is_clf(c.learners, key) for key in m.params_names}
    for key, t in truth.items():
        L = m.nuisance_loss[key]
        mon.check(L.shape == (R, K), "shape", f"{s['model']} {key}: losses of shape {L.shape}")
        for k in range(K):
            for r in range(R):
                if np.all(np.isnan(t[:, r, k])):
                    mon.check(np.isnan(L[r, k]), "loss", f"{s['model']} {key}: loss {L[r, k]} without a target")
                    continue
                p = f64(m.predictions[key][:, r, k])
                mon.close(L[r, k], loss_of(clf[key], t[:, r, k], p), "loss", f"{s['model']} {s.get('score')} {key}: loss of repetition {r}, treatment {k}", rtol=1e-9, atol=1e-12)
    txt = str(m)
    for key in m.params_names:
        lab = "Log Loss" if clf[key] else "RMSE"
        mon.check(f"Learner {key} {lab}: {m.nuisance_loss[key]}" in txt, "summary", f"{s['model']}: the printed summary has no {lab} of {key}")
    avail = [k for k in m.params_names if np.all(np.any(~np.isnan(truth[k]), axis=0))]
    evaluate(sp, s, mon, m, truth, avail, rng, n, R, K)


def is_clf(learners, key):
    nm = key if key in learners else next((a for a in learners if key.startswith(a)), None)
    return nm is not None and hasattr(learners[nm], "predict_proba")


def evaluate(sp, s, mon, m, truth, avail, rng, n, R, K):
    if not avail:
        return
    state = snap(m)
    sel = [str(k) for k in rng.permutation(avail)[: int(rng.integers(1, len(avail) + 1))]]
    arg = sel
    if len(avail) == len(m.params_names) and rng.random() < 0.4:
        sel, arg = list(m.params_names), None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = m.evaluate_learners() if arg is None else m.evaluate_learners(learners=arg)
    mon.check(list(res) == sel, "metric-keys", f"{s['model']}: evaluation of {list(res)} instead of {sel}")
    P = {k: f64(m.predictions[k]) for k in m.params_names}
    for key in sel:
        want = np.array([[loss_of(False, truth[key][:, r, k], P[key][:, r, k]) for k in range(K)] for r in range(R)])
        mon.close(res[key], want, "default-metric", f"{s['model']} {key}: evaluate_learners", rtol=1e-9, atol=1e-12)
    w = rng.uniform(0.5, 1.5, size=n)
    calls = []

    def metric(y_pred, y_true):
        calls.append((np.array(y_pred, dtype=float), np.array(y_true, dtype=float)))
        ok = ~np.isnan(y_true)
        e = (y_pred - y_true)[ok]
        return {"mae": np.mean(np.abs(e)), "weighted": np.sum((w[None, :][ok]) * e**2), "maxerr": np.max(np.abs(e)), "pos": float(len(calls)) + np.mean(e)}[sp["metric"]]

    res = m.evaluate_learners(learners=sel, metric=metric)
    mon.check(len(calls) == len(sel) * R * K, "metric-arguments", f"{s['model']}: {len(calls)} metric calls")
    used = np.zeros(len(calls), bool)
    for key in sel:
        for r in range(R):
            for k in range(K):
                a, t = P[key][:, r, k], truth[key][:, r, k]
                hit = [i for i, (p, y) in enumerate(calls) if not used[i] and p.shape == (1, n) and y.shape == (1, n) and np.array_equal(p[0], a, equal_nan=True)
                       and np.allclose(y[0], t, rtol=1e-9, atol=1e-9, equal_nan=True)]
                if not mon.check(len(hit) > 0, "metric-arguments", f"{s['model']} {key}: the metric was never called with the predictions and targets of repetition {r}, treatment {k}"):
                    continue
                vals = []
                for i in hit:
                    y = calls[i][1][0]
                    ok = ~np.isnan(y)
                    e = (a - y)[ok]
                    vals.append({"mae": np.mean(np.abs(e)), "weighted": np.sum(w[ok] * e**2), "maxerr": np.max(np.abs(e)), "pos": float(i + 1) + np.mean(e)}[sp["metric"]])
                j = int(np.argmin(np.abs(np.array(vals) - res[key][r, k])))
                used[hit[j]] = True
                mon.close(res[key][r, k], vals[j], "metric-values", f"{s['model']} {key}: value stored for repetition {r}, treatment {k}", rtol=1e-9, atol=1e-12)
    mon.raises(lambda: m.evaluate_learners(learners=sel, metric=lambda y_pred, y_true: np.inf), "refused", "a metric that is not finite", exc=ValueError)
    mon.raises(lambda: m.evaluate_learners(learners=sel + ["ml_other"]), "refused", "an unknown learner", exc=ValueError)
    mon.raises(lambda: m.evaluate_learners(learners=sel, metric="rmse"), "refused", "a metric that cannot be called", exc=TypeError)
    mon.check(diff(state, snap(m)) is None or not diff(state, snap(m)), "pure", f"{s['model']}: evaluation changed the model {diff(state, snap(m))}")


def target(s, mon, c, m, T, key, r, k, given, got):
    """the true target vector (nan where it is not defined); reports a difference to the stored one"""
    df, roles = c.df, c.roles
    n = len(df)
    what = f"{s['model']} {s.get('score')} {s.get('kind', '')} {key}"
    y, d = f64(df[roles["y_col"]]), f64(df[roles["d_cols"][k]])
    none = np.full(n, np.nan)
    if np.all(np.isnan(got)) and (given or key not in keys_of(s, roles) or np.all(np.isnan(m.predictions[key][:, r, k]))):
        return none  # not available
    if s["model"] == "PLIV" and s["kind"] == "partialXZ" and key == "ml_r":
        # one target per training fold: not available
        mon.check(np.all(np.isnan(got)), "targets", f"{what}: targets of a fold-specific nuisance function")
        return none
    info = nuisance(s, df, roles, key, k) if key in keys_of(s, roles) else None
    want = None
    mech = "targets"
    if info is not None and info["target"] is not None:
        want = np.where(info["mask"], info["target"], np.nan)
        if info["const"] and given and np.all(got == float(key[-1])):
            return got  # supplied predictions of a nuisance function that is constant by assumption are ignored
        if info["const"]:
            mon.check(np.array_equal(np.isnan(got), np.isnan(want)), mech, f"{what}: observations with a target")
            const = np.where(info["mask"], float(key[-1]), np.nan)
            if np.allclose(got, const, equal_nan=True):
                return const
    elif s["model"] in ("PLR", "PLIV") and key == "ml_g":
        mech = "targets-preliminary"
        l, mm = f64(m.predictions["ml_l"][:, r, k]), f64(m.predictions["ml_m"][:, r, k])
        v = d - mm
        if s["model"] == "PLR":
            th = np.nanmean(v * (y - l)) / np.nanmean(v * v)
        else:
            z = f64(df[roles["z_cols"][0]])
            th = np.nanmean((z - mm) * (y - l)) / np.nanmean((z - mm) * (d - f64(m.predictions["ml_r"][:, r, k])))
        if np.isfinite(th):
            want = y - th * d
    elif s["model"] in ("PQ", "LPQ", "CVAR"):
        return thresholds(s, mon, c, m, T, key, r, got, what, y, d, given)
    if want is None:
        mon.count("no-oracle")
        return got
    mon.close(got, want, mech, f"{what}: stored targets of repetition {r}, treatment {k}", rtol=1e-8, atol=1e-8)
    return want


def thresholds(s, mon, c, m, T, key, r, got, what, y, d, given):
    """targets of the outcome nuisance of the quantile-type models: determined by one threshold per fold, which the
    recorded training labels of that fold's learner bracket"""
    df = c.df
    n = len(y)
    tr = d == s["treatment"]
    cond = tr if s["model"] != "LPQ" else f64(df["z"]) == int(key[-1])
    mon.check(np.array_equal(~np.isnan(got), cond), "targets-threshold", f"{what}: targets exist for {np.sum(~np.isnan(got))} of {cond.sum()} observations of the subgroup")
    P = f64(m.predictions[key][:, r, 0])
    for trn, te in m.smpls[r]:
        cand = T.candidates(te, P[te])
        te = te[cond[te]]
        if given or not cand:
            mon.count("no-event")
            continue
        ok, why = False, ""
        for e in cand:
            fe = T.fits[e["fit_id"]]
            u, lab = fe["uids"], fe["y"]
            g = got[te]
            if s["model"] == "CVAR":
                q = s["quantile"]
                # label = max(t, (y - q t) / (1 - q)): t is the floor
                t = lab.min()
                if np.any(lab == t) and np.sum(np.isclose(lab, t)) > 1:
                    want = np.maximum(t, (y[te] - q * t) / (1 - q))
                    ok = np.allclose(g, want, rtol=1e-9, atol=1e-9)
                else:
                    ok = True
                    mon.count("floor-not-seen")
            else:
                rel = tr[u] if s["model"] == "LPQ" else np.ones(len(u), bool)
                lo = np.max(y[u][rel & (lab == 1)], initial=-np.inf)
                hi = np.min(y[u][rel & (lab == 0)], initial=np.inf)
                rt = tr[te]
                ok = set(np.unique(g)) <= {0.0, 1.0} and np.all(g[rt & (y[te] <= lo)] == 1) and np.all(g[rt & (y[te] >= hi)] == 0) and np.all(g[~rt] == 0)
                gl = np.max(y[te][rt & (g == 1)], initial=-np.inf)
                gh = np.min(y[te][rt & (g == 0)], initial=np.inf)
                ok = ok and gl < gh
                why = f"thresholds {max(lo, gl):.4g} / {min(hi, gh):.4g}"
            if ok:
                break
        mon.check(ok, "targets-threshold", f"{what}: targets of a test fold do not belong to the threshold its learner was trained with {why}")
    return got
