"""C20 RDFlex: recorded weighted learner calls, and the reported results against rdrobust on the adjusted data."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd
from rdrobust import rdbwselect, rdrobust
from scipy.stats import norm

from vlib.core import Skip
from vlib.oracle import f64
from vlib.spy import TRACE, UID0, SpyClf, SpyReg

import doubleml as dml
from doubleml.rdd import RDFlex
from doubleml.utils import GlobalClassifier, GlobalRegressor

LEVEL = "exploration"
N_QUICK = 420
RULE = ("random design (sharp / fuzzy, cutoff, integer / float / binary columns, covariates, index) x first-stage specification x kernel (named, callable) x bandwidth (given, selected) x folds x repetitions x iterations x "
        "rdrobust options, fitted once or repeatedly; every learner call is recorded, the adjusted outcome is rebuilt from the recorded predictions and handed to rdrobust; "
        "distinct = distinct combination of options; non-trivial = every fold of every iteration was matched to its recorded calls")
FLOORS = {"ev:fold-rows": 2500, "ev:weights": 2500, "ev:features": 2500, "ev:targets": 2500, "ev:predict-at-cutoff": 2500, "ev:coef": 250, "ev:se": 250, "ev:ci": 250, "ev:bandwidth": 250,
          "ev:aggregate": 180, "ev:shift": 60, "ev:dtype": 60, "ev:global": 500, "ev:refit": 60, "ev:refused": 300}
ASSUMPTIONS = ["rdrobust itself is the reference for the local-polynomial estimate of given data"]
QUICK_BUDGET = 420

SPECS = ["cutoff", "cutoff and score", "interacted cutoff and score"]


def cosine(x, h):
    return np.where(np.abs(x) < h, np.cos(np.pi * x / (2 * h)), 0.0)


def lopsided(x, h):
    return np.exp(-np.abs(x) / h) * (1 + 0.5 * (x > 0))


KERNELS = {"uniform": lambda x, h: (np.abs(x) <= h) * 1.0, "triangular": lambda x, h: np.clip(1 - np.abs(x) / h, 0, None), "epanechnikov": lambda x, h: np.where(np.abs(x) < h, 0.75 * (1 - (x / h) ** 2), 0.0),
           "cosine": cosine, "lopsided": lopsided}


def gen(rng, tier):
    while True:
        o = dict(n=int(rng.integers(450, 800)), p=int(rng.integers(1, 4)), fuzzy=bool(rng.random() < 0.5), spec=str(rng.choice(SPECS)), kernel=str(rng.choice(["uniform", "triangular", "epanechnikov", "Triangular", "cosine", "lopsided"])),
                 h_fs=None if rng.random() < 0.45 else float(np.round(rng.uniform(0.4, 1.6), 3)), n_folds=int(rng.integers(2, 5)), n_rep=int(rng.integers(1, 4)), n_it=int(rng.choice([1, 2, 2, 3])),
                 cutoff=[0, 0.0, 0.25, -0.5, 1, 0.3][int(rng.integers(6))], y=str(rng.choice(["cont", "cont", "int", "bin", "clf"])), d=str(rng.choice(["int", "float", "int8", "bool"])), index=str(rng.choice(["range", "perm", "off"])),
                 kw={}, mode=str(rng.choice(["plain", "shift", "dtype", "refit", "refused"])), seed=int(rng.integers(2**31 - 1)))
        if rng.random() < 0.5:
            for k, v in (("kernel", ["uni", "epa", "tri"]), ("p", [1, 2]), ("vce", ["nn", "hc1"]), ("bwselect", ["mserd", "msetwo", "cerrd"]), ("masspoints", ["off", "adjust"])):
                if rng.random() < 0.35:
                    o["kw"][k] = v[int(rng.integers(len(v)))]
            if "p" in o["kw"]:
                o["kw"]["p"] = int(o["kw"]["p"])
        o["glob"] = str(rng.choice(["", "", "", "", "g", "m", "gm"]))  # learners wrapped as global learners: kernel weights are ignored
        o["extra_m"] = bool(not o["fuzzy"] and rng.random() < 0.3)  # a treatment learner given to a sharp design is ignored
        if o["mode"] == "dtype" and o["y"] == "cont":
            o["y"] = "int"
        if o["mode"] == "refused":
            o.update(n=450, n_rep=1)
        yield o


def frame(o):
    rng = np.random.default_rng(o["seed"])
    n = o["n"]
    s = np.round(rng.normal(size=n) * 1024) / 1024 + (rng.integers(0, 4096, size=n) / 4194304.0)  # sums with the cutoffs are exact
    if o["seed"] % 2:
        s[rng.permutation(n)[:3]] = 0.0  # units exactly at the cutoff
    c = float(np.round(o["cutoff"] * 1024) / 1024)
    right = s >= 0
    X = rng.uniform(-1, 1, size=(n, o["p"]))
    g = X @ rng.uniform(-0.6, 0.8, size=o["p"])
    pr = np.clip(0.2 + 0.5 * right + 0.1 * g, 0.02, 0.98) if o["fuzzy"] else right * 1.0
    d = (rng.uniform(size=n) < pr).astype(int) if o["fuzzy"] else right.astype(int)
    y = 0.3 * s**2 + g + d * (1 - 0.3 * s) + rng.normal(size=n) * 0.5
    if o["y"] == "int":
        y = np.round(3 * y).astype(int)
    elif o["y"] in ("bin", "clf"):
        y = (rng.uniform(size=n) < 1 / (1 + np.exp(-y))).astype(int)
    df = pd.DataFrame(X, columns=[f"x{i}" for i in range(o["p"])])
    df.insert(int(rng.integers(0, o["p"] + 1)), "uid", UID0 + np.arange(n))
    xc = list(df.columns)
    df["score"] = s + c
    df["d"] = {"int": d, "float": d.astype(float), "int8": d.astype(np.int8), "bool": d.astype(int)}[o["d"]]
    df["y"] = y
    df = df[list(rng.permutation(df.columns))]
    if o["index"] == "perm":
        df.index = rng.permutation(n)
    elif o["index"] == "off":
        df.index = np.arange(n) + 1000
    return df, xc, (int(c) if isinstance(o["cutoff"], int) else c)


def silent(fn):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn()


def make(o, df, xc, cutoff, seed=None, **over):
    data = dml.DoubleMLData(df, "y", "d", x_cols=xc, s_col="score")
    g = SpyClf(tag="g") if o["y"] == "clf" else SpyReg(tag="g")
    kern = {"cosine": cosine, "lopsided": lopsided}.get(o["kernel"], o["kernel"])
    mm = SpyClf(tag="m", slope=0.8)
    if "g" in o.get("glob", ""):
        g = GlobalClassifier(g) if o["y"] == "clf" else GlobalRegressor(base_estimator=g)
    if "m" in o.get("glob", ""):
        mm = GlobalClassifier(base_estimator=mm)
    kw = dict(ml_m=mm if o["fuzzy"] or o.get("extra_m") else None, fuzzy=o["fuzzy"], cutoff=cutoff, n_folds=o["n_folds"], n_rep=o["n_rep"], h_fs=o["h_fs"], fs_specification=o["spec"], fs_kernel=kern, **o["kw"])
    kw.update(over)
    if seed is not None:
        np.random.seed(seed)
    return silent(lambda: RDFlex(data, g, **kw))


def fit(m, n_it):
    TRACE.clear()
    try:
        silent(lambda: m.fit(n_iterations=n_it))
    except Exception as e:
        if "singular" in str(e).lower() or "LinAlg" in type(e).__name__:
            raise Skip("rdrobust: singular design")
        raise
    return list(TRACE.events)


def run(o, mon):
    df, xc, cutoff = frame(o)
    keep = df.copy()
    m = make(o, df, xc, cutoff, seed=o["seed"])
    if o["mode"] == "refused":
        return refused(o, mon, df, xc, cutoff, m)
    if np.isnan(m.h_fs):
        raise Skip("no initial bandwidth")
    ev = fit(m, o["n_it"])
    judge(o, mon, m, ev, df, xc, cutoff, o["n_it"])
    mon.check(df.equals(keep), "data-untouched", "fitting changed the data frame")
    res = results(m)
    if o["mode"] == "shift":
        sh = float([1, -3, 16, 0.5][o["seed"] % 4])
        df2 = df.copy()
        df2["score"] = df2["score"] + sh
        if not np.array_equal(df2["score"] - sh, df["score"]):
            raise Skip("shift not exact")
        m2 = make(o, df2, xc, cutoff + sh, seed=o["seed"])
        fit(m2, o["n_it"])
        same(mon, "shift", res, results(m2), f"shifting score and cutoff by {sh}", 1e-9)
    elif o["mode"] == "dtype":
        df2 = df.copy()
        for col in ("y", "d"):
            df2[col] = df2[col].astype(float)
        if o["d"] == "float":
            df2["d"] = df2["d"].astype(int)
        m2 = make(o, df2, xc, float(cutoff), seed=o["seed"])
        fit(m2, o["n_it"])
        same(mon, "dtype", res, results(m2), "integer and float columns", 1e-9)
    elif o["mode"] == "refit":
        k = 1 + o["seed"] % 3
        ev = fit(m, k)
        judge(o, mon, m, ev, df, xc, cutoff, k)
        m2 = make(o, df, xc, cutoff, seed=o["seed"])
        fit(m2, k)
        same(mon, "refit", results(m2), results(m), "refitted and fresh object", 1e-10)
    mon.sig(o["fuzzy"], o["spec"], o["kernel"], o["h_fs"] is None, o["n_folds"], o["n_rep"], o["n_it"], o["y"], o["d"], o["mode"], o["cutoff"], str(sorted(o["kw"].items())))


def results(m):
    return dict(coef=m.coef, se=m.se, ci=m.ci, all_coef=m.all_coef, all_se=m.all_se, h=m.h, h_fs=m.h_fs, w=m.w, pval=m.pval, confint=m.confint(0.9).values)


def same(mon, mech, a, b, what, tol):
    for k in a:
        mon.close(f64(b[k]), f64(a[k]), mech, f"{what}: {k} differs", rtol=tol, atol=tol)


def judge(o, mon, m, ev, df, xc, cutoff, n_it):
    n, R, F = len(df), o["n_rep"], o["n_folds"]
    y, d, x = f64(df["y"]), f64(df["d"]), f64(df["score"]) - cutoff
    X = f64(df[[c for c in xc if c != "uid"]].to_numpy())
    right = (x >= 0) * 1.0
    kern = KERNELS[o["kernel"].lower()]
    what = f"{'fuzzy' if o['fuzzy'] else 'sharp'} {o['spec']}"
    # initial bandwidth and weights
    h0 = o["h_fs"] if o["h_fs"] is not None else silent(lambda: float(np.max(rdbwselect(y=y, x=x, fuzzy=d if o["fuzzy"] else None).bws.values)))
    mon.close(m.h_fs, h0, "bandwidth", f"{what}: initial bandwidth", rtol=1e-9)
    mon.close(m.w, kern(x, h0), "weights", f"{what}: initial weights", rtol=1e-9, atol=1e-12)
    Z = {"cutoff": [right], "cutoff and score": [right, x], "interacted cutoff and score": [right, right * x, x]}[o["spec"]]
    zero = np.zeros(n)
    ones = np.ones(n)
    A = np.column_stack(Z + [X])
    Lf = np.column_stack([zero] * len(Z) + [X])
    Rt = np.column_stack([ones] + [zero] * (len(Z) - 1) + [X])
    fits = [e for e in ev if e["op"] == "fit"]
    preds = [e for e in ev if e["op"] == "predict"]
    streams = {"g": (y, [e for e in fits if e["params"]["tag"] == "g"])}
    if o["fuzzy"]:
        streams["m"] = (d, [e for e in fits if e["params"]["tag"] == "m"])
    mon.check(len(fits) == R * n_it * F * len(streams), "calls", f"{what}: {len(fits)} learner fits instead of {R}x{n_it}x{F}x{len(streams)}")
    byfit = {}
    for e in preds:
        byfit.setdefault(e["fit_id"], []).append(e)
    out = {t: np.full((n, R, n_it), np.nan) for t in streams}
    wts = np.full((n, R, n_it), np.nan)
    parts = [None] * R
    for t, (target, fs) in streams.items():
        if len(fs) != R * n_it * F:
            return
        for i, e in enumerate(fs):
            r, it = divmod(i // F, n_it)
            u = e["uids"]
            P = byfit.get(e["fit_id"], [])
            te = np.unique(np.concatenate([p["uids"] for p in P])) if P else np.array([], int)
            want = np.setdiff1d(np.arange(n), te)
            mon.check(len(P) > 0 and np.array_equal(np.sort(u), want), "fold-rows", f"{what} {t}: a learner was fitted on {len(u)} rows, {len(np.intersect1d(u, te))} of which it predicts; all other folds have {len(want)} rows")
            parts[r] = parts[r] or []
            parts[r].append((it, t, tuple(te)))
            mon.close(e["y"], target[u], "targets", f"{what} {t}: training target")
            perm = match(e["X"], A[u])
            if not mon.check(perm is not None, "features", f"{what} {t}: training features are not the stated specification (shape {e['X'].shape})"):
                return
            if t in o.get("glob", ""):
                mon.check(e["w"] is None, "global", f"{what} {t}: the learner inside a global learner got weights")
                got_w = None
            else:
                mon.check(e["w"] is not None, "weights", f"{what} {t}: fitted without weights")
                got_w = e["w"]
            if got_w is not None:
                seen = wts[u, r, it]
                mon.check(np.all(np.isnan(seen) | np.isclose(seen, e["w"], rtol=1e-12, atol=0)), "weights", f"{what} {t}: learners of one iteration use different weights")
                wts[u, r, it] = e["w"]
            got = {}
            for p in P:
                B = p["X"][:, perm]
                for side, M in (("left", Lf), ("right", Rt)):
                    hit = np.all(np.isclose(B, M[p["uids"]], rtol=0, atol=1e-12), axis=1)
                    got.setdefault(side, np.full(n, np.nan))[p["uids"][hit]] = p["out"][hit]
            ok = P and np.all(np.isfinite(got["left"][te])) and np.all(np.isfinite(got["right"][te]))
            mon.check(bool(ok), "predict-at-cutoff", f"{what} {t}: no predictions left and right of the cutoff for some rows of a test fold")
            if ok:
                out[t][te, r, it] = (got["left"] + got["right"])[te] / 2
    for r in range(R):
        sets = {}
        for it, t, te in parts[r]:
            sets.setdefault((it, t), []).append(te)
        for key, v in sets.items():
            allr = np.concatenate([np.array(a) for a in v])
            mon.check(len(v) == F and np.array_equal(np.sort(allr), np.arange(n)), "folds", f"{what}: test folds of repetition {r} are no partition")
        mon.check(len({tuple(sorted(v)) for v in sets.values()}) == 1, "folds", f"{what}: folds differ between the iterations or learners of a repetition")
    if any(np.any(np.isnan(v)) for v in out.values()):
        return
    K = 3
    co, se, ci, hh, N, bws = np.zeros((K, R)), np.zeros((K, R)), np.zeros((K, 2, R)), np.zeros(R), np.zeros(R), []
    for r in range(R):
        h = b = None
        for it in range(n_it):
            hw = h0 if it == 0 else h
            if not set(streams) <= set(o.get("glob", "")):
                mon.close(wts[:, r, it], kern(x, hw), "weights", f"{what}: weights of iteration {it}", rtol=1e-7, atol=1e-9)
            MY = y - out["g"][:, r, it]
            fz = d - out["m"][:, r, it] if o["fuzzy"] else None
            if it < n_it - 1:
                q = silent(lambda: rdrobust(y=MY, x=x, fuzzy=fz, **o["kw"]))
                h, b = float(q.bws.loc["h"].max()), float(q.bws.loc["b"].max())
            else:
                q = silent(lambda: rdrobust(y=MY, x=x, fuzzy=fz, h=h, b=b, **o["kw"]))
        co[:, r], se[:, r], ci[:, :, r] = q.coef.values.ravel(), q.se.values.ravel(), q.ci.values
        hh[r] = float(q.bws.loc["h"].max())
        N[r] = np.sum(q.N_h)
    mon.close(m.all_coef, co, "coef", f"{what}: estimates per repetition are not rdrobust's on the adjusted data", rtol=1e-6, atol=1e-8)
    mon.close(m.all_se, se, "se", f"{what}: standard errors per repetition", rtol=1e-6, atol=1e-8)
    mon.close(m.h, hh, "bandwidth", f"{what}: final bandwidths", rtol=1e-7)
    mon.close(m.coef, np.median(co, axis=1), "aggregate", f"{what}: estimates are not the medians", rtol=1e-6, atol=1e-8)
    med = np.median(co, axis=1)[:, None]
    ses = np.sqrt(np.median(se**2 + (co - med) ** 2 / N, axis=1))
    mon.close(m.se, ses, "aggregate", f"{what}: standard errors", rtol=1e-6, atol=1e-8)
    mon.close(m.ci, np.median(ci, axis=2), "ci", f"{what}: intervals are not the medians of rdrobust's intervals", rtol=1e-6, atol=1e-8)
    for lev in (0.95, 0.8):
        z = norm.ppf(0.5 + lev / 2)
        df_ci = m.confint(level=lev)
        mon.close(df_ci.values, np.column_stack([np.median(co - z * se, axis=1), np.median(co + z * se, axis=1)]), "ci", f"{what}: confint at level {lev}", rtol=1e-6, atol=1e-8)
        mon.check(list(df_ci.index) == ["Conventional", "Bias-Corrected", "Robust"] and df_ci.columns[0] == f"{(1 - lev) / 2 * 100:.1f} %", "ci-labels", f"{list(df_ci.index)} {list(df_ci.columns)}")
    mon.close(m.t_stat, m.coef / m.se, "t-stat", f"{what}: t statistics", rtol=1e-12)
    mon.close(m.pval, 2 * norm.sf(np.abs(m.coef / m.se)), "t-stat", f"{what}: p-values", rtol=1e-9, atol=1e-300)
    txt = str(m).splitlines()
    conv = [ln for ln in txt if ln.startswith("Conventional")]
    rob = [ln for ln in txt if ln.startswith("Robust")]
    ok = len(conv) == 1 and len(rob) == 1 and f"{m.coef[0]:.3f}" in conv[0] and f"{m.se[0]:.3f}" in conv[0] and f"[{m.ci[0, 0]:.3f}, {m.ci[0, 1]:.3f}]" in conv[0]
    ok = ok and f"{m.t_stat[2]:.3f}" in rob[0] and f"[{m.ci[2, 0]:.3f}, {m.ci[2, 1]:.3f}]" in rob[0] and ("Fuzzy" if o["fuzzy"] else "Sharp") in str(m)
    mon.check(ok, "summary", f"{what}: printed summary {txt[2:4]}")


def match(B, A):
    """column permutation p with B[:, p] == A, or None"""
    if B.shape != A.shape:
        return None
    perm = []
    for j in range(A.shape[1]):
        hit = [i for i in range(B.shape[1]) if i not in perm and np.allclose(B[:, i], A[:, j], rtol=0, atol=1e-12)]
        if not hit:
            return None
        perm.append(hit[0])
    return perm


class NoWeights(SpyReg):
    def fit(self, X, y):
        return super().fit(X, y)


def refused(o, mon, df, xc, cutoff, m):
    data = dml.DoubleMLData(df, "y", "d", x_cols=xc, s_col="score")
    g = SpyReg(tag="g")
    bad = [
        (dict(h_fs=1), TypeError, "integer bandwidth"), (dict(h_fs="1"), TypeError, "string bandwidth"), (dict(fs_specification="score"), ValueError, "unknown specification"), (dict(fs_specification=1), TypeError, "specification type"),
        (dict(fs_kernel="gaussian"), ValueError, "unknown kernel"), (dict(fs_kernel=2), TypeError, "kernel type"), (dict(cutoff=1e6), ValueError, "cutoff outside the data"), (dict(cutoff="0"), TypeError, "cutoff type"),
        (dict(n_folds=1.5), TypeError, "folds type"), (dict(n_rep=0), ValueError, "no repetitions"), (dict(n_folds=0), ValueError, "no folds"), (dict(fuzzy=True, ml_m=None), ValueError, "fuzzy without ml_m"),
        (dict(fuzzy=True, ml_m=SpyReg()), (TypeError, ValueError), "regressor for the treatment"),
    ]
    for kw, exc, why in bad:
        k = dict(cutoff=cutoff, h_fs=0.8)
        k.update(kw)
        mon.raises(lambda: silent(lambda: RDFlex(data, g, **k)), "refused", why, exc=exc)
    for wrap, base in ((GlobalRegressor, SpyClf()), (GlobalClassifier, SpyReg())):
        A = np.column_stack([df["score"].to_numpy(), np.arange(len(df)) + UID0])
        mon.raises(lambda: wrap(base).fit(A, np.arange(len(df)) % 2), "refused", f"{wrap.__name__} of the wrong kind of learner", exc=ValueError)
        mon.raises(lambda: wrap(SpyReg() if wrap is GlobalRegressor else SpyClf()).fit(A, np.arange(len(df)) % 2, sample_weight=np.ones(3)), "refused", f"{wrap.__name__} weights of the wrong length", exc=ValueError)
        mon.raises(lambda: wrap(SpyReg() if wrap is GlobalRegressor else SpyClf()).predict(A), "refused", f"{wrap.__name__} predicts before it is fitted", exc=Exception)
    mon.raises(lambda: silent(lambda: RDFlex(data, NoWeights(), cutoff=cutoff, h_fs=0.8)), "refused", "learner without weights", exc=ValueError)
    if o["y"] in ("cont", "int"):
        mon.raises(lambda: silent(lambda: RDFlex(data, SpyClf(), cutoff=cutoff, h_fs=0.8)), "refused", "classifier for an outcome that is not binary", exc=ValueError)
    frames = []
    d2 = df.copy()
    d2["d"] = d2["d"] + 0.5
    frames.append((d2, dict(s_col="score"), "treatment not 0/1"))
    d2 = df.copy()
    d2["d"] = np.arange(len(df)) % 3
    frames.append((d2, dict(s_col="score"), "three treatment values"))
    frames.append((df, {}, "no score"))
    d2 = df.copy()
    d2["score"] = np.round(d2["score"] * 2)
    frames.append((d2, dict(s_col="score"), "discrete score"))
    d2 = df.copy()
    d2["z"] = d2["score"] ** 2
    frames.append((d2, dict(s_col="score", z_cols="z"), "instrument"))
    for fr, kw, why in frames:
        dat = dml.DoubleMLData(fr, "y", "d", x_cols=xc, **kw)
        mon.raises(lambda: silent(lambda: RDFlex(dat, g, h_fs=0.8)), "refused", why, exc=ValueError)
    fit(m, 2)
    a = results(m)
    for k, exc in ((0, ValueError), (-1, ValueError), ("2", TypeError), (1.5, TypeError)):
        mon.raises(lambda: silent(lambda: m.fit(n_iterations=k)), "refused", f"n_iterations={k!r}", exc=exc)
    for k, exc in ((1, TypeError), (0.0, ValueError), (1.0, ValueError)):
        mon.raises(lambda: m.confint(level=k), "refused", f"level={k!r}", exc=exc)
    same(mon, "refused-state", a, results(m), "results after refused calls", 0)
    mon.sig("refused", o["fuzzy"], o["y"], o["spec"])
