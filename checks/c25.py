"""C25 missing covariates: the same model on data whose missing cells were filled beforehand is the reference."""
import numpy as np
import pandas as pd
from scipy.stats import norm

from vlib import fitted, spy, zoo
from vlib.core import Skip
from vlib.ops import basis_frame, grids, group_frame, quiet, x_no_uid
from vlib.oracle import f64
from vlib.spy import TRACE, UID0, SpyClf, SpyReg

import doubleml as dml
from doubleml import DoubleMLClusterData, DoubleMLData
from doubleml.rdd import RDFlex

from checks.c12 import res

LEVEL = "exploration"
N_QUICK = 900
RULE = ("random configuration of every model class (and APOS, QTE, RDFlex) with missing cells (np.nan, pd.NA in nullable columns, infinite values, whole rows, whole columns) in the covariates, given through the constructor, "
        "arrays, a later change of the option or of the covariate list; learners that replace missing cells by a marker; compared with the same model on data that contain the marker; "
        "distinct = (model, options, kind of missing cells, route, operation)")
FLOORS = {"ev:same": 5000, "ev:reached": 400, "ev:refused": 150, "ev:x": 500}
ASSUMPTIONS = ["the learners treat a missing cell and the marker alike, so every result has to agree"]
QUICK_BUDGET = 300
MARK = {"nan": -3.25, "+": 4.5, "-": -6.75}


def fill(X):
    X = np.array(X, dtype=float)
    X[np.isnan(X)] = MARK["nan"]
    X[X == np.inf] = MARK["+"]
    X[X == -np.inf] = MARK["-"]
    return X


class ImpReg(SpyReg):
    def fit(self, X, y, sample_weight=None):
        self.n_miss_ = int(np.sum(~np.isfinite(np.asarray(X, dtype=float))))
        return super().fit(fill(X), y, sample_weight)

    def predict(self, X):
        return super().predict(fill(X))


class ImpClf(SpyClf):
    def fit(self, X, y, sample_weight=None):
        self.n_miss_ = int(np.sum(~np.isfinite(np.asarray(X, dtype=float))))
        return super().fit(fill(X), y, sample_weight)

    def predict_proba(self, X):
        return super().predict_proba(fill(X))

    def predict(self, X):
        return super().predict(fill(X))


def wrap(L):
    return {k: (ImpClf if isinstance(v, SpyClf) else ImpReg)(**v.get_params()) for k, v in L.items()}


OPS = ["plain", "refit", "boot", "sens", "bench", "tune", "tune_folds", "eval", "effects", "roles"]


def gen(rng, tier):
    while True:
        u = rng.random()
        kind = "model" if u < 0.72 else "apos" if u < 0.79 else "qte" if u < 0.84 else "rdd" if u < 0.88 else "refuse"
        if kind == "apos":
            s = zoo.draw_spec(rng, model="APO", small=True, allow_cluster=False)
        elif kind == "qte":
            s = zoo.draw_spec(rng, model=str(rng.choice(["PQ", "LPQ", "CVAR"])), allow_cluster=False, max_rep=1)
        elif kind == "rdd":
            s = dict(model="RDD", n_obs=450, seed=int(rng.integers(2**31 - 1)), n_x=int(rng.integers(2, 4)), fuzzy=bool(rng.random() < 0.5), n_folds=int(rng.integers(2, 4)))
        else:
            s = fitted.draw(rng, small=True)
        miss = dict(p=float(rng.choice([0.02, 0.1, 0.4])), inf=bool(rng.random() < 0.3), na=bool(rng.random() < 0.4), row=bool(rng.random() < 0.3), col=bool(rng.random() < 0.12), seed=int(rng.integers(2**31 - 1)))
        yield dict(kind=kind, s=s, miss=miss, route=str(rng.choice(["ctor", "ctor", "arrays", "option", "x_cols"])), op=str(rng.choice(OPS)))


def holes(df, cols, mi):
    """frame with missing cells, frame with markers"""
    rng = np.random.default_rng(mi["seed"])
    A, B = df.copy(), df.copy()
    cols = [c for c in cols if c != "uid"]
    n = len(df)
    M = rng.random((n, len(cols))) < mi["p"]
    if mi["row"]:
        M[rng.integers(n), :] = True
    if mi["col"] and len(cols) > 1:
        M[:, rng.integers(len(cols))] = True
    if not M.any():
        M[0, 0] = True
    kinds = rng.choice(["nan", "+", "-"], size=M.shape, p=[0.6, 0.2, 0.2]) if mi["inf"] else np.full(M.shape, "nan")
    val = {"nan": np.nan, "+": np.inf, "-": -np.inf}
    for j, c in enumerate(cols):
        a = A[c].to_numpy(dtype=float).copy()
        b = a.copy()
        for k in val:
            w = M[:, j] & (kinds[:, j] == k)
            a[w], b[w] = val[k], MARK[k]
        B[c] = b
        if mi["na"] and j % 2 == 0:
            v = pd.array(np.where(np.isnan(a), 0.0, a), dtype="Float64")
            v[np.isnan(a)] = pd.NA
            A[c] = pd.Series(v, index=A.index)
        else:
            A[c] = a
    return A, B, (bool((kinds[M] != "nan").any()), M)


def backend(s, df, roles, force, route="ctor", sub=None):
    kw = dict(y_col=roles["y_col"], d_cols=list(roles["d_cols"]), x_cols=list(roles["x_cols"]), z_cols=None if roles["z_cols"] is None else list(roles["z_cols"]), force_all_x_finite=force)
    if s.get("n_treat", 1) > 1:
        kw["use_other_treat_as_covariate"] = bool(s.get("other_treat_cov", True))
    for k in ("t_col", "s_col"):
        if roles[k]:
            kw[k] = roles[k]
    cl = roles["cluster_cols"]
    if route == "arrays":
        a = dict(x=df[roles["x_cols"]].to_numpy(dtype=float, na_value=np.nan), y=df[roles["y_col"]].to_numpy(), d=df[roles["d_cols"]].to_numpy(), force_all_x_finite=force)
        if len(roles["d_cols"]) == 1:
            a["d"] = a["d"][:, 0]
        if "use_other_treat_as_covariate" in kw:
            a["use_other_treat_as_covariate"] = kw["use_other_treat_as_covariate"]
        if roles["z_cols"] is not None:
            a["z"] = df[roles["z_cols"]].to_numpy()
        for k in ("t", "s"):
            if roles[k + "_col"]:
                a[k] = df[roles[k + "_col"]].to_numpy()
        if cl:
            # arrays of cluster labels have to be numeric
            return DoubleMLClusterData.from_arrays(cluster_vars=np.column_stack([pd.factorize(df[c])[0] for c in cl]), **a)
        return DoubleMLData.from_arrays(**a)
    if route == "option":
        kw["force_all_x_finite"] = False
    if route == "x_cols":
        kw["x_cols"] = ["uid"]
    data = DoubleMLClusterData(df, cluster_cols=list(cl), **kw) if cl else DoubleMLData(df, **kw)
    if route == "option":
        data.force_all_x_finite = force
    if route == "x_cols":
        data.x_cols = list(roles["x_cols"])
    return data


def cmp(mon, a, b, what, rtol=1e-10):
    for k in a:
        if k not in b:
            mon.fail("same", f"{what}: {k} is missing")
            continue
        mon.close(b[k], a[k], "same", f"{what}: {k}", rtol=rtol, atol=1e-12)


def frame_num(x):
    return f64(x.apply(pd.to_numeric, errors="coerce").to_numpy())


def rdd_frame(s):
    rng = np.random.default_rng(s["seed"])
    n = s["n_obs"]
    sc = rng.normal(size=n)
    X = rng.normal(size=(n, s["n_x"]))
    pr = 0.15 + 0.7 * (sc >= 0) if s["fuzzy"] else 1.0 * (sc >= 0)
    d = (rng.uniform(size=n) < pr).astype(int)
    df = pd.DataFrame(X, columns=[f"x{i}" for i in range(s["n_x"])])
    df.insert(1, "uid", UID0 + np.arange(n))
    df["y"], df["d"], df["score"] = sc + d + X[:, 0] + rng.normal(size=n) * 0.3, d, sc
    return df, dict(y_col="y", d_cols=["d"], x_cols=[c for c in df.columns if c[0] in "xu"], z_cols=None, t_col=None, s_col="score", cluster_cols=None)


def run(spec, mon):
    s, mi = spec["s"], spec["miss"]
    df, roles = rdd_frame(s) if spec["kind"] == "rdd" else zoo.make_frame(s)
    A, B, (has_inf, M) = holes(df, roles["x_cols"], mi)
    rng = np.random.default_rng(mi["seed"])
    if spec["kind"] == "refuse":
        return refuse(spec, mon, A, df, roles, has_inf)
    force = False if (has_inf or rng.random() < 0.5) else "allow-nan"
    route = spec["route"]
    if route == "x_cols" and spec["kind"] == "rdd":
        route = "ctor"
    what = f"{s['model']} {s.get('score', '')} ({route}{', NA' if mi['na'] else ''}{', inf' if has_inf else ''})"
    dA, dB = backend(s, A, roles, force, route), backend(s, B, roles, True, "arrays" if route == "arrays" else "ctor")
    # the covariates exposed by the data object: the user's cells
    xs = f64(dA.x)[:, : len(roles["x_cols"])]
    mon.close(xs, A[roles["x_cols"]].to_numpy(dtype=float, na_value=np.nan), "x", f"{what}: covariates of the data object", rtol=0, atol=0)
    mon.check(dA.force_all_x_finite == force, "x", f"{what}: option {dA.force_all_x_finite} instead of {force}")
    L = wrap(zoo.make_learners(s, record=True)) if spec["kind"] != "rdd" else None
    op = spec["op"]
    names = dict(roles, x_cols=list(dA.x_cols), d_cols=list(dA.d_cols))
    TRACE.clear()
    try:
        ref = quiet(lambda: execute(spec, s, df, dB, names, L, op))
    except Exception as e:
        raise Skip(f"reference run: {type(e).__name__}: {e}")
    TRACE.clear()
    try:
        got = quiet(lambda: execute(spec, s, df, dA, names, L, op))
    except Exception as e:
        mon.fail("refused-valid", f"{what} {op}: {type(e).__name__}: {str(e)[:150]}")
        return
    seen = sum(int(np.isin(ev["X"], list(MARK.values())).sum()) for ev in TRACE.fits())
    mon.check(seen > 0, "reached", f"{what}: no learner ever saw a missing cell")
    mon.count("cells", seen)
    cmp(mon, ref, got, f"{what} {op}")
    mon.sig((s["model"], s.get("score"), s.get("kind"), bool(s.get("cluster")), s.get("n_treat"), mi["na"], has_inf, route, op, spec["kind"]))


def execute(spec, s, df, data, roles, L, op):
    rng = np.random.default_rng(s["seed"] + 3)
    kind = spec["kind"]
    if kind == "rdd":
        kw = {"fuzzy": True, "ml_m": ImpClf()} if s["fuzzy"] else {}
        np.random.seed(s["seed"] % 2**31)
        m = RDFlex(data, ImpReg(), n_folds=s["n_folds"], n_rep=1, **kw)
        m.fit(n_iterations=2)
        return {a: f64(getattr(m, a)) for a in ("coef", "se", "ci", "all_coef", "all_se")}
    L = {k: type(v)(**v.get_params()) for k, v in L.items()}
    w = zoo.make_weights(s)
    np.random.seed(s["seed"] % 2**31)
    if kind in ("apos", "qte"):
        kw = dict(n_folds=s["n_folds"], n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"])
        if kind == "apos":
            m = dml.DoubleMLAPOS(data, L["ml_g"], L["ml_m"], treatment_levels=list(range(s["levels"])), weights=w, **kw)
        else:
            m = dml.DoubleMLQTE(data, L["ml_g"], L["ml_m"], quantiles=[0.4, 0.6], score={"PQ": "PQ", "LPQ": "LPQ", "CVAR": "CVaR"}[s["model"]], **kw)
        m.fit()
        out = {a: f64(getattr(m, a)) for a in ("coef", "se", "all_coef", "all_se")}
        out["psi"] = f64(m.framework.scaled_psi)
        if kind == "apos" and s["levels"] > 1:
            c = m.causal_contrast(reference_levels=0)
            out["contrast"], out["contrast_se"] = f64(c.thetas), f64(c.ses)
            if op in ("bench", "sens"):
                out["bench"] = frame_num(m.sensitivity_benchmark([x_no_uid(roles)[0]] if "uid" in roles["x_cols"] else [roles["x_cols"][-1]]))
        return out
    kw = {}
    if s.get("ctor"):
        kw.update(n_folds=s["ctor"][0], n_rep=s["ctor"][1])
    m = zoo.build_model(s, data, L, w, **kw)
    sp = s.get("split", "drawn")
    from vlib.splits import user_splits
    if sp in ("user", "user_drop"):
        m.set_sample_splitting(user_splits(rng, fitted.strata_of(df), s["n_rep"], s["n_folds"], 0.15 if sp == "user_drop" else 0.0))
    elif sp == "user_cluster":
        a, b = fitted.cluster_splits(rng, [df[f"cl{k}"].values for k in range(s["cluster"])], s["n_rep"], s["n_folds"])
        m.set_sample_splitting(a, all_smpls_cluster=b)
    elif sp == "redraw":
        m.draw_sample_splitting()
    elif sp == "nosplit":
        m.set_sample_splitting((np.arange(len(df)), np.arange(len(df))))
    if op in ("tune", "tune_folds"):
        if s["callable"] or s["split"] == "nosplit" or s.get("kind") == "partialZ":
            op = "plain"
        else:
            m.tune(grids(m, rng), tune_on_folds=op == "tune_folds", n_folds_tune=2)
    if op == "roles":  # the role of a column changes between two fits
        m.fit()
        cols = list(data.x_cols)
        if len(cols) > 2:
            data.x_cols = cols[:1] + cols[2:]
            m.fit()
            data.x_cols = cols
    m.fit()
    if op == "refit":
        m.fit()
    out = res(m)
    if s["cluster"] == 0 and op == "boot":
        np.random.seed(7)
        m.bootstrap("normal", 20)
        out["boot"] = f64(m.boot_t_stat)
        out["ci"] = f64(m.confint(joint=True).values)
    if m.sensitivity_elements is not None and not s["callable"] and op in ("sens", "bench"):
        if op == "sens":
            m.sensitivity_analysis(cf_y=0.04, cf_d=0.05)
            for k in ("theta", "se", "ci"):
                for b, v in m.sensitivity_params[k].items():
                    out[f"s.{k}.{b}"] = f64(v)
        else:
            cand = [c for c in roles["x_cols"] if c != "uid"]
            out["bench"] = frame_num(m.sensitivity_benchmark([cand[-1]]))
            out["after"] = f64(m.coef)
    if op == "eval":
        for k, v in m.evaluate_learners().items():
            out["eval." + k] = f64(v)
    if op == "effects" and s["model"] in ("IRM", "PLR") and s["n_treat"] == 1 and not s["callable"] and not s.get("weights") and s.get("score") in ("ATE", "partialling out") and s["n_rep"] == 1:
        ix = df.copy()
        e = m.cate(basis_frame(np.random.default_rng(1), ix))
        out["cate"] = f64(e.confint(level=0.9).values)
        e = m.gate(group_frame(np.random.default_rng(2), ix, "bool"))
        out["gate"] = f64(e.confint(level=0.9).values)
    return out


def refuse(spec, mon, A, df, roles, has_inf):
    s = spec["s"]
    route = spec["route"] if spec["route"] in ("ctor", "arrays", "x_cols") else "ctor"
    for force in (True, "allow-nan"):
        if force == "allow-nan" and not has_inf:
            continue
        mon.raises(lambda: backend(s, A, roles, force, route), "refused", f"missing cells with force_all_x_finite={force} ({route})", exc=ValueError)
    for bad, exc in (("allow_nan", ValueError), ("False", ValueError), (None, TypeError), (1, TypeError), (np.nan, TypeError)):
        mon.raises(lambda: backend(s, A, roles, bad, route), "refused", f"force_all_x_finite={bad!r} ({route})", exc=exc)
    d = backend(s, A, roles, False)
    for bad, exc in (("allow_nan", ValueError), (None, TypeError), (0, TypeError)):
        mon.raises(lambda: setattr(d, "force_all_x_finite", bad), "refused", f"force_all_x_finite set to {bad!r}", exc=exc)
        mon.check(d.force_all_x_finite is False, "refused", "a refused option value was kept")
    mon.raises(lambda: setattr(d, "force_all_x_finite", True), "refused", "option switched on while cells are missing", exc=ValueError)
    if roles["z_cols"] is None and s["n_treat"] == 1:
        for col in ("y", "d"):
            e = A.copy()
            e[col] = e[col].astype(float)
            e.iloc[3, list(e.columns).index(col)] = [np.nan, np.inf][spec["miss"]["seed"] % 2]
            mon.raises(lambda: backend(s, e, roles, False), "refused", f"missing value in {col} with force_all_x_finite=False", exc=ValueError)
    mon.sig(("refuse", s["model"], route, has_inf, spec["miss"]["na"]))
