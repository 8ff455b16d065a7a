"""Random model configurations over every model class, on synthetic data with a row-id feature."""
import numpy as np
import pandas as pd

from . import env  # noqa: F401
from .spy import UID0, SpyClf, SpyReg

import doubleml as dml  # noqa: E402
from doubleml import DoubleMLClusterData, DoubleMLData  # noqa: E402

LINEAR = ["PLR", "PLIV", "IRM", "APO", "IIVM", "DID", "DIDCS", "SSM", "CVAR"]
NONLIN = ["PQ", "LPQ"]
SINGLE = LINEAR + NONLIN
EXT_OK = ["PLR", "PLIV", "IRM", "APO", "IIVM", "DID", "DIDCS", "PQ", "LPQ"]
SENS_OK = ["PLR", "IRM", "APO", "DID", "DIDCS"]

CLASSES = {
    "PLR": dml.DoubleMLPLR,
    "PLIV": dml.DoubleMLPLIV,
    "IRM": dml.DoubleMLIRM,
    "APO": dml.DoubleMLAPO,
    "IIVM": dml.DoubleMLIIVM,
    "DID": dml.DoubleMLDID,
    "DIDCS": dml.DoubleMLDIDCS,
    "SSM": dml.DoubleMLSSM,
    "CVAR": dml.DoubleMLCVAR,
    "PQ": dml.DoubleMLPQ,
    "LPQ": dml.DoubleMLLPQ,
}


def _pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


# callable scores (module level so that they pickle)
def plr_score(y, d, l_hat, m_hat, g_hat, smpls):
    v = d - m_hat
    return -np.multiply(v, d), np.multiply(v, y - g_hat)


def pliv_score(y, z, d, l_hat, m_hat, r_hat, g_hat, smpls):
    return -np.multiply(d - r_hat, z - m_hat), np.multiply(z - m_hat, y - l_hat)


def irm_score(y, d, g_hat0, g_hat1, m_hat, smpls):
    psi_b = g_hat1 - g_hat0 + d * (y - g_hat1) / m_hat - (1 - d) * (y - g_hat0) / (1 - m_hat)
    return np.full_like(psi_b, -1.0), psi_b


def iivm_score(y, z, d, g_hat0, g_hat1, m_hat, r_hat0, r_hat1, smpls):
    psi_b = g_hat1 - g_hat0 + z * (y - g_hat1) / m_hat - (1 - z) * (y - g_hat0) / (1 - m_hat)
    psi_a = -(r_hat1 - r_hat0 + z * (d - r_hat1) / m_hat - (1 - z) * (d - r_hat0) / (1 - m_hat))
    return psi_a, psi_b


CALLABLES = {"PLR": plr_score, "PLIV": pliv_score, "IRM": irm_score, "IIVM": iivm_score}


def draw_spec(rng, model=None, allow_cluster=True, allow_callable=True, max_rep=3, small=False, **force):
    """a JSON-serialisable configuration"""
    model = model or _pick(rng, SINGLE)
    s = dict(model=model, seed=int(rng.integers(2**31 - 1)))
    hard = model in ("PQ", "LPQ", "CVAR")
    s["n_obs"] = int(rng.integers(260, 420)) if hard else int(rng.integers(110, 260))
    if small and not hard:
        s["n_obs"] = int(rng.integers(90, 140))
    s["n_x"] = int(rng.integers(2, 5))
    s["n_folds"] = int(rng.integers(2, 5))
    s["n_rep"] = int(rng.integers(1, max_rep + 1))
    s["uid_pos"] = int(rng.integers(0, 3))
    s["cluster"] = 0
    s["callable"] = False
    s["n_treat"] = 1
    s["index"] = _pick(rng, ["range", "shuffled", "offset", "str"])
    s["int_dtype"] = bool(rng.random() < 0.3)
    s["trimming_threshold"] = float(_pick(rng, [1e-2, 0.05, 0.15, 0.3]))
    s["slope"] = float(_pick(rng, [0.7, 1.0, 2.5]))
    if allow_cluster and rng.random() < 0.25:
        s["cluster"] = int(rng.integers(1, 3))
    if model == "PLR":
        s["score"] = _pick(rng, ["partialling out", "IV-type"])
        s["n_treat"] = int(rng.integers(1, 4))
        s["other_treat_cov"] = bool(rng.random() < 0.7)
        s["binary_d"] = bool(rng.random() < 0.4)
        s["m_clf"] = bool(s["binary_d"] and rng.random() < 0.6)
        s["callable"] = bool(allow_callable and rng.random() < 0.12)
        s["give_g"] = bool(rng.random() < 0.6)
    elif model == "PLIV":
        s["kind"] = _pick(rng, ["std", "std", "partialX", "partialZ", "partialXZ"])
        s["n_instr"] = 1 if rng.random() < 0.55 else int(rng.integers(2, 4))
        s["score"] = "partialling out"
        if s["kind"] == "std" and s["n_instr"] == 1 and rng.random() < 0.5:
            s["score"] = "IV-type"
        s["n_treat"] = int(rng.integers(1, 3))
        s["other_treat_cov"] = bool(rng.random() < 0.7)
        s["callable"] = bool(allow_callable and s["kind"] == "std" and s["n_instr"] == 1 and rng.random() < 0.15)
    elif model == "IRM":
        s["score"] = _pick(rng, ["ATE", "ATE", "ATTE"])
        s["normalize_ipw"] = bool(rng.random() < 0.4)
        s["binary_y"] = bool(rng.random() < 0.35)
        s["g_clf"] = bool(s["binary_y"] and rng.random() < 0.7)
        s["weights"] = _pick(rng, [None, None, "vec", "dict"] if s["score"] == "ATE" else [None, None, "bin"])
        s["callable"] = bool(allow_callable and rng.random() < 0.1)
        if s["callable"]:
            s["weights"] = None
    elif model == "APO":
        s["levels"] = int(rng.integers(2, 5))
        s["level"] = int(rng.integers(0, s["levels"]))
        s["normalize_ipw"] = bool(rng.random() < 0.4)
        s["binary_y"] = bool(rng.random() < 0.3)
        s["g_clf"] = bool(s["binary_y"] and rng.random() < 0.7)
        s["weights"] = _pick(rng, [None, None, "vec", "dict"])
        s["score"] = "APO"
        s["n_obs"] = int(s["n_obs"] * 1.5)
    elif model == "IIVM":
        s["score"] = "LATE"
        s["normalize_ipw"] = bool(rng.random() < 0.4)
        s["binary_y"] = bool(rng.random() < 0.3)
        s["g_clf"] = bool(s["binary_y"] and rng.random() < 0.7)
        s["always"] = bool(rng.random() < 0.6)
        s["never"] = bool(rng.random() < 0.6)
        s["callable"] = bool(allow_callable and rng.random() < 0.1)
        s["n_obs"] = int(s["n_obs"] * 1.5)
    elif model in ("DID", "DIDCS"):
        s["score"] = _pick(rng, ["observational", "experimental"])
        s["in_sample_normalization"] = bool(rng.random() < 0.5)
        s["give_m"] = bool(s["score"] == "observational" or rng.random() < 0.3)
        s["binary_y"] = bool(rng.random() < 0.25)
        s["g_clf"] = bool(s["binary_y"] and rng.random() < 0.7)
        if model == "DIDCS":
            s["n_obs"] = int(s["n_obs"] * 2)
    elif model == "SSM":
        s["score"] = _pick(rng, ["missing-at-random", "nonignorable"])
        s["normalize_ipw"] = bool(rng.random() < 0.4)
        s["binary_y"] = bool(rng.random() < 0.25)
        s["g_clf"] = bool(s["binary_y"] and rng.random() < 0.7)
        s["n_obs"] = int(s["n_obs"] * 2)
    elif hard:
        s["score"] = {"PQ": "PQ", "LPQ": "LPQ", "CVAR": "CVaR"}[model]
        s["treatment"] = int(rng.integers(0, 2))
        s["quantile"] = float(_pick(rng, [0.25, 0.4, 0.5, 0.6, 0.75]))
        s["normalize_ipw"] = bool(rng.random() < 0.6)
        s["slope"] = float(_pick(rng, [0.7, 1.0]))
        s["n_folds"] = int(rng.integers(2, 4))
        if model == "LPQ":
            s["n_obs"] = int(s["n_obs"] * 2)
    if s["cluster"]:
        s["cl_lab"] = _pick(rng, ["int", "int", "gap", "str", "float"])
        s["cl_uneven"] = bool(rng.random() < 0.4) and model != "LPQ"
    if s["cluster"] == 2:
        s["n_folds"] = 2 if hard else int(rng.integers(2, 4))
        s["n_obs"] = max(s["n_obs"], 240)
        if model in ("DIDCS", "SSM", "APO", "LPQ", "IIVM"):
            s["n_obs"] = max(s["n_obs"], 480)
    w = np.random.default_rng(s["seed"] + 909)
    if w.random() < 0.15:  # more of everything: folds, repetitions, covariates, treatments
        if not hard and s["cluster"] < 2:
            s["n_folds"] = int(w.integers(5, 8))
        if max_rep >= 3 and not hard:
            s["n_rep"] = int(w.integers(3, 6))
        s["n_x"] = int(w.integers(5, 13))
        if model == "PLR" and s["n_treat"] > 1:
            s["n_treat"] = int(w.integers(4, 6))
    s.update(force)
    return s


def make_frame(s):
    rng = np.random.default_rng(s["seed"])
    n, p = s["n_obs"], s["n_x"]
    model = s["model"]
    X = rng.normal(size=(n, p))
    cols = {}
    order = []
    names = [f"x{j}" for j in range(p)]
    pos = min(s.get("uid_pos", 0), p)
    for j, nm in enumerate(names):
        if j == pos:
            cols["uid"] = UID0 + np.arange(n, dtype=float)
            order.append("uid")
        cols[nm] = X[:, j]
        order.append(nm)
    if "uid" not in cols:
        cols["uid"] = UID0 + np.arange(n, dtype=float)
        order.append("uid")
    f = X[:, 0] - 0.5 * X[:, -1]
    lat = rng.normal(size=n)
    z_cols = t_col = s_col = None
    d_cols = ["d"]

    def clusters(k):
        return k

    cl = []
    if s["cluster"] == 1:
        m = max(3 * s["n_folds"] + 1, 10) + int(rng.integers(0, 6))
        c = np.arange(n) % m
        rng.shuffle(c)
        # uneven cluster sizes
        flip = rng.random(n) < 0.2
        c[flip] = rng.integers(0, max(2, m // 2), size=int(flip.sum()))
        cl = [c]
    elif s["cluster"] == 2:
        m1 = 2 * s["n_folds"] + int(rng.integers(1, 4))
        m2 = 2 * s["n_folds"] + int(rng.integers(1, 4))
        cells = [(a, b) for a in range(m1) for b in range(m2)]
        idx = np.arange(n) % len(cells)
        rng.shuffle(idx)
        cl = [np.array([cells[i][0] for i in idx]), np.array([cells[i][1] for i in idx])]
        if s.get("cl_uneven"):  # cells of different sizes, some of them empty
            w = np.random.default_rng(s["seed"] + 71)
            move = w.random(n) < 0.3
            tgt = w.integers(0, max(2, len(cells) // 2), size=n)
            for k in range(2):
                cl[k] = np.where(move, np.array([c[k] for c in cells])[tgt], cl[k])
    ce = np.zeros(n)
    for c in cl:
        eff = rng.normal(size=int(c.max()) + 1)
        ce = ce + 0.5 * eff[c]

    def bern(eta):
        return (rng.random(n) < 1 / (1 + np.exp(-eta))).astype(float)

    if model == "PLR":
        d_cols = ["d"] if s["n_treat"] == 1 else [f"d{k}" for k in range(s["n_treat"])]
        tot = 0.0
        for k, dc in enumerate(d_cols):
            if s.get("binary_d"):
                dd = bern(0.5 * f + 0.2 * k)
            else:
                dd = 0.4 * f + rng.normal(size=n) + 0.3 * ce + (0.3 * cols[d_cols[0]] if k else 0)
            cols[dc] = dd
            tot = tot + (0.5 - 0.3 * k) * dd
        cols["y"] = tot + f + ce + rng.normal(size=n)
    elif model == "PLIV":
        z_cols = ["z"] if s["n_instr"] == 1 else [f"z{k}" for k in range(s["n_instr"])]
        zsum = 0.0
        for k, zc in enumerate(z_cols):
            cols[zc] = 0.3 * f + rng.normal(size=n) + 0.2 * k
            zsum = zsum + cols[zc] * (1.0 - 0.2 * k)
        d_cols = ["d"] if s["n_treat"] == 1 else [f"d{k}" for k in range(s["n_treat"])]
        tot = 0.0
        for k, dc in enumerate(d_cols):
            cols[dc] = 0.8 * zsum + 0.3 * f + lat + rng.normal(size=n) + 0.2 * ce + (k * 0.5 * rng.normal(size=n))
            tot = tot + (0.5 - 0.3 * k) * cols[dc]
        cols["y"] = tot + f - lat + ce + rng.normal(size=n)
    elif model in ("IRM", "PQ", "CVAR", "DID"):
        cols["d"] = bern(0.5 * f)
        y0 = 0.5 * cols["d"] + f + ce + rng.normal(size=n)
        cols["y"] = (y0 > np.median(y0)).astype(float) if s.get("binary_y") else y0
    elif model == "APO":
        q = f + rng.logistic(size=n)
        edges = np.quantile(q, np.linspace(0, 1, s["levels"] + 1)[1:-1])
        cols["d"] = np.digitize(q, edges).astype(float)
        y0 = 0.4 * cols["d"] + f + ce + rng.normal(size=n)
        cols["y"] = (y0 > np.median(y0)).astype(float) if s.get("binary_y") else y0
    elif model in ("IIVM", "LPQ"):
        cols["z"] = bern(0.4 * f)
        z_cols = ["z"]
        cols["d"] = (rng.random(n) < 0.25 + 0.8 * cols["z"] / (1 + np.exp(-0.3 * lat)) * 0.75).astype(float)
        y0 = 0.5 * cols["d"] + f + ce + 0.5 * lat + rng.normal(size=n)
        cols["y"] = (y0 > np.median(y0)).astype(float) if s.get("binary_y") else y0
        if model == "IIVM":
            # one-sided variants need no always/never takers in the data when switched off
            if not s["always"]:
                cols["d"] = cols["d"] * cols["z"]
            if not s["never"]:
                cols["d"] = np.maximum(cols["d"], cols["z"])
    elif model == "DIDCS":
        cols["d"] = bern(0.4 * f)
        cols["t"] = bern(np.zeros(n))
        t_col = "t"
        y0 = 0.5 * cols["d"] * cols["t"] + cols["t"] + f + ce + rng.normal(size=n)
        cols["y"] = (y0 > np.median(y0)).astype(float) if s.get("binary_y") else y0
    elif model == "SSM":
        cols["d"] = bern(0.4 * f)
        if s["score"] == "nonignorable":
            cols["z"] = rng.normal(size=n)
            z_cols = ["z"]
            cols["s"] = bern(0.6 + 0.4 * f + 0.5 * cols["d"] + 0.8 * cols["z"])
        else:
            cols["s"] = bern(0.6 + 0.4 * f + 0.5 * cols["d"])
            if s["seed"] % 3 == 0:  # an instrument this score does not use
                cols["z"] = np.random.default_rng(s["seed"] + 77).normal(size=n) + f
                z_cols = ["z"]
        s_col = "s"
        y0 = 0.5 * cols["d"] + f + ce + rng.normal(size=n)
        cols["y"] = (y0 > np.median(y0)).astype(float) if s.get("binary_y") else y0
    extra = [c for c in cols if c not in order]
    df = pd.DataFrame({c: cols[c] for c in order + extra})
    cluster_cols = None
    if cl:
        cluster_cols = [f"cl{k}" for k in range(len(cl))]
        for nm, c in zip(cluster_cols, cl):
            lab = np.random.default_rng(s["seed"] + 72).permutation(int(c.max()) + 1)  # labels in no particular order
            kind = s.get("cl_lab", "int")
            if kind == "str":
                df[nm] = np.array([f"c{v}" for v in lab])[c]
            elif kind != "int":
                df[nm] = (1000 - 37 * lab if kind == "gap" else 0.5 * lab - 1.25)[c]
            else:
                df[nm] = c
    if s.get("int_dtype"):
        for c in ["d", "z", "t", "s"] + d_cols + ["y"]:
            if c in df.columns and np.all(df[c].values == np.rint(df[c].values)):
                df[c] = df[c].astype(int)
    kind = s.get("index", "range")
    if kind == "shuffled":
        df.index = rng.permutation(n)
    elif kind == "offset":
        df.index = np.arange(n) * 3 + 7
    elif kind == "str":
        df.index = [f"row{i}" for i in range(n)]
    x_cols = order
    roles = dict(y_col="y", d_cols=d_cols, x_cols=x_cols, z_cols=z_cols, t_col=t_col, s_col=s_col, cluster_cols=cluster_cols)
    return df, roles


def make_data(s, df, roles):
    kw = dict(y_col=roles["y_col"], d_cols=list(roles["d_cols"]), x_cols=list(roles["x_cols"]),
              z_cols=None if roles["z_cols"] is None else list(roles["z_cols"]))
    if s.get("n_treat", 1) > 1:
        kw["use_other_treat_as_covariate"] = bool(s.get("other_treat_cov", True))
    if roles["t_col"]:
        kw["t_col"] = roles["t_col"]
    if roles["s_col"]:
        kw["s_col"] = roles["s_col"]
    if roles["cluster_cols"]:
        return DoubleMLClusterData(df, cluster_cols=list(roles["cluster_cols"]), **kw)
    return DoubleMLData(df, **kw)


def make_weights(s):
    rng = np.random.default_rng(s["seed"] + 17)
    n = s["n_obs"]
    k = s.get("weights")
    if k is None:
        return None
    if k == "vec":
        w = rng.uniform(0.2, 2.0, size=n)
        w[rng.random(n) < 0.1] = 0.0
        return w
    if k == "bin":
        return (rng.random(n) < 0.6).astype(float)
    if k == "dict":
        return {"weights": rng.uniform(0.2, 2.0, size=n), "weights_bar": rng.uniform(0.2, 2.0, size=(n, s["n_rep"]))}
    raise ValueError(k)


def make_learners(s, record=True):
    sl = s.get("slope", 1.0)
    reg = lambda tag, alpha=1.0: SpyReg(alpha=alpha, tag=tag, record=record)  # noqa: E731
    clf = lambda tag, alpha=1.0: SpyClf(alpha=alpha, slope=sl, tag=tag, record=record)  # noqa: E731
    m = s["model"]
    if m == "PLR":
        L = {"ml_l": reg("l"), "ml_m": clf("m") if s.get("m_clf") else reg("m", 2.0)}
        if s["callable"] or (s["score"] == "IV-type" and s.get("give_g", True)):
            L["ml_g"] = reg("g", 3.0)
        return L
    if m == "PLIV":
        if s["kind"] == "partialZ":
            return {"ml_r": reg("r", 3.0)}
        L = {"ml_l": reg("l"), "ml_m": reg("m", 2.0), "ml_r": reg("r", 3.0)}
        if s["kind"] == "std" and (s["callable"] or s["score"] == "IV-type"):
            L["ml_g"] = reg("g", 4.0)
        return L
    if m in ("IRM", "APO"):
        return {"ml_g": clf("g") if s.get("g_clf") else reg("g"), "ml_m": clf("m", 2.0)}
    if m == "IIVM":
        return {"ml_g": clf("g") if s.get("g_clf") else reg("g"), "ml_m": clf("m", 2.0), "ml_r": clf("r", 3.0)}
    if m in ("DID", "DIDCS"):
        L = {"ml_g": clf("g") if s.get("g_clf") else reg("g")}
        if s["give_m"]:
            L["ml_m"] = clf("m", 2.0)
        return L
    if m == "SSM":
        return {"ml_g": clf("g") if s.get("g_clf") else reg("g"), "ml_pi": clf("pi", 2.0), "ml_m": clf("m", 3.0)}
    if m == "CVAR":
        return {"ml_g": reg("g"), "ml_m": clf("m", 2.0)}
    return {"ml_g": clf("g"), "ml_m": clf("m", 2.0)}


def model_kwargs(s):
    m = s["model"]
    kw = dict(n_folds=s["n_folds"], n_rep=s["n_rep"])
    if "score" in s and m not in ("APO",):
        kw["score"] = s["score"]
    if s["callable"]:
        kw["score"] = CALLABLES[m]
    if m not in ("PLR", "PLIV"):
        kw["trimming_threshold"] = s["trimming_threshold"]
        if "trimming_rule" in s:
            kw["trimming_rule"] = s["trimming_rule"]
    for k in ("normalize_ipw", "in_sample_normalization", "treatment", "quantile"):
        if k in s:
            kw[k] = s[k]
    if m == "APO":
        kw["treatment_level"] = s["level"]
    if m == "IIVM":
        kw["subgroups"] = {"always_takers": s["always"], "never_takers": s["never"]}
    return kw


def build_model(s, data, learners, weights=None, **over):
    m = s["model"]
    kw = model_kwargs(s)
    if weights is not None:
        kw["weights"] = weights
    kw.update(over)
    cls = CLASSES[m]
    if m == "PLIV" and s["kind"] != "std":
        fac = {"partialX": cls._partialX, "partialZ": cls._partialZ, "partialXZ": cls._partialXZ}[s["kind"]]
        return fac(data, **learners, **kw)
    return cls(data, **learners, **kw)


def build(s, record=True, split_seed=None, **over):
    """returns (df, roles, data, learners, weights, model)"""
    df, roles = make_frame(s)
    data = make_data(s, df, roles)
    learners = make_learners(s, record=record)
    weights = make_weights(s)
    np.random.seed((s["seed"] if split_seed is None else split_seed) % (2**31))
    model = build_model(s, data, learners, weights, **over)
    return df, roles, data, learners, weights, model
