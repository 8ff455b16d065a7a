"""C16 projections and policies: GATE, CATE, GAPO, CAPO and best linear predictors against own least squares on the model's own
signal (recomputed from public predictions), interval algebra, and policy trees against the values of all constant and leaf rules."""
import numpy as np
import pandas as pd
from scipy.stats import norm, t as tdist

from vlib import fitted, ops, zoo
from vlib.ops import quiet
from vlib.oracle import f64, ref_elements

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 6000
RULE = ("IRM, APO, PLR (both scores; weights, normalisation, user splits, no splitting) and raw signals x bases (dense, dummies as bool/int/string, rank deficient, new rows, one column) x covariance types x levels, joint or pointwise; "
        "policy trees over depths, leaf sizes, ties, zero and one-signed signals; distinct = (source, basis kind, covariance, options)")
FLOORS = {"ev:coef": 1500, "ev:omega": 1500, "ev:pointwise": 1200, "ev:joint": 250, "ev:group-mean": 300, "ev:partition": 100, "ev:tree-leaf": 400, "ev:tree-constant": 400, "ev:refused": 300, "ev:signal": 500, "ev:tree-order": 200, "ev:coef-ci": 300}
COVS = ["HC0", "HC0", "HC1", "HC2", "HC3", "nonrobust", "cluster", "default"]


def pinned():
    yield dict(kind="blp", seed=11, n=60, basis="dense", cov="HC0", level=0.9, joint=True)
    yield dict(kind="blp", seed=12, n=60, basis="dense", cov="HC0", level=0.9, joint=False)


def gen(rng, tier):
    while True:
        u = rng.random()
        o = dict(seed=int(rng.integers(2**31)), cov=str(rng.choice(COVS)), level=float(rng.choice([0.5, 0.8, 0.9, 0.95, 0.99])), joint=bool(rng.random() < 0.4))
        if u < 0.4:
            yield dict(kind="blp", n=int(rng.integers(20, 300)), basis=str(rng.choice(["dense", "dense", "dummies", "one", "deficient", "scaled"])), **o)
        elif u < 0.72:
            m = str(rng.choice(["IRM", "APO", "PLR", "PLR"]))
            s = fitted.draw(rng, model=m, small=True, allow_cluster=bool(rng.random() < 0.25), allow_callable=False)
            s["n_rep"] = 1
            s["n_treat"] = 1
            if m == "IRM":
                s["score"] = "ATE"
            if s.get("weights") == "dict" and s["split"] == "nosplit":
                s["weights"] = "vec"
            yield dict(kind="model", s=s, basis=str(rng.choice(["dense", "bool", "int", "str", "category"])), **o)
        elif u < 0.92:
            yield dict(kind="tree", n=int(rng.integers(20, 200)), p=int(rng.integers(1, 5)), depth=int(rng.integers(1, 5)), signal=str(rng.choice(["normal", "zeros", "positive", "negative", "ties", "rule"])),
                       names=str(rng.choice(["str", "int"])), params=[{}, {"ccp_alpha": 0.0}, {"ccp_alpha": 0.0, "min_samples_leaf": 3}, {"min_samples_leaf": 1, "ccp_alpha": 0.05}, {"max_leaf_nodes": 3}][int(rng.integers(5))], model=bool(rng.random() < 0.3), **o)
        else:
            yield dict(kind="refuse", m=str(rng.choice(["IRM", "APO", "PLR"])), **o)


# ------------------------------------------------------------------ own least squares
def own_blp(sig, X, cov, groups=None):
    X = f64(X)
    n = len(sig)
    P = np.linalg.pinv(X)
    beta = P @ sig
    e = sig - X @ beta
    k = np.linalg.matrix_rank(X)
    bread = P @ P.T
    if cov in ("HC0", "default"):
        w = e**2
    elif cov == "HC1":
        w = e**2 * n / (n - k)
    elif cov == "HC2":
        w = e**2 / (1 - np.sum(X * P.T, axis=1))
    elif cov == "HC3":
        w = (e / (1 - np.sum(X * P.T, axis=1))) ** 2
    elif cov == "nonrobust":
        return beta, bread * np.sum(e**2) / (n - k), n - k
    else:
        S = np.vstack([np.sum(X[groups == g] * e[groups == g][:, None], axis=0) for g in np.unique(groups)])
        G = len(S)
        return beta, bread @ (S.T @ S) @ bread * G / (G - 1) * (n - 1) / (n - k), n - k
    return beta, (P * w) @ P.T, n - k


def cov_kw(o, n, rng):
    if o["cov"] == "default":
        return {}, None
    if o["cov"] == "cluster":
        g = rng.integers(0, max(4, n // 6), size=n)
        return dict(cov_type="cluster", cov_kwds={"groups": g}), g
    return dict(cov_type=o["cov"]), None


def crit_range(rng, B, Om, level, n_boot):
    """monte carlo range for the level quantile of the largest absolute t statistic over the rows of B"""
    w, V = np.linalg.eigh((Om + Om.T) / 2)
    root = V * np.sqrt(np.clip(w, 0, None))
    se = np.sqrt(np.sum((B @ root) ** 2, axis=1))
    T = np.abs((B @ (root @ rng.normal(size=(B.shape[1], 40000)))) / se[:, None])
    mx = np.sort(T.max(axis=0))
    d = 5.5 * np.sqrt(level * (1 - level) / n_boot) + 2.0 / n_boot
    return np.quantile(mx, max(0.0, level - d)) - 1e-6, (np.quantile(mx, level + d) if level + d < 1 else np.inf), T


def check_blp(mon, rng, blp, sig, X, o, groups, gate_names=None, cross=True):
    names = list(X.columns)
    Xf = f64(X.to_numpy())
    beta, Om, dof = own_blp(sig, Xf, o["cov"], groups)
    mon.close(blp.orth_signal, sig, "signal", "the signal of the projection is not the model's own", rtol=1e-7, atol=1e-9)
    scale = np.max(np.abs(Om)) + 1e-300
    full = np.linalg.matrix_rank(Xf) == Xf.shape[1]
    mon.close(f64(blp.blp_model.params), beta, "coef", "projection coefficients", rtol=1e-6, atol=1e-8 * (1 + np.max(np.abs(beta))))
    mon.close(blp.blp_omega, Om, "omega", f"covariance {o['cov']}", rtol=1e-5, atol=1e-8 * scale)
    lev = o["level"]
    a = 1 - lev
    se = np.sqrt(np.diag(Om))
    if full:
        S = blp.summary
        mon.check(list(S.index) == [c for c in names] and S.shape[1] == 6, "summary", "index or shape of the summary")
        mon.close(f64(S.iloc[:, 0]), beta, "summary", "coef", rtol=1e-6, atol=1e-8)
        mon.close(f64(S.iloc[:, 1]), se, "summary", "std err", rtol=1e-5)
        z = tdist.ppf(0.975, dof) if o["cov"] == "nonrobust" else norm.ppf(0.975)
        mon.close(f64(S.iloc[:, 4:6]), np.column_stack([beta - z * se, beta + z * se]), "summary", "interval", rtol=1e-5, atol=1e-7)
    cn = ["{:.1f} %".format(a / 2 * 100), "effect", "{:.1f} %".format((1 - a / 2) * 100)]

    def judge(ci, B, what):
        B = f64(B)
        pt = B @ beta
        s = np.sqrt(np.clip(np.sum((B @ Om) * B, axis=1), 0, None))
        ok = s > 1e-10 * (np.max(np.abs(pt)) + 1)
        mon.check(list(ci.columns) == cn, "columns", f"{what}: {list(ci.columns)}")
        mon.close(f64(ci["effect"]), pt, "effect", what, rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(pt))))
        L, U = f64(ci.iloc[:, 0]), f64(ci.iloc[:, 2])
        return pt, s, ok, L, U

    # predictions at supplied rows
    rows = rng.integers(0, len(Xf), size=int(rng.integers(1, 8)))
    new = X.iloc[rows].copy()
    if gate_names is None and rng.random() < 0.5:
        new = pd.DataFrame(rng.normal(size=(len(rows), Xf.shape[1])), columns=X.columns) if full else new
    pieces = [(new, "supplied rows", new.index, new.to_numpy())]
    if gate_names is not None:
        pieces.append((None, "groups", gate_names, np.eye(Xf.shape[1])))
    for B, what, idx, Bn in pieces:
        kw = {} if B is None else {"basis": B}
        ci = quiet(lambda: blp.confint(level=lev, **kw))
        mon.check(list(ci.index) == list(idx), "index", f"{what}: index {list(ci.index)[:5]} instead of {list(idx)[:5]}")
        pt, s, ok, L, U = judge(ci, Bn, what)
        z = norm.ppf(1 - a / 2)
        mon.close(L[ok], (pt - z * s)[ok], "pointwise", f"{what}: lower bound at level {lev}", rtol=1e-5, atol=1e-7)
        mon.close(U[ok], (pt + z * s)[ok], "pointwise", f"{what}: upper bound at level {lev}", rtol=1e-5, atol=1e-7)
        if not o["joint"] or not ok.all():
            continue
        nb = int(rng.choice([300, 500, 1000]))
        bs = int(rng.integers(2**31 - 1))
        np.random.seed(bs)
        cj = quiet(lambda: blp.confint(level=lev, joint=True, n_rep_boot=nb, **kw))
        pt, s, ok, Lj, Uj = judge(cj, Bn, what + " joint")
        c1, c2 = (pt - Lj) / s, (Uj - pt) / s
        mon.check(np.ptp(c1) < 1e-5 * c1.max() and np.allclose(c1, c2, rtol=1e-5), "joint-common", f"{what}: joint bounds are not a common multiple of the standard errors: {c1} {c2}")
        lo, hi, T = crit_range(rng, Bn, Om, lev, nb)
        c = float(np.mean(c1))
        mon.count("ev:joint")
        if not lo <= c <= hi:
            # the finding blp-joint-axis: largest of the bootstrap draws per point, then the quantile over the points
            m = 40000 // nb
            alt = [np.quantile(T[:, i * nb : (i + 1) * nb].max(axis=1), lev) for i in range(m)]
            inside = min(alt) - 0.25 <= c <= max(alt) + 1.5
            if not inside:
                # a quantile over few points of the largest of nb draws is noisy: exclude chance by repeating the call
                again = quiet(lambda: [float((f64(x["effect"]) - f64(x.iloc[:, 0]))[0] / s[0]) for x in (blp.confint(level=lev, joint=True, n_rep_boot=nb, **kw) for _ in range(7))])
                inside = min(alt) - 0.25 <= np.median(again) <= max(alt) + 1.5
            mon.fail("joint-critical-axis" if inside else "joint-critical", f"{what}: critical value {c:.3f} at level {lev} with {len(pt)} points, {nb} draws; the maximum statistic has it in [{lo:.3f}, {hi:.3f}]")
    if gate_names is None and full:
        ci = quiet(lambda: blp.confint(level=lev, joint=o["joint"]))
        mon.count("ev:coef-ci")
        mon.check(list(ci.columns) == cn and list(ci.index) == names, "coef-ci-labels", f"{list(ci.columns)}")
        mon.close(f64(ci["effect"]), beta, "coef-ci-effect", "", rtol=1e-6, atol=1e-8)
        q = (lambda p: tdist.ppf(p, dof)) if o["cov"] == "nonrobust" else norm.ppf
        z1, z2 = q(1 - a / 2), q(1 - a / 4)
        got = np.column_stack([beta - f64(ci.iloc[:, 0]), f64(ci.iloc[:, 2]) - beta])
        if not np.allclose(got, (z1 * se)[:, None], rtol=1e-4, atol=1e-7):
            known = np.allclose(got, (z2 * se)[:, None], rtol=1e-4, atol=1e-7)
            mon.fail("coef-ci-level" if known else "coef-ci", f"interval for the basis coefficients at level {lev} uses {got[0] / se[0]} standard errors instead of {z1:.4f}")
    return beta, Om


def run_blp(o, mon):
    rng = np.random.default_rng(o["seed"])
    n, kind = o["n"], o["basis"]
    if kind == "dummies":
        k = int(rng.integers(2, 5))
        g = rng.integers(0, k, size=n)
        X = pd.DataFrame({f"g{j}": g == j for j in range(k)})
        X = X.loc[:, X.any()]
    else:
        k = 1 if kind == "one" else int(rng.integers(2, 6))
        X = pd.DataFrame(rng.normal(size=(n, k)), columns=[f"b{j}" for j in range(k)])
        if kind == "deficient":
            X["b0"] = 2.0 * X["b1"] if k == 2 else X["b1"] - X["b2"]
        if kind == "scaled":
            X = X * rng.choice([1e-3, 1.0, 1e3], size=k)
        if rng.random() < 0.5:
            X.insert(0, "const", 1.0)
    if rng.random() < 0.4:
        X.index = rng.permutation(n) + 100
    sig = rng.normal(size=n) * (1 + 2 * rng.random(n)) + rng.normal()
    if rng.random() < 0.3:
        sig = sig * 10.0 ** rng.integers(-3, 4)
    X0, s0 = X.copy(), sig.copy()
    kw, groups = cov_kw(o, n, rng)
    gate = kind == "dummies" and bool(rng.random() < 0.6)
    if kind == "deficient":
        o = dict(o, cov="HC0")
        kw, groups = dict(cov_type="HC0"), None
    blp = quiet(lambda: dml.DoubleMLBLP(sig, X, is_gate=gate).fit(**kw))
    check_blp(mon, rng, blp, s0, X0, o, groups, list(X.columns) if gate else None)
    if kind == "dummies":
        for j, c in enumerate(X.columns):
            mon.close(float(blp.blp_model.params.iloc[j]), s0[X0[c].values].mean(), "group-mean", f"effect of group {c} is not the mean of the signal", rtol=1e-8, atol=1e-9 * np.max(np.abs(s0)))
    mon.check(X.equals(X0) and np.array_equal(sig, s0), "argument", "the signal or basis handed in was modified")
    mon.sig("blp", kind, o["cov"], o["level"], o["joint"], gate)


def run_model(o, mon):
    s = o["s"]
    rng = np.random.default_rng(o["seed"])
    c = fitted.fit(s)
    m = c.model
    n = s["n_obs"]
    idx = c.df.index
    k = int(rng.integers(2, 4))
    g = rng.integers(0, k, size=n)
    if rng.random() < 0.4:  # groups as functions of a covariate
        g = np.digitize(f64(c.df[c.roles["x_cols"][0]]), np.quantile(f64(c.df[c.roles["x_cols"][0]]), np.arange(1, k) / k))
    k = g.max() + 1
    kind = o["basis"]
    D = pd.DataFrame({f"g{j}": g == j for j in range(k)}, index=idx)
    names = list(D.columns)
    if kind == "dense":
        B = ops.basis_frame(rng, c.df)
        arg = B
    else:
        arg = {"bool": D, "int": D.astype(int), "str": pd.DataFrame({"grp": [f"g{j}" for j in g]}, index=idx), "category": pd.DataFrame({"grp": pd.Categorical([f"g{j}" for j in g])}, index=idx)}[kind]
        B = D
        if kind in ("str", "category"):
            names = [f"Group_g{j}" for j in range(k)]
    before = ops.snap(arg)
    kw, groups = cov_kw(o, n, rng)
    fn = {"IRM": (m.cate, m.gate) if s["model"] == "IRM" else None, "PLR": (m.cate, m.gate) if s["model"] == "PLR" else None, "APO": (m.capo, m.gapo) if s["model"] == "APO" else None}[s["model"]]
    blp = quiet(lambda: fn[0 if kind == "dense" else 1](arg, **kw))
    mon.check(ops.diff(before, ops.snap(arg)) is None, "argument", "the basis handed in was modified")
    if s["model"] == "PLR":
        y, d = f64(c.df[c.roles["y_col"]]), f64(c.df[c.roles["d_cols"][0]])
        mh = m.predictions["ml_m"][:, 0, 0]
        dt = d - mh
        if s["score"] == "partialling out":
            sig = y - m.predictions["ml_l"][:, 0, 0]
        else:
            sig = y - m.coef[0] * mh - m.predictions["ml_g"][:, 0, 0]
        X = B.astype(float) * dt[:, None]
    else:
        sig = ref_elements(s, c.df, c.roles, m, 0, 0, c.weights, zoo.CALLABLES)[1]
        X = B
    X = X.copy()
    X.columns = names if kind != "dense" else B.columns
    beta, Om = check_blp(mon, rng, blp, sig, X, o, groups, None if kind == "dense" else names)
    if kind != "dense":
        for j in range(k):
            i = g == j
            if s["model"] == "PLR":
                want = np.sum(dt[i] * sig[i]) / np.sum(dt[i] ** 2)
            else:
                want = sig[i].mean()
            mon.close(float(f64(blp.blp_model.params)[j]), want, "group-mean", f"effect of group {names[j]}", rtol=1e-7, atol=1e-9)
        if s["model"] != "PLR" and not s["cluster"] and c.weights is None:
            mon.close(np.sum(np.bincount(g, minlength=k) / n * beta), m.coef[0], "partition", "group effects weighted by group sizes are not the average effect", rtol=1e-8, atol=1e-9)
    if s["model"] == "IRM" and rng.random() < 0.5:
        depth = int(rng.integers(1, 4))
        F = c.df[[x for x in c.roles["x_cols"] if x != "uid"]]
        pt = m.policy_tree(F, depth=depth)
        check_tree(mon, rng, pt, sig, F, depth, {"min_samples_leaf": 8})
    mon.sig("model", *fitted.signature(s), kind, o["cov"], o["joint"])


# ------------------------------------------------------------------ policy trees
def check_tree(mon, rng, pt, sig, F, depth, params):
    clf = pt.policy_tree
    pred = pt.predict(F)
    mon.check(list(pred.columns) == list(F.columns) + ["pred_treatment"] and list(pred.index) == list(F.index), "tree-frame", f"{list(pred.columns)}")
    a = pred["pred_treatment"].values
    mon.check(np.isin(a, (0, 1)).all(), "tree-values", f"{np.unique(a)}")
    X = f64(F.to_numpy())
    leaf = clf.apply(F)
    tol = 1e-9 * np.sum(np.abs(sig)) + 1e-12
    for v in np.unique(leaf):
        i = leaf == v
        mon.check(np.ptp(a[i]) == 0, "tree-leaf", "two decisions within a leaf")
        tot = np.sum(sig[i])
        mon.check(abs(tot) <= tol or (a[i][0] == 1) == (tot > 0), "tree-leaf", f"a leaf with total signal {tot} is assigned {a[i][0]}")
        mon.check(np.sum(i) >= min(params.get("min_samples_leaf", 8), len(i)), "tree-leaf-size", f"leaf with {np.sum(i)} rows")
    value = np.sum(sig * (2 * a - 1))
    mon.check(value >= abs(np.sum(sig)) - tol, "tree-constant", f"policy value {value} is below that of a constant rule {abs(np.sum(sig))}")
    mon.check(clf.get_depth() <= depth, "tree-depth", f"{clf.get_depth()} > {depth}")
    if "max_leaf_nodes" in params:
        mon.check(clf.get_n_leaves() <= params["max_leaf_nodes"], "tree-leaves", f"{clf.get_n_leaves()}")
    mon.check(clf.n_features_in_ == F.shape[1], "tree-features", "the rule uses other columns than those supplied")
    # columns in another order, more rows
    perm = rng.permutation(F.shape[1])
    again = pt.predict(F.iloc[:, perm])["pred_treatment"].values
    mon.check(np.array_equal(a, again), "tree-order", "the decisions depend on the order of the columns")
    half = rng.permutation(len(F))[: max(2, len(F) // 2)]
    mon.check(np.array_equal(pt.predict(F.iloc[half])["pred_treatment"].values, a[half]), "tree-rows", "the decision for a row depends on the other rows")
    if "max_leaf_nodes" not in params and depth == 1 and clf.get_depth() == 1:
        # a stump: no split on the supplied covariates separates the weighted classes better (gini), by enumeration
        w, c = np.abs(sig), (sig > 0).astype(float)
        W = w.sum()

        def gini(i):
            s = w[i].sum()
            if s <= 0:
                return 0.0
            p = np.sum(w[i] * c[i]) / s
            return 2 * p * (1 - p) * s / W

        best = np.inf
        ms = params.get("min_samples_leaf", 8)
        for j in range(X.shape[1]):
            for v in np.unique(X[:, j])[:-1]:
                i = X[:, j] <= v
                if min((i & (w > 0)).sum(), (~i & (w > 0)).sum()) >= ms:  # rows without weight are ignored
                    best = min(best, gini(i) + gini(~i))
        i = leaf == leaf[0]
        got = gini(i) + gini(~i)
        mon.check(got <= best + 1e-6, "tree-stump", f"impurity of the chosen split {got}, attainable {best}")


def run_tree(o, mon):
    rng = np.random.default_rng(o["seed"])
    n, p = o["n"], o["p"]
    X = np.round(rng.normal(size=(n, p)), 1 if rng.random() < 0.5 else 6)
    F = pd.DataFrame(X, columns=[f"f{j}" for j in range(p)] if o["names"] == "str" else list(range(p)))
    sig = rng.normal(size=n) * rng.exponential(size=n)
    k = o["signal"]
    if k == "zeros":
        sig[rng.random(n) < rng.choice([0.1, 0.6])] = 0.0
        sig[0] = 1.0
    elif k == "positive":
        sig = np.abs(sig) + 1e-6
    elif k == "negative":
        sig = -np.abs(sig) - 1e-6
    elif k == "ties":
        sig = rng.choice([-1.0, 1.0, 2.0], size=n)
    elif k == "rule":
        sig = np.where(X[:, 0] > 0, 1.0, -1.0) * rng.uniform(0.5, 2, n)
    keep, sig0 = F.copy(), sig.copy()
    pt = dml.DoubleMLPolicyTree(sig, F, depth=o["depth"], **dict(o["params"]))
    got = pt.fit()
    mon.check(got is pt, "tree-self", "fit does not return the object")
    par = {"min_samples_leaf": 8, **o["params"]}
    check_tree(mon, rng, pt, sig0, F, o["depth"], par)
    if k == "rule" and n >= 40:
        a = pt.predict(F)["pred_treatment"].values
        mon.check(np.mean(a == (sig0 > 0)) == 1 or o["params"].get("ccp_alpha", 0.01) > 0.01 or min((sig0 > 0).sum(), (sig0 < 0).sum()) < 16, "tree-rule", "a rule expressed by one split is not found")
    mon.check(F.equals(keep) and np.array_equal(sig, sig0), "argument", "the signal or features handed in were modified")
    if rng.random() < 0.1:
        import matplotlib.pyplot as plt

        fig = plt.figure()
        art = quiet(pt.plot_tree)
        txt = [x.get_text() for x in art]
        mon.check(len(txt) >= 1, "tree-plot", "nothing is plotted")
        if len({v > 0 for v in sig0}) == 2 and abs(np.sum(sig0)) > 1e-6:
            mon.check(("class = Treatment" in txt[0]) == (np.sum(sig0) > 0), "tree-plot", f"the root of the plot says {txt[0]!r}, total signal {np.sum(sig0)}")
        else:
            mon.check(np.sum(sig0) > 0 or not any("class = Treatment" in x for x in txt), "tree-plot", f"{txt}, total signal {np.sum(sig0)}")
        plt.close(fig)
    bad = F.copy()
    bad.columns = [f"q{j}" for j in range(p)]
    mon.raises(lambda: pt.predict(bad), "refused", "features with other names", exc=(KeyError, ValueError))
    mon.raises(lambda: pt.predict(F.to_numpy()), "refused", "features as an array", exc=TypeError)
    mon.raises(lambda: dml.DoubleMLPolicyTree(sig, F).predict(F), "refused", "prediction before fit", exc=Exception)
    mon.sig("tree", k, o["depth"], o["names"], str(o["params"]), p)


def run_refuse(o, mon):
    rng = np.random.default_rng(o["seed"])
    n = 60
    X = pd.DataFrame(rng.normal(size=(n, 2)), columns=["a", "b"])
    sig = rng.normal(size=n)
    T, V = TypeError, ValueError
    R = lambda fn, msg, exc: mon.raises(lambda: quiet(fn), "refused", msg, exc=exc)  # noqa: E731
    R(lambda: dml.DoubleMLBLP(sig[:, None], X), "two-dimensional signal", V)
    R(lambda: dml.DoubleMLBLP(list(sig), X), "signal as a list", T)
    R(lambda: dml.DoubleMLBLP(sig, X.to_numpy()), "basis as an array", T)
    R(lambda: dml.DoubleMLBLP(sig, pd.concat([X, X], axis=1)), "duplicated names", V)
    blp = dml.DoubleMLBLP(sig, X)
    R(lambda: blp.confint(), "interval before fit", V)
    blp.fit()
    R(lambda: blp.confint(X[["b", "a"]]), "reordered basis", V)
    R(lambda: blp.confint(X[["a"]]), "smaller basis", V)
    for lv in (0.0, 1.0, 1.2, -0.1):
        R(lambda: blp.confint(X, level=lv), f"level {lv}", V)
    R(lambda: blp.confint(X, level=95), "integer level", T)
    R(lambda: blp.confint(X, joint="yes"), "joint as text", T)
    R(lambda: blp.confint(X, joint=True, n_rep_boot=0), "no draws", V)
    R(lambda: blp.confint(X, joint=True, n_rep_boot=2.0), "fractional draws", T)
    s = zoo.draw_spec(rng, model=o["m"], allow_cluster=False, allow_callable=False, small=True)
    s["n_rep"] = int(rng.integers(1, 3))
    s["n_treat"] = 1
    s["weights"] = None if s.get("weights") else s.get("weights")
    if o["m"] == "IRM":
        s["score"] = str(rng.choice(["ATE", "ATTE"]))
        if s["score"] == "ATTE":
            s["weights"] = None
    s["split"] = "drawn"
    c = fitted.fit(s)
    m = c.model
    B = ops.basis_frame(rng, c.df)
    G = ops.group_frame(rng, c.df, "bool")
    pj, gr = (m.capo, m.gapo) if o["m"] == "APO" else (m.cate, m.gate)
    refuse = s["n_rep"] > 1 or s.get("score") == "ATTE"
    if refuse:
        R(lambda: pj(B), f"projection of {s['n_rep']} repetitions, score {s.get('score')}", (V, NotImplementedError))
        R(lambda: gr(G), f"groups of {s['n_rep']} repetitions, score {s.get('score')}", (V, NotImplementedError))
        if o["m"] == "IRM":
            R(lambda: m.policy_tree(B), "policy tree", (V, NotImplementedError))
    R(lambda: gr(G.to_numpy()), "groups as an array", T)
    R(lambda: gr(G.astype(float)), "fractional dummies", T)
    if o["m"] == "IRM" and not refuse:
        R(lambda: m.policy_tree(B.to_numpy()), "features as an array", T)
        R(lambda: m.policy_tree(B, depth=-1), "negative depth", V)
        R(lambda: m.policy_tree(B, depth="2"), "depth as text", T)
        R(lambda: m.policy_tree(B, depth=0), "no depth", V)
    mon.sig("refuse", o["m"], refuse)


def run(o, mon):
    {"blp": run_blp, "model": run_model, "tree": run_tree, "refuse": run_refuse}[o["kind"]](o, mon)
