"""C07 multiple testing: step-down bootstrap and textbook corrections recomputed from published statistics, plus order/permutation relations."""
import numpy as np

from vlib import fitted, fw
from vlib.oracle import pvals

LEVEL = "exploration"
N_QUICK = 2500
RULE = ("synthetic inference objects (1-9 parameters, 1-5 repetitions, correlated scores, ties, extreme and null effects) and fitted multi-treatment models; "
        "all adjustment methods; distinct = (source, K, R, boot method, correction, tie pattern)")
FLOORS = {"ev:stepdown": 800, "ev:textbook": 1500, "ev:permutation": 400, "ev:monotone": 1500, "ev:median": 2000, "ev:needs-bootstrap": 500}
METHODS = ["bonferroni", "sidak", "holm", "holm-sidak", "simes-hochberg", "fdr_bh", "fdr_by"]


def textbook(p, m):
    K = len(p)
    if m == "bonferroni":
        return np.minimum(1, p * K)
    if m == "sidak":
        return np.minimum(1, 1 - (1 - p) ** K)
    o = np.argsort(p, kind="stable")
    ps = p[o]
    j = np.arange(1, K + 1)
    if m == "holm":
        a = np.maximum.accumulate(ps * (K - j + 1))
    elif m == "holm-sidak":
        a = np.maximum.accumulate(1 - (1 - ps) ** (K - j + 1))
    elif m == "simes-hochberg":
        a = np.minimum.accumulate((ps * (K - j + 1))[::-1])[::-1]
    else:
        c = np.sum(1.0 / j) if m == "fdr_by" else 1.0
        a = np.minimum.accumulate((ps * K * c / j)[::-1])[::-1]
    out = np.empty(K)
    out[o] = np.minimum(1, a)
    return out


def stepdown(T, t):
    """T (B, K) bootstrap statistics, t (K,) statistics"""
    K = len(t)
    a = np.abs(t)
    order = sorted(range(K), key=lambda k: -a[k])
    out = np.empty(K)
    run = 0.0
    for pos, k in enumerate(order):
        rest = order[pos:]
        mx = np.abs(T[:, rest]).max(axis=1)
        run = max(run, float(np.mean(mx >= a[k])))
        out[k] = run
    return out


def gen(rng, tier):
    while True:
        b = dict(method=str(rng.choice(["normal", "Bayes", "wild"])), n=int(rng.choice([1, 2, 7, 40, 200, 600])))
        m = str(rng.choice(METHODS))
        if rng.random() < 0.15:
            s = fitted.draw(rng, tier, model="PLR", max_rep=4, small=True, allow_cluster=False)
            s["n_treat"] = int(rng.integers(1, 4))
            yield dict(kind="model", s=s, boot=b, m=m)
        else:
            yield dict(kind="fw", seed=int(rng.integers(2**31)), n=int(rng.integers(5, 60)), K=int(rng.integers(1, 10)), R=int(rng.integers(1, 6)), boot=b, m=m,
                       tie=bool(rng.random() < 0.15), strong=float(rng.choice([0, 1, 4])), perm=bool(rng.random() < 0.5))


def judge(f, spec, mon, obj=None, only_refs=False):
    o = obj if obj is not None else f
    K, R = f.n_thetas, f.n_rep
    raw = pvals(f.all_thetas / f.all_ses)
    if f.boot_t_stat is None:
        for nm in ("rw", "romano-wolf", "Romano-Wolf", "RW"):
            mon.raises(lambda: f.p_adjust(nm), "needs-bootstrap", "step-down without bootstrap", exc=ValueError)
    for m in [spec["m"], "holm"]:
        df, al = f.p_adjust(method=m)
        ref = np.column_stack([textbook(raw[:, r], m) for r in range(R)])
        mon.close(al, ref, "textbook", f"{m} correction", rtol=1e-6, atol=1e-10)
        mon.close(df["pval"].values, np.median(al, axis=1), "median", m, atol=1e-12)
        mon.close(df["thetas"].values, f.thetas, "thetas")
        mon.check(np.all(al >= raw - 1e-12) and np.all(al <= 1), "range", f"{m}: outside [raw, 1]")
        for r in range(R):
            i = np.argsort(raw[:, r], kind="stable")
            mon.check(np.all(np.diff(al[i, r]) >= -1e-12), "monotone", f"{m}: adjusted p-values do not follow the raw ordering")
    mon.raises(lambda: f.p_adjust(3), "refuse", "method=3", exc=TypeError)
    mon.raises(lambda: f.p_adjust("nonsense"), "refuse", "unknown method", exc=Exception)
    np.random.seed(spec.get("seed", 1) % 2**31)
    o.bootstrap(method=spec["boot"]["method"], n_rep_boot=spec["boot"]["n"])
    T = f.boot_t_stat.copy()
    t = (f.all_thetas / f.all_ses).copy()
    df, al = f.p_adjust()
    ties = any(len(np.unique(np.abs(t[:, r]))) < K for r in range(R))
    ref = np.column_stack([stepdown(T[:, :, r], t[:, r]) for r in range(R)])
    if not ties:
        mon.close(al, ref, "stepdown", "step-down adjusted p-values", atol=1e-12)
    for r in range(R):
        i = np.argsort(-np.abs(t[:, r]), kind="stable")
        mon.check(np.all(np.diff(al[i, r]) >= -1e-12), "monotone", "step-down values decrease with weaker evidence")
        # never below the single-hypothesis bootstrap p-value and never above the single-step one
        single = np.array([np.mean(np.abs(T[:, k, r]) >= abs(t[k, r])) for k in range(K)])
        mx = np.abs(T[:, :, r]).max(axis=1)
        onestep = np.array([np.mean(mx >= abs(t[k, r])) for k in range(K)])
        mon.check(np.all(al[:, r] >= single - 1e-12) and np.all(al[:, r] <= onestep + 1e-12), "between", "outside [unadjusted, single-step]")
    mon.close(df["pval"].values, np.median(al, axis=1), "median", "step-down", atol=1e-12)
    mon.close(df["thetas"].values, f.thetas, "thetas")
    for nm in ("rw", "Romano-Wolf"):
        mon.close(f.p_adjust(nm)[1], al, "alias", nm, atol=0)
    mon.check(np.array_equal(T, f.boot_t_stat, equal_nan=True) and np.array_equal(t, f.all_thetas / f.all_ses, equal_nan=True), "pure", "adjusting changed the object")
    if obj is not None:
        d2 = obj.p_adjust()
        mon.close(d2["pval"].values, df["pval"].values, "model-padjust", atol=1e-12)
        mon.close(d2["thetas"].values, f.thetas, "model-padjust")
        mon.check(list(d2.index) == list(obj._dml_data.d_cols), "model-padjust-index", str(list(d2.index)))
        d3 = obj.p_adjust(method=spec["m"])
        mon.close(d3["pval"].values, np.median(np.column_stack([textbook(raw[:, r], spec["m"]) for r in range(R)]), axis=1), "model-padjust", rtol=1e-6, atol=1e-10)
    return al


def run(spec, mon):
    if spec["kind"] == "model":
        c = fitted.fit(spec["s"])
        judge(c.model.framework, spec, mon, obj=c.model)
        mon.sig("model", spec["s"]["n_treat"], spec["s"]["n_rep"], spec["boot"]["method"], spec["m"])
        return
    rng = np.random.default_rng(spec["seed"])
    d = fw.parts(rng, spec["n"], spec["K"], spec["R"])
    K, R = spec["K"], spec["R"]
    d["all_thetas"] = d["all_thetas"] + spec["strong"] * d["all_ses"] * rng.choice([0, 0, 1, -1.5], size=(K, 1))
    if spec["tie"] and K > 1:
        a, b = rng.choice(K, 2, replace=False)
        d["all_thetas"][a] = -d["all_thetas"][b]
        d["all_ses"][a] = d["all_ses"][b]
        d["scaled_psi"][:, a] = -d["scaled_psi"][:, b]
    f = fw.make(d)
    al = judge(f, spec, mon)
    mon.sig("fw", K, R, spec["boot"]["method"], spec["m"], spec["tie"], spec["boot"]["n"])
    if spec["perm"] and K > 1:
        p = rng.permutation(K)
        e = {k: (v[:, p] if k == "scaled_psi" else v[p]) for k, v in d.items()}
        g = fw.make(e)
        al2 = None
        np.random.seed(spec["seed"] % 2**31)
        g.bootstrap(method=spec["boot"]["method"], n_rep_boot=spec["boot"]["n"])
        al2 = g.p_adjust()[1]
        # same multipliers (same seed): the statistic is a permutation up to rounding, which may flip >= comparisons only on exact ties
        if not spec["tie"]:
            mon.close(al2, al[p], "permutation", "listing the parameters in another order changes step-down p-values", atol=1e-12)
        mon.close(g.p_adjust(spec["m"])[1], f.p_adjust(spec["m"])[1][p], "permutation-textbook", spec["m"], atol=1e-12)
