"""C05 inference: test statistics, p-values, summaries and confidence intervals are functions of the estimates and standard errors."""
import numpy as np
from scipy.stats import norm

from vlib import fitted, fw
from vlib.oracle import pvals

LEVEL = "exploration"
N_QUICK = 900
RULE = ("fitted models of random configuration and synthetic inference objects; every reported statistic at random confidence levels, pointwise and joint, is "
        "recomputed from per-repetition estimates; distinct = distinct (source, parameters, repetitions, levels bucket, boot method)")
FLOORS = {"ev:ci": 1500, "ev:ci-joint": 500, "ev:pval": 600, "ev:summary": 600, "ev:level-monotone": 600, "ev:refuse": 1000}


def gen(rng, tier):
    while True:
        levels = sorted(float(x) for x in rng.choice([0.5, 0.8, 0.9, 0.95, 0.99, 0.999, 0.012, 0.333], size=3, replace=False))
        boot = dict(method=str(rng.choice(["normal", "Bayes", "wild"])), n=int(rng.integers(1, 90)))
        if rng.random() < 0.5:
            s = fitted.draw(rng, tier, max_rep=4, small=True)
            yield dict(kind="model", s=s, levels=levels, boot=boot, names=False)
        else:
            yield dict(kind="fw", seed=int(rng.integers(2**31)), n=int(rng.integers(8, 60)), K=int(rng.integers(1, 7)), R=int(rng.integers(1, 6)), levels=levels,
                       boot=boot, names=bool(rng.random() < 0.5))


def ci_ref(f, level, crit):
    lo = np.median(f.all_thetas - f.all_ses * crit, axis=1)
    hi = np.median(f.all_thetas + f.all_ses * crit, axis=1)
    return np.column_stack([lo, hi])


def check_fw(f, spec, mon, model=None, names=None):
    K, R = f.n_thetas, f.n_rep
    mon.close(f.t_stats, f.thetas / f.ses, "t-stat")
    mon.close(f.all_t_stats, f.all_thetas / f.all_ses, "t-stat-all")
    mon.close(f.all_pvals, pvals(f.all_thetas / f.all_ses), "pval-all", atol=1e-12)
    mon.close(f.pvals, np.median(pvals(f.all_thetas / f.all_ses), axis=1), "pval", atol=1e-12)
    mon.check(np.all((f.pvals >= 0) & (f.pvals <= 1)), "pval-range")
    prev = None
    objs = [("framework", f)] + ([("model", model)] if model is not None else [])
    for lv in spec["levels"]:
        ref = ci_ref(f, lv, norm.ppf(0.5 + lv / 2))
        for nm, o in objs:
            ci = o.confint(level=lv)
            mon.close(ci.values, ref, "ci", f"{nm}: pointwise interval at level {lv}", rtol=1e-8)
            mon.check(list(ci.columns) == [f"{100 * (1 - lv) / 2:.1f} %", f"{100 * (1 + lv) / 2:.1f} %"], "ci-columns", str(list(ci.columns)))
            if names is not None:
                mon.check(list(ci.index) == names, "ci-index", f"{list(ci.index)} vs {names}")
        mon.check(np.all(ref[:, 0] <= f.thetas + 1e-12) and np.all(ref[:, 1] >= f.thetas - 1e-12), "ci-contains")
        ci = f.confint(level=lv).values
        if prev is not None:
            mon.check(np.all(ci[:, 0] <= prev[:, 0] + 1e-12) and np.all(ci[:, 1] >= prev[:, 1] - 1e-12), "level-monotone", "a higher level gave a narrower interval")
        prev = ci
    d = f.confint()
    mon.close(d.values, ci_ref(f, 0.95, norm.ppf(0.975)), "ci-default", "default level is 0.95")
    s = f.summary
    mon.close(s.iloc[:, :4].values, np.column_stack([f.thetas, f.ses, f.t_stats, f.pvals]), "summary", "framework summary columns", atol=1e-12)
    mon.close(s.iloc[:, 4:6].values, d.values, "summary-ci", "framework summary interval")
    if model is not None:
        m = model
        mon.close(m.t_stat, m.coef / m.se, "t-stat")
        mon.close(m.pval, pvals(m.coef / m.se), "pval", atol=1e-12)
        s = m.summary
        mon.close(s[["coef", "std err", "t", "P>|t|"]].values, np.column_stack([m.coef, m.se, m.coef / m.se, pvals(m.coef / m.se)]), "summary",
                  "model summary", atol=1e-12)
        mon.close(s.iloc[:, 4:6].values, d.values, "summary-ci", "model summary interval")
        mon.check(list(s.index) == names, "summary-index")
    for bad in (1, 0.0, 1.0, -0.1, 1.2, "0.95", None):
        mon.raises(lambda: f.confint(level=bad), "refuse", f"level {bad!r}", exc=(TypeError, ValueError))
    if model is None or not model._dml_data.__class__.__name__.startswith("DoubleMLCluster"):
        if f.boot_t_stat is None:
            mon.raises(lambda: f.confint(joint=True), "refuse", "joint interval without bootstrap", exc=ValueError)
        (model or f).bootstrap(method=spec["boot"]["method"], n_rep_boot=spec["boot"]["n"])
        T = f.boot_t_stat
        mon.check(T.shape == (spec["boot"]["n"], K, R), "boot-shape", str(T.shape))
        prev = None
        for lv in spec["levels"]:
            crit = np.quantile(np.max(np.abs(T), axis=1), lv, axis=0)
            ref = ci_ref(f, lv, crit)
            for nm, o in objs:
                mon.close(o.confint(joint=True, level=lv).values, ref, "ci-joint", f"{nm}: joint interval at level {lv}", rtol=1e-8)
            if prev is not None:
                mon.check(np.all(ref[:, 0] <= prev[:, 0] + 1e-12) and np.all(ref[:, 1] >= prev[:, 1] - 1e-12), "level-monotone-joint")
            prev = ref
        # pointwise intervals are unaffected by a bootstrap
        mon.close(f.confint().values, d.values, "ci-after-boot", "bootstrap changed the pointwise interval")


def run(spec, mon):
    if spec["kind"] == "model":
        c = fitted.fit(spec["s"])
        check_fw(c.model.framework, spec, mon, model=c.model, names=list(c.roles["d_cols"]))
        mon.sig("model", *fitted.signature(spec["s"]), spec["boot"]["method"])
    else:
        rng = np.random.default_rng(spec["seed"])
        d = fw.parts(rng, spec["n"], spec["K"], spec["R"])
        names = None
        if spec["names"]:
            names = [f"t{j}" for j in range(spec["K"])]
            d["treatment_names"] = names
        f = fw.make(d)
        check_fw(f, spec, mon, names=names)
        mon.sig("fw", spec["K"], spec["R"], spec["boot"]["method"], tuple(spec["levels"]), spec["names"])
