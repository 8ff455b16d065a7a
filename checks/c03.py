"""C03 estimator: the reported estimates equal the documented estimator recomputed from data, predictions and splits."""
import numpy as np

from vlib import fitted, zoo
from vlib.oracle import agg_mean, pick_variant, ref_variants, ref_theta

LEVEL = "exploration"
N_QUICK = 700
RULE = ("random model class x score x data shape x weights / normalisation / subgroup options x splits; the estimate of every repetition and treatment is "
        "recomputed by an independent implementation from the data frame, the public predictions and splits; distinct as C02")
FLOORS = {"ev:theta": 700, "ev:theta-quantile": 60, "ev:predictions-complete": 1200, "ev:trimmed-range": 200, "ev:median": 600}
ASSUMPTIONS = ["for CVaR the preliminary quantile of a fold is read off the public targets of the outcome nuisance (their floor)"]


def gen(rng, tier):
    while True:
        yield fitted.draw(rng, tier, max_rep=4 if tier == "thorough" else 3)


def run(s, mon):
    c = fitted.fit(s)
    m = c.model
    R, K = m.n_rep, len(c.roles["d_cols"])
    from vlib.trace import keys_of, nuisance

    for k in range(K):
        for key in keys_of(s, c.roles):
            P = m.predictions[key][:, :, k]
            full = s["model"] == "PLR" and key == "ml_l" and s["score"] == "IV-type"
            mon.check(full or np.all(np.isfinite(P)), "predictions-complete", f"{s['model']} {key}: missing predictions")
            if nuisance(s, c.df, c.roles, key, k)["trimmed"]:
                t = s["trimming_threshold"]
                mon.check(P.min() >= t - 1e-15 and P.max() <= 1 - t + 1e-15, "trimmed-range", f"{key}: outside [{t}, {1-t}]")
        for r in range(R):
            ref = pick_variant(ref_variants(s, c.df, c.roles, m, r, k, c.weights, zoo.CALLABLES), m.psi[:, r, k], m.all_coef[k, r])
            if isinstance(ref, tuple):
                th = ref_theta(ref[0], ref[1], c.df, c.roles, m.smpls[r])
                mon.close(m.all_coef[k, r], th, "theta", f"{s['model']} {s.get('score')} {s.get('kind','')}: estimate", rtol=1e-7, atol=1e-9)
                mon.close(m.all_coef[k, r], th, f"theta:{s['model']}", "estimate", rtol=1e-7, atol=1e-9)
            elif not any("root" in w for w in c.warn):
                f = lambda x: agg_mean(ref["score"](x), c.df, c.roles, m.smpls[r])  # noqa: E731
                y = np.sort(ref["y"])
                # sign changes of the exact step function between consecutive outcomes
                vals = np.array([f(v) for v in y])
                prev = np.concatenate([[f(y[0] - 1)], vals[:-1]])
                roots = y[(np.sign(prev) != np.sign(vals))]
                th = m.all_coef[k, r]
                gap = np.min(np.abs(roots - th)) if len(roots) else np.inf
                # an exact zero plateau is also a root
                mon.check(gap < 1e-7 * (1 + np.ptp(y)) or abs(f(th)) < 1e-12, "theta-quantile", f"{s['model']}: estimate is not a root of the documented score (distance {gap:.3g})",
                          n_roots=len(roots))
    mon.close(m.coef, np.median(m.all_coef, axis=1), "median", "aggregate estimate is not the median over repetitions")
    mon.close(m.framework.thetas, m.coef, "framework-theta", "framework estimate")
    mon.close(m.framework.all_thetas, m.all_coef, "framework-all-theta", "framework repetition estimates")
    mon.sig(*fitted.signature(s))
