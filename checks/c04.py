"""C04 standard errors: sandwich, one-/two-way cluster-robust, and aggregation over repetitions."""
import numpy as np

from vlib import fitted, zoo
from vlib.oracle import f64, pick_variant, ref_aggregate, ref_se, ref_variants

LEVEL = "exploration"
N_QUICK = 900
RULE = ("random configurations as C03 with clusters over-weighted; standard errors recomputed from the documented score (not from stored scores) by an "
        "independent sandwich / cluster-robust implementation, and aggregated by the median rule; distinct as C02")
FLOORS = {"ev:se-plain": 500, "ev:se-cluster1": 120, "ev:se-cluster2": 120, "ev:se-aggregate": 700, "ev:kde": 50}
ASSUMPTIONS = ["the density in the quantile-score variance is the documented Gaussian kernel estimate with Silverman bandwidth"]


def gen(rng, tier):
    while True:
        force = {}
        if rng.random() < 0.45:
            s = fitted.draw(rng, tier, max_rep=4, model=str(rng.choice(zoo.SINGLE)))
            if not s["cluster"]:
                # redraw until clustered
                for _ in range(20):
                    s = fitted.draw(rng, tier, max_rep=3)
                    if s["cluster"]:
                        break
        else:
            s = fitted.draw(rng, tier, max_rep=5)
        s.update(force)
        yield s


def kde_at_zero(u, w):
    """weighted Gaussian kernel density at zero; bandwidth 0.9 min(sd, IQR/1.349) n^-1/5 of the sample"""
    n = len(u)
    q75, q25 = np.percentile(u, 75), np.percentile(u, 25)
    iqr = (q75 - q25) / 1.349
    sd = np.std(u, ddof=1)
    a = min(sd, iqr) if iqr > 0 else sd
    h = 0.9 * a * n ** (-0.2)
    return np.sum(w * np.exp(-0.5 * (u / h) ** 2) / np.sqrt(2 * np.pi)) / (h * np.sum(w))


def run(s, mon):
    c = fitted.fit(s)
    m = c.model
    n, R, K = s["n_obs"], m.n_rep, len(c.roles["d_cols"])
    SE = np.full((K, R), np.nan)
    N = np.full(K, np.nan)
    for k in range(K):
        for r in range(R):
            th = m.all_coef[k, r]
            ref = pick_variant(ref_variants(s, c.df, c.roles, m, r, k, c.weights, zoo.CALLABLES), m.psi[:, r, k], th)
            if isinstance(ref, tuple):
                psi = np.broadcast_to(ref[0], (n,)) * th + ref[1]
                der = np.broadcast_to(ref[0], (n,))
            else:
                psi = ref["score"](th)
                der = np.full(n, kde_at_zero(f64(ref["y"]) - th, ref["weights"]))
                mon.close(np.mean(m.psi_deriv[:, r, k]), der[0], "kde", f"{s['model']}: derivative of the score", rtol=1e-5, atol=1e-9)
            SE[k, r], N[k] = ref_se(psi, der, c.df, c.roles, m.smpls[r])
            tag = "se-plain" if not s["cluster"] else f"se-cluster{s['cluster']}"
            mon.close(m.all_se[k, r], SE[k, r], tag, f"{s['model']} {s.get('score')}: standard error", rtol=1e-5, atol=1e-10, rep=r, treat=k)
    mon.check(np.all(m.all_se > 0) and np.all(m.se > 0), "se-positive", "standard errors must be positive")
    co, se = ref_aggregate(m.all_coef, SE, N[:, None])
    mon.close(m.coef, co, "coef-aggregate", "aggregate estimate")
    mon.close(m.se, se, "se-aggregate", f"{s['model']}: aggregate standard error over {R} repetitions", rtol=1e-5)
    mon.close(m.framework.ses, m.se, "framework-se")
    mon.close(m.framework.all_ses, m.all_se, "framework-all-se")
    mon.sig(*fitted.signature(s))
