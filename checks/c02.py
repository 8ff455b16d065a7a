"""C02 moment condition: the reported estimate solves the empirical moment of the reported score."""
import numpy as np

from vlib import fitted, zoo
from vlib.oracle import agg_mean, f64, pick_variant, ref_variants

LEVEL = "exploration"
N_QUICK = 700
RULE = ("random model class x score x splits (drawn, redrawn, user-supplied uneven/reduced, no splitting, clusters) fitted with deterministic learners; "
        "monitors read the public score values after fit; distinct = distinct (model, score, clusters, splits, n_rep, weights, options)")
FLOORS = {"ev:moment-zero": 600, "ev:psi-linear": 500, "ev:psi-value": 700, "ev:root-sign-change": 60, "ev:scaled-score": 700}
ASSUMPTIONS = ["for the (local) potential quantile scores a configuration where the empirical score has no sign change is counted and skipped"]


def gen(rng, tier):
    while True:
        yield fitted.draw(rng, tier, max_rep=4 if tier == "thorough" else 3)


def run(s, mon):
    c = fitted.fit(s)
    m = c.model
    psi, dpsi, el = m.psi, m.psi_deriv, m.psi_elements
    n, R, K = s["n_obs"], m.n_rep, len(c.roles["d_cols"])
    mon.check(psi.shape == (n, R, K) and dpsi.shape == (n, R, K), "psi-shape", f"psi {psi.shape} deriv {dpsi.shape}")
    mon.check(m.all_coef.shape == (K, R), "coef-shape", f"{m.all_coef.shape}")
    no_root = any("root" in w for w in c.warn)
    for k in range(K):
        for r in range(R):
            th = m.all_coef[k, r]
            p, dp = psi[:, r, k], dpsi[:, r, k]
            mon.check(np.all(np.isfinite(p)) and np.isfinite(th), "finite", "non-finite score or estimate")
            ref = pick_variant(ref_variants(s, c.df, c.roles, m, r, k, c.weights, zoo.CALLABLES), p, th)
            if isinstance(ref, tuple):
                a, b = el["psi_a"][:, r, k], el["psi_b"][:, r, k]
                mon.close(p, a * th + b, "psi-linear", "psi differs from psi_a*theta+psi_b")
                mon.close(dp, a, "deriv-linear", "psi_deriv differs from psi_a")
                scale = max(1e-12, np.mean(np.abs(p)))
                mom = agg_mean(p, c.df, c.roles, m.smpls[r]) / agg_mean(np.abs(p) + 1e-300, c.df, c.roles, m.smpls[r])
                mon.check(abs(mom) < 1e-8, "moment-zero", f"{s['model']}: relative moment {mom:.3g} at the reported estimate", scale=scale)
                mon.close(p, np.broadcast_to(ref[0], (n,)) * th + ref[1], "psi-value", f"{s['model']}: score values differ from the documented score",
                          rtol=1e-6, atol=1e-8)
            else:
                mon.close(p, ref["score"](th), "psi-value", f"{s['model']}: score values differ from the documented score", rtol=1e-6, atol=1e-8)
                if no_root:
                    mon.count("no-root")
                    continue
                f = lambda x: agg_mean(ref["score"](x), c.df, c.roles, m.smpls[r])  # noqa: E731
                span = np.ptp(f64(ref["y"]))
                # distinct outcomes are further apart than this step with probability ~1
                e = 1e-9 * span + 1e-10
                lo, hi = f(th - e), f(th + e)
                mon.check(lo * hi <= 0 or min(abs(lo), abs(hi)) < 1e-12, "root-sign-change",
                          f"{s['model']}: score does not change sign at the estimate ({lo:.4g}, {hi:.4g})")
                ok = np.isfinite(dp).all() and np.ptp(dp) < 1e-12 * max(1, abs(dp[0]))
                mon.check(ok, "deriv-const", "derivative of the quantile score is a single density estimate")
    # the inference object carries the same score, normalised by its mean derivative
    fw = m.framework
    for k in range(K):
        for r in range(R):
            J = agg_mean(dpsi[:, r, k], c.df, c.roles, m.smpls[r]) / agg_mean(np.ones(n), c.df, c.roles, m.smpls[r])
            mon.close(fw.scaled_psi[:, k, r], psi[:, r, k] / J, "scaled-score", "framework score is not psi / mean(psi_deriv)")
    mon.sig(*fitted.signature(s))
