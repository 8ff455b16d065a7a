"""C06 multiplier bootstrap: recovered multipliers, linearity in the score, per-repetition scaling, reproducibility."""
import numpy as np
from scipy import stats

from vlib import fitted, fw

LEVEL = "exploration"
N_QUICK = 500
RULE = ("(a) probe objects with one score per observation, from which the raw multipliers are read back exactly; (b) synthetic objects holding linear "
        "combinations of each other, whose bootstrap statistics must obey the same combinations; (c) fitted models; distinct = (kind, method, K, R, size bucket)")
FLOORS = {"ev:multiplier-law": 80, "ev:linear": 100, "ev:model-boot-is-framework": 60, "ev:reproducible": 200, "ev:multiplier-independent": 60}
ASSUMPTIONS = ["distribution tests reject with p < 1e-9 per test"]
P = 1e-9


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        method = ["normal", "Bayes", "wild"][int(rng.integers(3))]
        kind = ["probe", "linear", "model"][i % 3]
        if kind == "probe":
            yield dict(kind=kind, method=method, seed=int(rng.integers(2**31)), n=int(rng.integers(5, 40)), R=int(rng.integers(1, 4)), B=int(rng.integers(200, 900)))
        elif kind == "linear":
            yield dict(kind=kind, method=method, seed=int(rng.integers(2**31)), n=int(rng.integers(20, 80)), K=int(rng.integers(1, 5)), R=int(rng.integers(1, 5)),
                       B=int(rng.integers(1, 400)), a=float(rng.uniform(0.3, 4)))
        else:
            s = fitted.draw(rng, tier, max_rep=3, small=True, allow_cluster=False)
            yield dict(kind=kind, method=method, seed=int(rng.integers(2**31)), s=s, B=int(rng.integers(150, 400)))


def law(w, method, rng):
    if method == "normal":
        return stats.kstest(w, "norm").pvalue
    if method == "Bayes":
        return stats.kstest(w + 1.0, "expon").pvalue
    # wild: X/sqrt(2) + (Y^2-1)/2
    ref = rng.normal(size=len(w)) / np.sqrt(2) + (rng.normal(size=len(w)) ** 2 - 1) / 2
    return stats.ks_2samp(w, ref).pvalue


def run(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    m, B = spec["method"], spec["B"]
    if spec["kind"] == "probe":
        n, R = spec["n"], spec["R"]
        scale = rng.uniform(0.2, 4.0, size=(n, R)) * rng.choice([-1, 1], size=(n, R))
        psi = np.zeros((n, n, R))
        for i in range(n):
            psi[i, i, :] = scale[i]
        ses = rng.uniform(0.3, 2.0, size=(n, R))
        vs = float(rng.integers(3, 300))
        th = rng.normal(size=(n, R))
        d = dict(thetas=np.median(th, axis=1), ses=np.median(ses, axis=1), all_thetas=th, all_ses=ses, var_scaling_factors=np.full(n, vs), scaled_psi=psi)
        f = fw.make(d)
        np.random.seed(spec["seed"] % 2**31)
        f.bootstrap(method=m, n_rep_boot=B)
        T = f.boot_t_stat.copy()
        mon.check(T.shape == (B, n, R) and np.all(np.isfinite(T)), "boot-shape")
        W = T * (vs * ses)[None] / scale[None]
        mon.note = dict(mean=float(W.mean()), var=float(W.var()), skew=float(stats.skew(W.ravel())))
        w = W.ravel()
        # repetitions may or may not share multipliers; use one repetition for the law of the multipliers
        w0 = W[:, :, 0].ravel()
        mon.check(law(w0, m, rng) > P, "multiplier-law", f"{m}: multipliers do not follow the documented law", mean=w0.mean(), var=w0.var())
        q = np.sqrt(len(w0))
        third = {"normal": 0.0, "Bayes": 2.0, "wild": 1.0}[m]
        mon.check(abs(w0.mean()) < 7 / q and abs(w0.var() - 1) < 7 * 3.0 / q, "multiplier-moments", f"mean {w0.mean():.3f} var {w0.var():.3f}")
        if len(w0) > 8000:
            mon.check(abs(np.mean(w0**3) - third) < 7 * {"normal": 4.0, "Bayes": 20.0, "wild": 13.0}[m] / q + 0.05, "multiplier-skew", f"{np.mean(w0**3):.3f}")
        if n > 1:
            C = np.corrcoef(W[:, :, 0].T)
            off = np.abs(C[~np.eye(n, dtype=bool)]).max()
            mon.check(off < 8 / np.sqrt(B), "multiplier-independent", f"multipliers of two observations have correlation {off:.3f}")
        if n >= 20:
            C = np.corrcoef(W[:, :, 0])
            off = np.abs(C[~np.eye(B, dtype=bool)]).max()
            mon.check(off < 0.9999, "replications-distinct", "two bootstrap replications use the same multipliers")
        np.random.seed(spec["seed"] % 2**31)
        f.bootstrap(method=m, n_rep_boot=B)
        mon.check(np.array_equal(f.boot_t_stat, T), "reproducible", "same seed, different bootstrap")
        f.bootstrap(method=m, n_rep_boot=B)
        mon.check(not np.array_equal(f.boot_t_stat, T), "fresh-draws", "a second bootstrap repeated the first draws")
        f.bootstrap(method=m, n_rep_boot=7)
        mon.check(f.boot_t_stat.shape == (7, n, R) and f.n_rep_boot == 7 and f.boot_method == m, "replaced", "the latest bootstrap replaces the earlier one")
        for bad in ("Gaussian", "bayes", None, 1):
            mon.raises(lambda: f.bootstrap(method=bad, n_rep_boot=5), "refuse", f"method {bad!r}", exc=(TypeError, ValueError))
        for bad in (0, -1, 2.5, "3"):
            mon.raises(lambda: f.bootstrap(method=m, n_rep_boot=bad), "refuse", f"n_rep_boot {bad!r}", exc=(TypeError, ValueError))
        mon.sig("probe", m, n // 10, R)
    elif spec["kind"] == "linear":
        n, K, R = spec["n"], spec["K"], spec["R"]
        f = fw.make(fw.parts(rng, n, K, R))
        g = fw.make(fw.parts(rng, n, K, R))
        a = spec["a"]
        big = fw.concat([f, g, f + g, f - g, a * f])
        np.random.seed(spec["seed"] % 2**31)
        big.bootstrap(method=m, n_rep_boot=B)
        U = big.boot_t_stat * big.all_ses[None] * big.var_scaling_factors[None, :, None]
        u = [U[:, i * K:(i + 1) * K] for i in range(5)]
        mon.close(u[2], u[0] + u[1], "linear", "bootstrap of a sum is not the sum of the bootstraps", atol=1e-7)
        mon.close(u[3], u[0] - u[1], "linear", "bootstrap of a difference", atol=1e-7)
        mon.close(u[4], a * u[0], "linear", "bootstrap of a multiple", atol=1e-7)
        if B >= 200:
            v = (big.boot_t_stat).var(axis=0)
            mon.check(np.all(np.abs(v - 1) < 9 * 3.2 / np.sqrt(B)), "unit-variance", f"bootstrapped t-statistics have variance {v.min():.2f}..{v.max():.2f}")
        np.random.seed(spec["seed"] % 2**31)
        T = big.boot_t_stat.copy()
        big.bootstrap(method=m, n_rep_boot=B)
        mon.check(np.array_equal(T, big.boot_t_stat), "reproducible")
        mon.sig("linear", m, K, R, B // 100)
    else:
        c = fitted.fit(spec["s"])
        mod = c.model
        np.random.seed(spec["seed"] % 2**31)
        ret = mod.bootstrap(method=m, n_rep_boot=B)
        T = mod.boot_t_stat.copy()
        mon.check(ret is mod and mod.n_rep_boot == B and mod.boot_method == m, "boot-attrs")
        g = mod.construct_framework()
        mon.check(g.boot_t_stat is None, "fresh-framework", "a new inference object starts without bootstrap draws")
        np.random.seed(spec["seed"] % 2**31)
        g.bootstrap(method=m, n_rep_boot=B)
        mon.check(np.array_equal(T, g.boot_t_stat), "model-boot-is-framework", "model bootstrap differs from its inference object's")
        np.random.seed(spec["seed"] % 2**31)
        mod.bootstrap(method=m, n_rep_boot=B)
        mon.check(np.array_equal(T, mod.boot_t_stat), "reproducible")
        v = T.var(axis=0)
        K, R = mod.all_coef.shape
        n = spec["s"]["n_obs"]
        want = np.array([[np.sum((mod.psi[:, r, k] / np.mean(mod.psi_deriv[:, r, k])) ** 2) / (n * mod.all_se[k, r]) ** 2 for r in range(R)] for k in range(K)])
        mon.check(np.all(np.abs(v / want - 1) < 9 * 3.2 / np.sqrt(B)), "boot-variance", f"variance ratio {np.min(v/want):.2f}..{np.max(v/want):.2f}")
        mon.check(np.all(np.abs(T.mean(axis=0)) < 8 / np.sqrt(B)), "boot-mean", "bootstrap statistics are not centred")
        mon.sig("model", m, *fitted.signature(spec["s"])[:5])
