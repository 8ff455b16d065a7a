"""C22 data generators: shape, roles, identity across return types and seeds, supports, and the documented equations judged from the samples alone."""
import warnings

import numpy as np
import pandas as pd
from scipy import stats
from scipy.linalg import toeplitz
from scipy.special import expit

from vlib.core import Skip

import doubleml as dml
import doubleml.datasets as ds
from doubleml.rdd.datasets import make_simple_rdd_data

LEVEL = "exploration"
N_QUICK = 3500
RULE = ("random generator x parameters (given or left at the documented default); structure cases: small samples, every return-type alias, reseeding, refusals; sample cases: 6 000-20 000 rows whose residuals under the documented "
        "equations are tested against the documented error distribution (|z| < 6.5, KS p > 1e-10), plus identities between the returned oracle quantities; distinct = (kind, generator, parameters given, return type)")
FLOORS = {"ev:same-content": 4500, "ev:roles": 450, "ev:columns": 900, "ev:refused": 450, "ev:resid-dist": 1500, "ev:bernoulli": 900, "ev:cov-x": 900, "ev:identity": 1200, "ev:corr": 600, "ev:cluster-structure": 120,
          "ev:fetch": 180}
ASSUMPTIONS = ["where the docstring and the code disagree (variance of make_confounded_irm_data, interaction in make_ssm_data, treatment effect of make_irm_data_discrete_treatments) either reading is accepted or the point is left out",
               "the download of fetch_bonus and fetch_401K is replaced by a synthetic table"]

ZMAX = 6.5
PMIN = 1e-10

ARR = ["array", "np.ndarray", "np.array", np.ndarray]
FRM = ["DataFrame", "pd.DataFrame", pd.DataFrame]
DML = ["DoubleMLData", dml.DoubleMLData]
CLU = ["DoubleMLClusterData", dml.DoubleMLClusterData]


# ---------------------------------------------------------------- statistics
class Stat:
    def __init__(self, mon, g):
        self.mon, self.g = mon, g

    def mean0(self, v, mech, what):
        v = np.asarray(v, dtype=float)
        se = v.std() / np.sqrt(len(v))
        z = v.mean() / se if se > 0 else (0.0 if abs(v.mean()) < 1e-12 else np.inf)
        self.mon.check(np.isfinite(z) and abs(z) < ZMAX, mech, f"{self.g}: {what}: z={z:.3g} (mean {v.mean():.5g}, n {len(v)})")

    def dist(self, v, what, sd=1.0, kind="norm"):
        v = np.asarray(v, dtype=float)
        if not np.all(np.isfinite(v)):
            self.mon.fail("resid-dist", f"{self.g}: {what}: not finite")
            return
        if kind == "norm":
            p = stats.kstest(v / sd, "norm").pvalue
            z = (np.mean(v**2) / sd**2 - 1) / np.sqrt(2 / len(v))
            # exact chi-square tail for small samples
            q = stats.chi2(len(v))
            t = np.sum(v**2) / sd**2
            pv = 2 * min(q.cdf(t), q.sf(t))
            self.mon.check(p > PMIN and pv > PMIN, "resid-dist", f"{self.g}: {what} is not N(0, {sd**2:.4g}): KS p={p:.2g}, variance z={z:.3g}, mean {v.mean():.4g}, sd {v.std():.4g}")
        else:
            lo, hi = kind
            ok = v.min() >= lo - 1e-9 and v.max() <= hi + 1e-9
            p = stats.kstest((v - lo) / (hi - lo), "uniform").pvalue
            self.mon.check(ok and p > PMIN, "resid-dist", f"{self.g}: {what} is not U[{lo}, {hi}]: range [{v.min():.4g}, {v.max():.4g}], KS p={p:.2g}")

    def corr(self, u, v, rho, what):
        r = np.corrcoef(u, v)[0, 1]
        z = (np.arctanh(np.clip(r, -1 + 1e-15, 1 - 1e-15)) - np.arctanh(rho)) * np.sqrt(len(u) - 3)
        self.mon.check(abs(z) < ZMAX, "corr", f"{self.g}: {what}: correlation {r:.4g}, documented {rho:.4g} (z={z:.3g})")

    def bern(self, d, p, feats, what):
        d, p = np.asarray(d, dtype=float), np.broadcast_to(np.asarray(p, dtype=float), np.shape(d))
        self.mon.check(np.all(np.isin(d, [0, 1])), "support", f"{self.g}: {what} takes values outside {{0, 1}}")
        for j, w in enumerate([np.ones(len(d))] + feats):
            # Bernstein bound: holds at level 1e-10 for every sample size and every probability
            V, M, t = np.sum(p * (1 - p) * w**2), np.max(np.abs(w)), np.sum((d - p) * w)
            L = np.log(2 / PMIN)
            lim = L * M / 3 + np.sqrt((L * M / 3) ** 2 + 2 * L * V)
            self.mon.check(abs(t) <= lim, "bernoulli", f"{self.g}: {what} does not follow the documented probability (direction {j}: sum {t:.4g}, bound {lim:.4g})")

    def cov(self, x, S, what="X"):
        x = np.asarray(x, dtype=float)
        n, k = x.shape
        for a in range(min(k, 6)):
            self.mean0(x[:, a], "mean-x", f"E[{what}{a + 1}]")
            p = stats.kstest(x[:, a] / np.sqrt(S[a, a]), "norm").pvalue
            self.mon.check(p > PMIN, "cov-x", f"{self.g}: {what}{a + 1} is not normal with the documented variance (KS p={p:.2g})")
            for b in range(a, min(k, 6)):
                self.mean0(x[:, a] * x[:, b] - S[a, b], "cov-x", f"Cov({what}{a + 1}, {what}{b + 1}) differs from {S[a, b]:.4g}")


def top(c, k):
    return toeplitz([np.power(float(c), i) for i in range(k)])


def fx(x, k=3):
    return [x[:, j] for j in range(min(k, x.shape[1]))]


def zmap(x, keep_fifth=True):
    t = [np.exp(0.5 * x[:, 0]), 10 + x[:, 1] / (1 + np.exp(x[:, 0])), (0.6 + x[:, 0] * x[:, 2] / 25) ** 3, (20 + x[:, 1] + x[:, 3]) ** 2]
    t = np.column_stack(t + [x[:, 4:]])
    return (t - t.mean(axis=0)) / t.std(axis=0)


def freg(w):
    return 210 + 27.4 * w[:, 0] + 13.7 * (w[:, 1] + w[:, 2] + w[:, 3])


def maybe(rng, **opts):
    return {k: v for k, v in opts.items() if rng.random() < 0.55}


U = lambda rng, a, b: float(np.round(rng.uniform(a, b), 4))  # noqa: E731


# ---------------------------------------------------------------- generators
def p_ccddhnr(rng):
    return dict(dim_x=int(rng.integers(3, 9)), **maybe(rng, alpha=U(rng, -2, 2), a_0=U(rng, -2, 2), a_1=U(rng, -2, 2), s_1=U(rng, 0.2, 3), b_0=U(rng, -2, 2), b_1=U(rng, -2, 2), s_2=U(rng, 0.2, 3)))


def s_ccddhnr(st, a, k):
    x, y, d = a["x"], a["y"], a["d"]
    g = lambda n, v: k.get(n, v)  # noqa: E731
    st.cov(x, top(0.7, x.shape[1]))
    v = d - g("a_0", 1) * x[:, 0] - g("a_1", 0.25) * expit(x[:, 2])
    e = y - g("alpha", 0.5) * d - g("b_0", 1) * expit(x[:, 0]) - g("b_1", 0.25) * x[:, 2]
    st.dist(v, "d - m_0(x)", g("s_1", 1))
    st.dist(e, "y - alpha d - g_0(x)", g("s_2", 1))
    for w in fx(x):
        st.corr(v, w, 0, "treatment error and covariate")
        st.corr(e, w, 0, "outcome error and covariate")
    st.corr(v, e, 0, "treatment and outcome error")


def p_turrell(rng):
    return dict(dim_x=int(rng.integers(2, 9)), **maybe(rng, theta=U(rng, -2, 2), nu=U(rng, -2, 2), gamma=U(rng, 0.3, 3)))


def s_turrell(st, a, k):
    x, y, d = a["x"], a["y"], a["d"]
    b = 1 / np.arange(1, x.shape[1] + 1)
    nu, ga = k.get("nu", 0.0), k.get("gamma", 1.0)
    i = x @ b
    v = d - np.sinh(ga) / (2 * np.pi * (np.cosh(ga) - np.cos(i - nu)))
    e = y - k.get("theta", 0.5) * d - np.sin(i) ** 2
    st.dist(v, "d - m_0(x'b)")
    st.dist(e, "y - theta d - g_0(x'b)")
    for w in fx(x):
        st.mean0(w, "mean-x", "covariate mean")
        st.corr(v, w, 0, "treatment error and covariate")
        st.corr(e, w, 0, "outcome error and covariate")
    st.corr(v, e, 0, "treatment and outcome error")


def p_irm(rng):
    return dict(dim_x=int(rng.integers(1, 9)), **maybe(rng, theta=U(rng, -2, 2), R2_d=U(rng, 0.05, 0.8), R2_y=U(rng, 0.05, 0.8)))


def s_irm(st, a, k):
    x, y, d = a["x"], a["y"], a["d"]
    K = x.shape[1]
    S, b = top(0.5, K), 1 / np.arange(1, K + 1) ** 2
    st.cov(x, S)
    bsb = b @ S @ b
    rd, ry = k.get("R2_d", 0.5), k.get("R2_y", 0.5)
    cy, cd = np.sqrt(ry / ((1 - ry) * bsb)), np.sqrt(np.pi**2 / 3 * rd / ((1 - rd) * bsb))
    i = x @ b
    st.bern(d, expit(cd * i), fx(x) + [i**2], "treatment")
    e = y - k.get("theta", 0) * d - cy * i * d
    st.dist(e, "y - theta d - c_y x'beta d")
    for w in fx(x) + [d]:
        st.corr(e, w, 0, "outcome error and regressor")


def p_iivm(rng):
    return dict(dim_x=int(rng.integers(1, 9)), **maybe(rng, theta=U(rng, -2, 2), alpha_x=U(rng, -1, 2)))


def s_iivm(st, a, k):
    x, y, d, z = a["x"], a["y"], a["d"], a["z"]
    K = x.shape[1]
    st.cov(x, top(0.5, K))
    b = 1 / np.arange(1, K + 1) ** 2
    al = k.get("alpha_x", 0.2)
    u = y - k.get("theta", 1.0) * d - x @ b
    st.bern(z, 0.5, fx(x) + [u], "instrument")
    st.bern(d, stats.norm.cdf(al * z), fx(x) + [np.asarray(z, dtype=float)], "treatment")
    st.dist(u, "y - theta d - x'beta")
    # corr(u, v) = 0.3, v observed through its sign only
    st.mean0(u * d - 0.3 * stats.norm.pdf(al * z), "corr", "covariance of outcome error and treatment (0.3)")
    for w in fx(x):
        st.corr(u, w, 0, "outcome error and covariate")


def p_chs(rng):
    K = int(rng.integers(1, 9))
    return dict(dim_x=K, dim_z=int(rng.integers(1, K + 1)), **maybe(rng, alpha=U(rng, -2, 2)))


def s_chs(st, a, k):
    x, y, d, z = a["x"], a["y"], a["d"], a["z"]
    K, L = x.shape[1], z.shape[1]
    st.cov(x, top(0.5, K))
    zeta = z - x[:, :L]
    b, de = 1 / np.arange(1, K + 1) ** 2, 1 / np.arange(1, L + 1) ** 2
    u = d - x @ b - z @ de
    e = y - k.get("alpha", 1.0) * d - x @ b
    for j in range(min(L, 4)):
        st.dist(zeta[:, j], f"instrument error {j + 1}", 0.5)
        st.corr(zeta[:, j], u, 0, "instrument and treatment error")
        st.corr(zeta[:, j], e, 0, "instrument and outcome error")
        st.corr(zeta[:, j], x[:, j], 0, "instrument error and covariate")
        if j:
            st.corr(zeta[:, j], zeta[:, j - 1], 0, "two instrument errors")
    st.dist(u, "d - x'gamma - z'delta")
    st.dist(e, "y - alpha d - x'beta")
    st.corr(u, e, 0.6, "treatment and outcome error")
    for w in fx(x):
        st.corr(u, w, 0, "treatment error and covariate")
        st.corr(e, w, 0, "outcome error and covariate")


OM = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.5, 0.5), (0.25, 0.25), (0.1, 0.6), (0.7, 0.1)]


def p_ckms(rng):
    K = int(rng.integers(1, 6))
    om = lambda: list(OM[int(rng.integers(len(OM)))])  # noqa: E731
    vec = lambda: [U(rng, -1, 1) for _ in range(K)]  # noqa: E731
    return dict(dim_X=K, **maybe(rng, theta=U(rng, -2, 2), pi_10=U(rng, -2, 2), omega_X=om(), omega_epsilon=om(), omega_v=om(), omega_V=om(), s_X=U(rng, 0, 0.8), s_epsilon_v=U(rng, -0.7, 0.8),
                                 zeta_0=vec(), pi_20=vec(), xi_0=vec()))


def k_ckms(k):
    return {a: (np.array(v) if isinstance(v, list) else v) for a, v in k.items()}


def grid(v, N, M):
    return np.asarray(v, dtype=float).reshape(N, M)


def contrast(G):
    """interaction contrasts of disjoint 2 x 2 blocks: the row and column parts cancel"""
    N, M = G.shape
    N, M = N - N % 2, M - M % 2
    return (G[:N:2, :M:2] - G[1:N:2, :M:2] - G[:N:2, 1:M:2] + G[1:N:2, 1:M:2]).ravel()


def component(st, V, om, N, M, what, var=1.0):
    mon = st.mon
    w0, w1, w2 = 1 - om[0] - om[1], om[0], om[1]
    G = grid(V, N, M)
    sc = 1 + np.abs(G).max()
    c = contrast(G)
    if abs(w0) < 1e-9:
        mon.check(np.abs(c).max() < 1e-7 * sc, "cluster-structure", f"{st.g}: {what}: interaction part present although its weight is 0")
    else:
        st.dist(c, f"interaction contrast of {what}", 2 * abs(w0) * np.sqrt(var))
    if abs(w0) < 1e-9 and w2 == 0:
        mon.check(np.ptp(G, axis=1).max() < 1e-7 * sc, "cluster-structure", f"{st.g}: {what} varies within the first cluster")
    if abs(w0) < 1e-9 and w1 == 0:
        mon.check(np.ptp(G, axis=0).max() < 1e-7 * sc, "cluster-structure", f"{st.g}: {what} varies within the second cluster")
    for means, w, n, m, side in ((G.mean(axis=1), w1, N, M, "first"), (G.mean(axis=0), w2, M, N, "second")):
        s2 = (w**2 + w0**2 / m) * var
        if s2 < 1e-12:
            mon.check(np.ptp(means) < 1e-7 * sc, "cluster-structure", f"{st.g}: {what}: {side}-cluster means differ although their weight is 0")
            continue
        t = np.sum((means - means.mean()) ** 2) / s2
        q = stats.chi2(n - 1)
        mon.check(2 * min(q.cdf(t), q.sf(t)) > PMIN, "cluster-structure", f"{st.g}: {what}: variance of {side}-cluster means {t / (n - 1) * s2:.4g}, documented {s2:.4g}")
    tot = (w0**2 / (N * M) + w1**2 / N + w2**2 / M) * var
    mon.check(abs(G.mean()) < ZMAX * np.sqrt(tot), "mean-x", f"{st.g}: mean of {what} is {G.mean():.4g}")
    return c


def s_ckms(st, a, k):
    x, y, d, z, cv = a["x"], a["y"], a["d"], a["z"], a["cluster"]
    N, M, K = k["N"], k["M"], x.shape[1]
    st.mon.check(np.array_equal(cv, np.array([(i, j) for i in range(N) for j in range(M)])), "cluster-structure", f"{st.g}: cluster identifiers are not the N x M grid")
    half = np.power(0.5, np.arange(1, K + 1))
    g = lambda n, v: np.asarray(k.get(n, v), dtype=float)  # noqa: E731
    V = z - x @ g("xi_0", half)
    v = d - g("pi_10", 1.0) * z - x @ g("pi_20", half)
    e = y - g("theta", 1.0) * d - x @ g("zeta_0", half)
    o = {q: k.get("omega_" + q, (0.25, 0.25)) for q in ("X", "epsilon", "v", "V")}
    s = k.get("s_epsilon_v", 0.25)
    component(st, V, o["V"], N, M, "V")
    cv_, ce = component(st, v, o["v"], N, M, "v"), component(st, e, o["epsilon"], N, M, "epsilon")
    cx = [component(st, x[:, j], o["X"], N, M, f"X{j + 1}") for j in range(min(K, 3))]
    inter = lambda q: abs(1 - sum(o[q])) > 1e-9  # noqa: E731
    if inter("v") and inter("epsilon"):
        st.corr(cv_, ce, s, "interaction parts of v and epsilon")
    if inter("X"):
        for j in range(1, len(cx)):
            st.corr(cx[0], cx[j], float(k.get("s_X", 0.25)) ** j, "interaction parts of two covariates")
        if inter("V"):
            st.corr(cx[0], contrast(grid(V, N, M)), 0, "interaction parts of X and V")
    w = {q: (1 - sum(o[q]), o[q][0], o[q][1]) for q in o}
    for ax, n, m, pos, side in ((1, N, M, 1, "first"), (0, M, N, 2, "second")):
        mv, me = grid(v, N, M).mean(axis=ax), grid(e, N, M).mean(axis=ax)
        var = [w[q][pos] ** 2 + w[q][0] ** 2 / m for q in ("v", "epsilon")]
        if min(var) > 1e-12:
            rho = s * (w["v"][pos] * w["epsilon"][pos] + w["v"][0] * w["epsilon"][0] / m) / np.sqrt(var[0] * var[1])
            st.corr(mv, me, rho, f"{side}-cluster means of v and epsilon")


def p_did(rng):
    return dict(dgp_type=int(rng.integers(1, 7)), cross_sectional_data=bool(rng.random() < 0.5), **maybe(rng, xi=U(rng, 0.2, 1.2), c=float(rng.choice([0.0, 0.0, U(rng, 0, 0.6)])), lambda_t=U(rng, 0.1, 0.9)))


_Z3 = []


def unmap(z):
    """X (up to the sampling error of the standardisation) from the returned Z; valid for c = 0"""
    if not _Z3:
        t, w = np.polynomial.hermite_e.hermegauss(60)
        w = w / w.sum()
        W = w[:, None] * w[None, :]
        h = (0.6 + t[:, None] * t[None, :] / 25) ** 3
        m3 = np.sum(W * h)
        _Z3.extend([m3, np.sqrt(np.sum(W * h**2) - m3**2), np.sqrt(np.sum(w / (1 + np.exp(t)) ** 2))])
    m3, s3, s2 = _Z3
    m1, s1 = np.exp(0.125), np.sqrt(np.exp(0.25) * (np.exp(0.25) - 1))
    x1 = 2 * np.log(np.maximum(z[:, 0] * s1 + m1, 1e-3))
    x2 = z[:, 1] * s2 * (1 + np.exp(x1))
    x4 = np.sqrt(np.maximum(z[:, 3] * np.sqrt(3208.0) + 402.0, 0)) - 20 - x2
    x3 = 25 * (np.cbrt(z[:, 2] * s3 + m3) - 0.6) / x1
    return np.column_stack((x1, x2, x3, x4))


def s_did(st, a, k):
    z, y, d, t = a["x"], a["y"], a["d"], a.get("t")
    mon, n, typ = st.mon, len(y), k["dgp_type"]
    mon.close(z.mean(axis=0), np.zeros(4), "identity", f"{st.g}: Z is not centred", atol=1e-8)
    mon.close(z.std(axis=0), np.ones(4), "identity", f"{st.g}: Z is not scaled")
    x = unmap(z) if k.get("c", 0.0) == 0 else None
    if x is not None:
        st.dist(x[:, 0], "X1 behind Z1")
        inner = np.abs(x[:, 0]) > 0.5
        for j in (1, 2, 3):
            r = x[inner, j]
            mon.check(abs(r.mean()) < 0.1 and abs(r.std() - 1) < 0.1, "cov-x", f"{st.g}: X{j + 1} behind Z has mean {r.mean():.3g}, sd {r.std():.3g}")
    if t is not None:
        st.bern(t, k.get("lambda_t", 0.5), fx(z, 4) + [d], "time")
    xi = k.get("xi", 0.75)
    fps = lambda w: xi * (-w[:, 0] + 0.5 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3])  # noqa: E731
    if typ >= 5:
        st.bern(d, 0.5, fx(z, 4), "treatment (experimental)")
    elif typ in (1, 3):
        st.bern(d, expit(fps(z)), fx(z, 4), "treatment")
    elif x is not None:
        p = expit(fps(x))
        for w in [np.ones(n)] + fx(x, 4):
            w = w * inner
            q, se = np.mean((d - p) * w), np.sqrt(np.mean(p * (1 - p) * w**2) / n)
            mon.check(abs(q) < ZMAX * se + 0.01, "bernoulli", f"{st.g}: treatment does not follow p(X) (mean {q:.3g}, se {se:.2g})")
    mult = (1 + t) + d if t is not None else np.ones(n)
    if typ in (1, 2, 5):
        e = y - mult * freg(z)
        st.dist(e, "outcome error", np.sqrt(2))
        for w in fx(z, 4) + [d] + ([t] if t is not None else []):
            st.corr(e, w, 0, "outcome error and regressor")
    elif x is not None:
        D = np.column_stack((np.ones(n), x))[inner] * np.asarray(mult)[inner, None]
        co, *_ = np.linalg.lstsq(D, y[inner], rcond=None)
        ref = np.array([210, 27.4, 13.7, 13.7, 13.7])
        mon.check(np.all(np.abs(co - ref) < 0.08 * ref), "resid-dist", f"{st.g}: regression of the outcome on X gives {np.round(co, 2)} instead of {ref}")


def p_cirm(rng):
    return dict(linear=bool(rng.random() < 0.4), var_eps_y=U(rng, 0.2, 6), **maybe(rng, theta=U(rng, -3, 3), gamma_a=U(rng, -0.4, 0.4), beta_a=U(rng, -2, 2), trimming_threshold=U(rng, 0.001, 0.2)))


ORA_IRM = {"g_long", "g_short", "m_long", "m_short", "gamma_a", "beta_a", "a", "y_0", "y_1", "z", "cf_y", "cf_d_ate", "cf_d_atte", "rho_ate", "rho_atte"}


def s_cirm(st, r, k):
    mon = st.mon
    x, y, d, o = r["x"], r["y"], r["d"], r["oracle_values"]
    idn = lambda got, ref, what, **kw: mon.close(got, ref, "identity", f"{st.g}: {what}", **kw)  # noqa: E731
    mon.check(set(o) >= ORA_IRM, "columns", f"{st.g}: oracle values {sorted(o)}")
    th, ga, be, thr = k.get("theta", 0.0), k.get("gamma_a", 0.127), k.get("beta_a", 0.58), k.get("trimming_threshold", 0.01)
    mon.check(o["gamma_a"] == ga and o["beta_a"] == be, "identity", f"{st.g}: returned coefficients differ from the given ones")
    if len(y) > 4000:
        st.cov(x, np.eye(5))
        st.dist(o["a"], "confounder A", kind=(-1, 1))
        for w in fx(x, 5):
            st.mean0(w * o["a"], "corr", "covariate and confounder")
    z = zmap(x)
    idn(o["z"], z, "Z is not the documented transformation of X", rtol=1e-6, atol=1e-8)
    w = x if k["linear"] else z
    p = expit(0.75 * (-w[:, 0] + 0.1 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3]))
    g = 2.5 + 0.74 * w[:, 0] + 0.25 * w[:, 1] + 0.137 * (w[:, 2] + w[:, 3])
    A = o["a"]
    ml = p + ga * A
    mon.check(np.all(np.abs(A) <= 1), "support", f"{st.g}: confounder outside [-1, 1]")
    if np.any(ml < thr) or np.any(ml > 1 - thr):
        ml, p = np.clip(ml, thr, 1 - thr), np.clip(p, thr, 1 - thr)
        mon.count("trimmed")
    idn(o["m_long"], ml, "long propensity")
    idn(o["m_short"], p, "short propensity")
    st.bern(d, ml, fx(x) + [A], "treatment")
    d1 = z[:, 4] + 1
    if k["linear"] and not np.allclose(o["y_1"] - o["y_0"], th * d1):
        d1 = x[:, 4] + 1
    idn(o["y_1"] - o["y_0"], th * d1, "individual effect theta (Z5 + 1)", atol=1e-8)
    idn(y, np.where(d == 1, o["y_1"], o["y_0"]), "observed outcome is not the potential outcome of the realised treatment")
    idn(o["g_long"], th * d * d1 + g + be * A, "long regression", atol=1e-8)
    idn(o["g_short"], (th + be * ga / 3 / np.var(d * d1)) * d * d1 + g, "short regression", atol=1e-8)
    e = y - o["g_long"]
    if len(y) > 4000:
        st.dist(e, "y - E[Y|D,X,A]", np.sqrt(k["var_eps_y"]))
        for q in fx(x) + [d, A]:
            st.corr(e, q, 0, "outcome error and regressor")
    gd = o["g_long"] - o["g_short"]
    idn(o["cf_y"], np.mean(gd**2) / np.mean((y - o["g_short"]) ** 2), "cf_y")
    iv = lambda m: np.mean(1 / (m * (1 - m)))  # noqa: E731
    od = lambda m: np.mean(m / (1 - m))  # noqa: E731
    idn(o["cf_d_ate"], 1 - iv(p) / iv(ml), "cf_d for the ATE")
    idn(o["cf_d_atte"], 1 - od(p) / od(ml), "cf_d for the ATTE")
    if be * ga != 0 and 0 < d.mean() < 1:
        ra = lambda m: d / m - (1 - d) / (1 - m)  # noqa: E731
        rt = lambda m: (d - (1 - d) * m / (1 - m)) / d.mean()  # noqa: E731
        idn(o["rho_ate"], np.corrcoef(gd, ra(ml) - ra(p))[0, 1], "rho for the ATE", atol=1e-7)
        idn(o["rho_atte"], np.corrcoef(gd, rt(ml) - rt(p))[0, 1], "rho for the ATTE", atol=1e-7)


def p_cplr(rng):
    return dict(**maybe(rng, theta=U(rng, -3, 8), cf_y=U(rng, 0.01, 0.3), cf_d=U(rng, 0.01, 0.3), c=U(rng, 0, 0.6), dim_x=int(rng.integers(4, 8))))


def s_cplr(st, r, k):
    mon = st.mon
    x, y, d, o = r["x"], r["y"], r["d"], r["oracle_values"]
    idn = lambda got, ref, what, **kw: mon.close(got, ref, "identity", f"{st.g}: {what}", **kw)  # noqa: E731
    mon.check(set(o) >= {"g_long", "g_short", "m_long", "m_short", "theta", "gamma_a", "beta_a", "a", "z"}, "columns", f"{st.g}: oracle values {sorted(o)}")
    th, A, ga, be = k.get("theta", 5.0), o["a"], o["gamma_a"], o["beta_a"]
    mon.check(o["theta"] == th, "identity", f"{st.g}: returned theta {o['theta']}")
    z = zmap(x)
    idn(np.asarray(o["z"])[:, :4], z[:, :4], "Z is not the documented transformation of X", rtol=1e-6, atol=1e-8)
    ms = -z[:, 0] + 0.5 * z[:, 1] - 0.25 * z[:, 2] - 0.1 * z[:, 3]
    idn(o["m_short"], ms, "short treatment regression", atol=1e-8)
    idn(o["m_long"], ms + ga * A, "long treatment regression", atol=1e-8)
    g = freg(z)
    idn(o["g_long"], th * d + g + be * A, "long outcome regression")
    idn(o["g_short"], (th + ga * be / 3 / np.var(d)) * d + g, "short outcome regression")
    mon.check(np.all(np.abs(A) <= 1), "support", f"{st.g}: confounder outside [-1, 1]")
    ed, ey = d - o["m_long"], y - o["g_long"]
    if len(y) > 4000:
        st.cov(x, top(k.get("c", 0.0), x.shape[1]))
        st.dist(A, "confounder A", kind=(-1, 1))
        st.dist(ed, "d - E[D|X,A]", 1.0)
        st.dist(ey, "y - E[Y|D,X,A]", np.sqrt(5))
        st.corr(ed, ey, 0, "treatment and outcome error")
        for w in fx(x) + [A]:
            st.corr(ed, w, 0, "treatment error and regressor")
            st.corr(ey, w, 0, "outcome error and regressor")
        rs = (ga * A + ed) / (ga**2 / 3 + 1)
        cd = (np.mean(ed**2) - np.mean(rs**2)) / np.mean(ed**2)
        mon.check(abs(cd - k.get("cf_d", 0.04)) < 2e-3, "identity", f"{st.g}: in-sample cf_d {cd:.4g}, requested {k.get('cf_d', 0.04)}")
        gd = o["g_long"] - o["g_short"]
        cy = np.mean(gd**2) / np.mean((ey + gd) ** 2)
        mon.check(abs(cy - k.get("cf_y", 0.04)) < 2e-3, "identity", f"{st.g}: in-sample cf_y {cy:.4g}, requested {k.get('cf_y', 0.04)}")


def p_het(rng):
    p = int(rng.integers(2, 12))
    return dict(p=p, support_size=int(rng.integers(0, min(p, 6) + 1)), n_x=int(rng.integers(1, 3)), binary_treatment=bool(rng.random() < 0.5))


def s_het(st, r, k):
    mon = st.mon
    df, te = r["data"], np.asarray(r["effects"])
    x, y, d = df.iloc[:, 2:].to_numpy(), df["y"].to_numpy(), df["d"].to_numpy()
    f = lambda v: np.exp(2 * v[:, 0]) + 3 * np.sin(4 * v[:, 0 if k["n_x"] == 1 else 1])  # noqa: E731
    mon.check(np.all((x >= 0) & (x <= 1)), "support", f"{st.g}: covariates outside [0, 1]")
    mon.close(te, f(x), "identity", f"{st.g}: effects are not theta_0(x)")
    v = np.random.default_rng(1).uniform(size=(17, x.shape[1]))
    mon.close(r["treatment_effect"](v), f(v), "identity", f"{st.g}: returned effect function is not theta_0")
    mon.check(np.isin(d, [0, 1]).all() == k["binary_treatment"] or len(d) < 3, "support", f"{st.g}: treatment support")
    if len(y) < 4000:
        return
    for j in range(min(4, x.shape[1])):
        st.dist(x[:, j], f"X_{j}", kind=(0, 1))
    D = np.column_stack((np.ones(len(y)), x))
    H = np.linalg.inv(D.T @ D)
    sig = set()
    for lhs, hi, what in ((y - te * d, 1.0, "outcome"), ((2 * d - 1) if k["binary_treatment"] else d, 0.3, "treatment")):
        co = H @ (D.T @ lhs)
        res = lhs - D @ co
        se = np.sqrt(np.diag(H)) * res.std()
        mon.check(abs(co[0]) < ZMAX * se[0], "resid-dist", f"{st.g}: {what} equation has an intercept {co[0]:.4g}")
        mon.check(np.all(co[1:] > -ZMAX * se[1:]) and np.all(co[1:] < hi + ZMAX * se[1:]), "resid-dist", f"{st.g}: {what} coefficients {np.round(co[1:], 3)} outside [0, {hi}]")
        t = set(np.flatnonzero(co[1:] > ZMAX * se[1:]))
        sig |= t
        if what == "outcome" or not k["binary_treatment"]:
            # least squares moves the bounds by the estimation error only
            p = stats.kstest((res + 1) / 2, "uniform").pvalue
            mon.check(np.abs(res).max() < 1 + 3 * ZMAX * se.max() * np.sqrt(len(co)) and p > PMIN and abs(res.var() - 1 / 3) < 0.03, "resid-dist", f"{st.g}: {what} error is not U[-1, 1] (KS p={p:.2g}, variance {res.var():.3g})")
    mon.check(len(sig) <= k["support_size"], "resid-dist", f"{st.g}: {len(sig)} relevant covariates, support size {k['support_size']}")


def p_ssm(rng):
    return dict(dim_x=int(rng.integers(1, 9)), mar=bool(rng.random() < 0.5), **maybe(rng, theta=U(rng, -2, 2)))


def s_ssm(st, a, k):
    x, y, d, z, s = a["x"], a["y"], a["d"], a["z"], a["s"]
    K = x.shape[1]
    st.cov(x, top(0.5, K))
    b = 0.4 / np.arange(1, K + 1) ** 2
    i = x @ b
    ga = 0 if k["mar"] else 1
    st.mon.check(np.all(y[np.asarray(s) == 0] == 0), "support", f"{st.g}: outcome of an unselected observation is not masked")
    st.dist(z, "instrument z")
    st.bern(d, stats.norm.cdf(i), fx(x) + [z], "treatment")
    idx = d + ga * z + i
    st.bern(s, stats.norm.cdf(idx), fx(x) + [z, np.asarray(d, dtype=float)], "selection")
    o = np.asarray(s) == 1
    u = (y - k.get("theta", 1) * d - i)[o]
    if k["mar"]:
        st.dist(u, "outcome error among the selected")
    else:
        u = u - 0.8 * stats.norm.pdf(idx[o]) / stats.norm.cdf(idx[o])
    for w in fx(x) + [z, np.asarray(d, dtype=float), np.ones(len(y))]:
        st.mean0(u * w[o], "corr", "outcome error among the selected and regressor")


def p_disc(rng):
    return dict(n_levels=int(rng.integers(2, 7)), linear=bool(rng.random() < 0.5), **maybe(rng, xi=U(rng, -0.5, 1), c=U(rng, 0, 0.6), dim_x=int(rng.integers(4, 8)), random_state=int(rng.choice([0, 1, 42, int(rng.integers(10**6))]))))


def s_disc(st, r, k):
    mon = st.mon
    x, y, d, o = r["x"], r["y"], r["d"], r["oracle_values"]
    L = k["n_levels"]
    mon.check(set(o) >= {"cont_d", "level_bounds", "potential_level", "ite", "y0"}, "columns", f"{st.g}: oracle values {sorted(o)}")
    cd, lb, pl = np.asarray(o["cont_d"]), np.asarray(o["level_bounds"]), np.asarray(o["potential_level"])
    idn = lambda got, ref, what, **kw: mon.close(got, ref, "identity", f"{st.g}: {what}", **kw)  # noqa: E731
    idn(lb, np.quantile(cd, np.linspace(0, 1, L + 1)), "level bounds are not the quantiles of the continuous treatment")
    idn(pl, 1 + np.sum(cd[:, None] >= lb[None, 1:-1], axis=1), "potential levels")
    mon.check(np.all((d == 0) | (d == pl)), "support", f"{st.g}: treatment is neither the baseline nor the potential level")
    mon.check(set(np.unique(d)) <= set(range(L + 1)), "support", f"{st.g}: treatment levels {np.unique(d)}")
    idn(y, o["y0"] + o["ite"] * (d > 0), "observed outcome")
    code = 15 * expit(cd + 1.2 * np.cos(cd)) - 2
    doc = (0.1 * np.exp(cd) + 10 * np.sin(0.7 * cd) + 2 * cd - 0.2 * cd**2)
    mon.check(np.allclose(o["ite"], code) or np.allclose(o["ite"], doc) or np.allclose(o["ite"], doc * (cd > 0)), "identity", f"{st.g}: individual effects are not the effect curve at the continuous treatment")
    if len(y) < 4000:
        return
    st.cov(x, top(k.get("c", 0.0), x.shape[1]))
    w = x if k["linear"] else zmap(x)
    ed = cd - k.get("xi", 0.3) * (-w[:, 0] + 0.5 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3])
    ey = o["y0"] - freg(w)
    st.dist(ed, "continuous treatment error", 1.0)
    st.dist(ey, "outcome error", np.sqrt(5))
    st.corr(ed, ey, 0, "treatment and outcome error")
    for q in fx(x):
        st.corr(ed, q, 0, "treatment error and covariate")
        st.corr(ey, q, 0, "outcome error and covariate")
    st.bern(1.0 * (d == 0), 1 / L, fx(x) + [cd, ey], "baseline level")
    for lev in range(1, L + 1):
        st.bern(1.0 * (pl == lev), 1 / L, [], "potential level")


def p_rdd(rng):
    return dict(p=int(rng.integers(0, 6)), fuzzy=bool(rng.random() < 0.5), binary_outcome=bool(rng.random() < 0.35),
                **maybe(rng, cutoff=U(rng, -1, 1), dim_x=int(rng.integers(1, 6)), a=U(rng, -1, 1), tau=U(rng, -2, 3)))


def s_rdd(st, r, k):
    mon = st.mon
    sc, X, Y, D, o = (np.asarray(r["score"]), np.asarray(r["X"]), np.asarray(r["Y"]), np.asarray(r["D"]), r["oracle_values"])
    mon.check(X.shape == (len(Y), k.get("dim_x", 3)), "columns", f"{st.g}: X has shape {X.shape}")
    mon.check(np.all(np.abs(X) <= 1), "support", f"{st.g}: covariates outside [-1, 1]")
    mon.close(Y, np.where(D == 1, o["Y1"], o["Y0"]), "identity", f"{st.g}: observed outcome is not the potential outcome of the realised treatment")
    T = (sc >= k.get("cutoff", 0.0)).astype(int)
    if not k["fuzzy"]:
        mon.check(np.array_equal(D, T), "identity", f"{st.g}: sharp treatment is not 1{{score >= cutoff}}")
    if k["p"] == 0:
        gc = np.zeros(len(Y))
    else:
        gc = sum(j * X**j for j in range(k["p"] + 1)).sum(axis=1)
    g0 = 0.1 * sc**2
    g1 = k.get("tau", 1.0) + 0.1 * sc**2 - 0.5 * sc**2 + k.get("a", 0.0) * X.sum(axis=1) * sc
    feats = [sc, X[:, 0], gc]
    if k["binary_outcome"]:
        st.bern(o["Y0"], expit(g0 + gc), feats, "binary outcome without treatment")
        st.bern(o["Y1"], expit(g1 + gc), feats, "binary outcome with treatment")
    else:
        e0, e1 = o["Y0"] - g0 - gc, o["Y1"] - g1 - gc
        if len(Y) > 4000:
            st.dist(e0, "error without treatment", 0.2)
            st.dist(e1, "error with treatment", 0.2)
            st.corr(e0, e1, 0, "two outcome errors")
            for w in feats[:2]:
                st.corr(e0, w, 0, "outcome error and regressor")
                st.corr(e1, w, 0, "outcome error and regressor")
        else:
            mon.check(max(np.abs(e0).max(), np.abs(e1).max()) < 0.2 * 9, "resid-dist", f"{st.g}: outcome errors too large")
    st.bern(D, D, [], "treatment")
    if k["fuzzy"]:
        pr = np.clip(0.3 + 0.4 * T + 0.01 * sc**2 - 0.02 * sc**2 * T + 0.2 * gc, 0, 1)
        mon.check(np.all(D[pr <= 0] == 0) and np.all(D[pr >= 1] == 1), "support", f"{st.g}: treatment drawn against a certain assignment")
        st.bern(D, pr, feats + [1.0 * T], "treatment")
    if len(Y) > 4000:
        st.dist(sc, "score")
        for j in range(min(3, X.shape[1])):
            st.dist(X[:, j], f"X{j + 1}", kind=(-1, 1))
            st.mean0(X[:, j] * sc, "corr", "score and covariate")


def xy(k, n_x="X", zc=(), extra=()):
    return [f"{n_x}{i + 1}" for i in range(k)] + ["y", "d"] + list(zc) + list(extra)


# name: (function, parameters, sample monitor, parts of the array tuple, default number of columns)
TAB = {
    "make_plr_CCDDHNR2018": (ds.make_plr_CCDDHNR2018, p_ccddhnr, s_ccddhnr, ["x", "y", "d"]),
    "make_plr_turrell2018": (ds.make_plr_turrell2018, p_turrell, s_turrell, ["x", "y", "d"]),
    "make_irm_data": (ds.make_irm_data, p_irm, s_irm, ["x", "y", "d"]),
    "make_iivm_data": (ds.make_iivm_data, p_iivm, s_iivm, ["x", "y", "d", "z"]),
    "make_pliv_CHS2015": (ds.make_pliv_CHS2015, p_chs, s_chs, ["x", "y", "d", "z"]),
    "make_pliv_multiway_cluster_CKMS2021": (ds.make_pliv_multiway_cluster_CKMS2021, p_ckms, s_ckms, ["x", "y", "d", "cluster", "z"]),
    "make_did_SZ2020": (ds.make_did_SZ2020, p_did, s_did, ["x", "y", "d", "t"]),
    "make_ssm_data": (ds.make_ssm_data, p_ssm, s_ssm, ["x", "y", "d", "z", "s"]),
}
DICT = {
    "make_confounded_irm_data": (ds.make_confounded_irm_data, p_cirm, s_cirm),
    "make_confounded_plr_data": (ds.make_confounded_plr_data, p_cplr, s_cplr),
    "make_heterogeneous_data": (ds.make_heterogeneous_data, p_het, s_het),
    "make_irm_data_discrete_treatments": (ds.make_irm_data_discrete_treatments, p_disc, s_disc),
    "make_simple_rdd_data": (make_simple_rdd_data, p_rdd, s_rdd),
}
ALL = list(TAB) + list(DICT)
P = np.array([2.5 if g in ("make_did_SZ2020", "make_pliv_multiway_cluster_CKMS2021", "make_simple_rdd_data", "make_ssm_data") else 1.5 for g in ALL])


def gen(rng, tier):
    while True:
        u = rng.random()
        g = str(rng.choice(ALL, p=P / P.sum()))
        if u < 0.08:
            yield dict(kind="fetch", which=str(rng.choice(["bonus", "bonus", "401K"])), n=int(rng.integers(30, 200)), poly=bool(rng.random() < 0.5), seed=int(rng.integers(2**31)))
            continue
        k = (TAB.get(g) or DICT.get(g))[1](rng)
        seed = int(rng.integers(2**31))
        if u < 0.5:
            n = int(rng.choice([int(rng.integers(5, 40)), int(rng.integers(40, 400))]))
            if g == "make_pliv_multiway_cluster_CKMS2021":
                k.update(N=int(rng.integers(2, 20)), M=int(rng.integers(2, 20)))
            else:
                k["n_obs"] = n
            yield dict(kind="struct", g=g, k=k, seed=seed, rt=int(rng.integers(2**31)))
        else:
            if g == "make_pliv_multiway_cluster_CKMS2021":
                k.update(N=int(rng.integers(40, 140)), M=int(rng.integers(40, 140)))
            else:
                k["n_obs"] = int(rng.choice([6000, 12000, 20000]))
            yield dict(kind="sample", g=g, k=k, seed=seed)


def call(g, k, seed, **more):
    fn = (TAB.get(g) or DICT.get(g))[0]
    k = dict(k_ckms(k) if "ckms" in g.lower() else k, **more)
    if "random_state" not in k:
        np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(**k)


def as_parts(g, tup):
    return {n: v for n, v in zip(TAB[g][3], tup) if v is not None}


def flat(v):
    """comparable content of any generator result"""
    if isinstance(v, dict):
        return {f"{a}.{b}" if b else a: w for a, u in v.items() for b, w in flat(u).items()}
    if isinstance(v, tuple):
        return {f"{i}.{b}" if b else str(i): w for i, u in enumerate(v) for b, w in flat(u).items()}
    if isinstance(v, (dml.DoubleMLData, dml.DoubleMLClusterData)):
        return flat(v.data)
    if isinstance(v, pd.DataFrame):
        return {f"col:{c}": v[c].to_numpy() for c in v.columns}
    if callable(v) or v is None:
        return {}
    return {"": np.asarray(v)}


def same(mon, a, b, what):
    a, b = flat(a), flat(b)
    ok = a.keys() == b.keys() and all(a[q].shape == b[q].shape and np.array_equal(a[q], b[q], equal_nan=True) for q in a)
    mon.check(ok, "same-content", what)


def expected(g, parts, k):
    x = parts["x"]
    kx = x.shape[1]
    if "CKMS" in g:
        return ["cluster_var_i", "cluster_var_j"] + [f"X{i + 1}" for i in range(kx)] + ["Y", "D", "Z"], \
            np.column_stack((parts["cluster"], x, parts["y"], parts["d"], parts["z"]))
    if g == "make_did_SZ2020":
        c = xy(kx, "Z", extra=["t"] if k["cross_sectional_data"] else [])
        return c, np.column_stack([x, parts["y"], parts["d"]] + ([parts["t"]] if k["cross_sectional_data"] else []))
    if g == "make_ssm_data":
        c = xy(kx, extra=["s"] if k["mar"] else ["z", "s"])
        return c, np.column_stack([x, parts["y"], parts["d"]] + ([] if k["mar"] else [parts["z"]]) + [parts["s"]])
    z = []
    if "z" in parts:
        z = ["z"] if parts["z"].ndim == 1 else [f"Z{i + 1}" for i in range(parts["z"].shape[1])]
    return xy(kx, zc=z), np.column_stack([x, parts["y"], parts["d"]] + ([parts["z"]] if z else []))


def rows(g, k):
    return k["N"] * k["M"] if "CKMS" in g else k["n_obs"]


def width(g, k):
    """documented number of covariates"""
    return {"make_did_SZ2020": 4}.get(g) or k.get("dim_X", k.get("dim_x"))


def run(s, mon):
    {"struct": run_struct, "sample": run_sample, "fetch": run_fetch}[s["kind"]](s, mon)


def run_struct(s, mon):
    g, k, seed = s["g"], s["k"], s["seed"]
    rng = np.random.default_rng(s["rt"])
    n = rows(g, k)
    if g in DICT:
        r = call(g, k, seed)
        same(mon, r, call(g, k, seed), f"{g}: the same seed gives different data")
        if "random_state" not in k:
            other = flat(call(g, k, seed + 1))
            mon.check(any(not np.array_equal(v, other[q]) for q, v in flat(r).items() if v.size > 1), "seed-matters", f"{g}: a different seed gives the same data")
        else:
            np.random.seed(int(rng.integers(10**6)))
            same(mon, r, call(g, k, seed), f"{g}: random_state does not determine the data")
        if g == "make_heterogeneous_data":
            mon.check(list(r["data"].columns) == ["y", "d"] + [f"X_{i}" for i in range(k["p"])] and len(r["data"]) == n, "columns", f"{g}: {list(r['data'].columns)} {r['data'].shape}")
            mon.check(np.shape(r["effects"]) == (n,), "columns", f"{g}: effects {np.shape(r['effects'])}")
            bad = [dict(n_x=3), dict(n_x=0), dict(support_size=k["p"] + 1), dict(binary_treatment="yes")]
            mon.raises(lambda: call(g, dict(k, **bad[int(rng.integers(4))]), seed), "refused", f"{g}: invalid arguments")
        elif g == "make_simple_rdd_data":
            mon.check(set(r) >= {"score", "Y", "D", "X", "oracle_values"} and all(np.shape(r[q]) == (n,) for q in ("score", "Y", "D")), "columns", f"{g}: {[(q, np.shape(r[q])) for q in r]}")
        else:
            dx = {"make_confounded_irm_data": 5, "make_confounded_plr_data": k.get("dim_x", 4), "make_irm_data_discrete_treatments": k.get("dim_x", 5)}[g]
            mon.check(np.shape(r["x"]) == (n, dx) and np.shape(r["y"]) == (n,) and np.shape(r["d"]) == (n,), "columns", f"{g}: {[(q, np.shape(r[q])) for q in 'xyd']}, expected {n} x {dx}")
            if g == "make_irm_data_discrete_treatments":
                mon.raises(lambda: call(g, dict(k, n_levels=[1, 0, -2, 2.5, "3"][int(rng.integers(5))]), seed), "refused", f"{g}: invalid n_levels", exc=ValueError)
        if n >= 5:
            DICT[g][2](Stat(mon, g), r, k)
        mon.sig("struct", g, *sorted(q for q in k))
        return
    tup = call(g, k, seed, return_type="array")
    parts = as_parts(g, tup)
    mon.check(all(len(v) == n and np.all(np.isfinite(v)) for v in parts.values()), "columns", f"{g}: lengths {[(q, np.shape(v)) for q, v in parts.items()]}, expected {n} rows")
    mon.check(parts["x"].shape == (n, width(g, k)), "columns", f"{g}: x {parts['x'].shape}, requested {n} x {width(g, k)}")
    if g == "make_pliv_CHS2015":
        mon.check(parts["z"].shape == (n, k["dim_z"]), "columns", f"{g}: z {parts['z'].shape}")
    cols, ref = expected(g, parts, k)
    for rt in ARR[1:]:
        same(mon, tup, call(g, k, seed, return_type=rt), f"{g}: return_type={rt!r} gives other content than 'array'")
    other = as_parts(g, call(g, k, seed + 1, return_type="array"))
    mon.check(not np.array_equal(other["x"], parts["x"]), "seed-matters", f"{g}: a different seed gives the same covariates")
    for rt in FRM:
        df = call(g, k, seed, return_type=rt)
        ok = isinstance(df, pd.DataFrame) and list(df.columns) == cols and df.shape == ref.shape
        mon.check(ok, "columns", f"{g}: return_type={rt!r}: {type(df).__name__} {list(getattr(df, 'columns', []))} instead of {cols}")
        if ok:
            mon.check(np.array_equal(df.to_numpy(dtype=float), ref), "same-content", f"{g}: return_type={rt!r} gives other content than 'array'")
            mon.check(list(df.index) == list(range(n)), "columns", f"{g}: row labels are not 0..n-1")
    cluster = "CKMS" in g
    for rt in (CLU if cluster else DML) + [None]:
        obj = call(g, k, seed) if rt is None else call(g, k, seed, return_type=rt)
        cls = dml.DoubleMLClusterData if cluster else dml.DoubleMLData
        if not mon.check(isinstance(obj, cls), "roles", f"{g}: return_type={rt!r} gives {type(obj).__name__}"):
            continue
        mon.check(np.array_equal(obj.data[cols].to_numpy(dtype=float), ref), "same-content", f"{g}: data object ({rt!r}) differs from 'array'")
        mon.check(np.array_equal(obj.x, parts["x"]) and np.array_equal(obj.y, parts["y"]) and np.array_equal(obj.d, parts["d"]), "roles", f"{g}: roles of the data object do not carry x, y, d")
        mon.check(obj.n_obs == n and len(obj.d_cols) == 1, "roles", f"{g}: n_obs {obj.n_obs}")
        if cluster:
            mon.check(np.array_equal(obj.cluster_vars, parts["cluster"]) and np.array_equal(np.ravel(obj.z), parts["z"]), "roles", f"{g}: cluster variables or instrument")
        elif g == "make_ssm_data":
            mon.check(np.array_equal(obj.s, parts["s"]) and (obj.z is None if k["mar"] else np.array_equal(np.ravel(obj.z), parts["z"])), "roles", f"{g}: selection or instrument role")
        elif g == "make_did_SZ2020":
            mon.check(obj.t is None if not k["cross_sectional_data"] else np.array_equal(obj.t, parts["t"]), "roles", f"{g}: time role")
            mon.check(obj.z is None, "roles", f"{g}: unexpected instrument")
        elif "z" in parts:
            mon.check(np.array_equal(np.asarray(obj.z).reshape(n, -1), parts["z"].reshape(n, -1)), "roles", f"{g}: instrument role")
        else:
            mon.check(obj.z is None, "roles", f"{g}: unexpected instrument")
    bad = ["matrix", "dataframe", "DoubleML", ""][int(rng.integers(4))]
    mon.raises(lambda: call(g, k, seed, return_type=bad), "refused", f"{g}: return_type={bad!r}", exc=ValueError)
    if g == "make_did_SZ2020":
        mon.raises(lambda: call(g, dict(k, dgp_type=[0, 7, "1", 1.5][int(rng.integers(4))]), seed), "refused", f"{g}: dgp_type", exc=ValueError)
        mon.check((tup[3] is None) == (not k["cross_sectional_data"]), "columns", f"{g}: time part of the array result")
    if g == "make_pliv_CHS2015":
        mon.raises(lambda: call(g, dict(k, dim_z=k["dim_x"] + 1), seed), "refused", f"{g}: more instruments than covariates")
    for q in ("d", "s", "t", "z"):
        if q in parts and (g, q) in {("make_irm_data", "d"), ("make_iivm_data", "d"), ("make_iivm_data", "z"), ("make_did_SZ2020", "d"), ("make_did_SZ2020", "t"), ("make_ssm_data", "d"), ("make_ssm_data", "s")}:
            mon.check(np.isin(parts[q], [0, 1]).all(), "support", f"{g}: {q} takes values outside {{0, 1}}")
    if g == "make_ssm_data":
        mon.check(np.all(parts["y"][parts["s"] == 0] == 0), "support", f"{g}: outcome of an unselected observation is not masked")
    # noiseless design: the equations hold exactly
    if g == "make_plr_CCDDHNR2018":
        kk = dict(k, s_1=0.0, s_2=0.0)
        x, y, d = call(g, kk, seed, return_type="array")
        m = kk.get("a_0", 1.0) * x[:, 0] + kk.get("a_1", 0.25) * expit(x[:, 2])
        mon.close(d, m, "identity", f"{g}: treatment without noise")
        mon.close(y, kk.get("alpha", 0.5) * d + kk.get("b_0", 1.0) * expit(x[:, 0]) + kk.get("b_1", 0.25) * x[:, 2], "identity", f"{g}: outcome without noise")
    mon.sig("struct", g, *sorted(q for q in k))


def run_sample(s, mon):
    g, k, seed = s["g"], s["k"], s["seed"]
    st = Stat(mon, g)
    if g in DICT:
        r = call(g, k, seed)
        DICT[g][2](st, r, k)
    else:
        rt = seed % 3
        if rt == 0:
            parts = as_parts(g, call(g, k, seed, return_type="array"))
        else:  # the same monitors on the data frame / data object
            v = call(g, k, seed, return_type="DataFrame") if rt == 1 else call(g, k, seed).data
            c = {q.lower(): v[q].to_numpy() for q in v.columns if q.lower() in "ydzst"}
            parts = dict(c, x=v[[q for q in v.columns if q[0] == ("Z" if g == "make_did_SZ2020" else "X")]].to_numpy())
            if "CKMS" in g:
                parts["cluster"] = v[["cluster_var_i", "cluster_var_j"]].to_numpy()
            if g == "make_pliv_CHS2015":
                parts["z"] = v[[q for q in v.columns if q[0] == "Z"]].to_numpy()
            if g == "make_ssm_data" and "z" not in parts:
                parts["z"] = as_parts(g, call(g, k, seed, return_type="array"))["z"]
        TAB[g][2](st, parts, k)
    mon.sig("sample", g, *[(q, k[q]) for q in ("dgp_type", "linear", "mar", "cross_sectional_data", "fuzzy", "binary_outcome", "binary_treatment", "n_x", "n_levels", "dim_x", "dim_X", "p") if q in k], *sorted(k))


# ---------------------------------------------------------------- the two data sets that are downloaded
def run_fetch(s, mon):
    rng = np.random.default_rng(s["seed"])
    n = s["n"]
    which = s["which"]
    if which == "bonus":
        raw = pd.DataFrame(dict(tg=rng.integers(0, 7, n), inuidur1=rng.integers(1, 50, n), dep=rng.integers(0, 3, n), abdt=rng.integers(10000, 11000, n)))
        raw.loc[:5, "dep"] = [0, 1, 2, 0, 1, 2]
        raw.loc[:5, "tg"] = [0, 0, 4, 4, 0, 4]
        for c in ["female", "black", "othrace", "q2", "q3", "q4", "q5", "q6", "agelt35", "agegt54", "durable", "lusd", "husd"]:
            raw[c] = rng.integers(0, 2, n)
        reader, fn, y, d = "read_csv", ds.fetch_bonus, "inuidur1", "tg"
        xs = ["female", "black", "othrace", "dep1", "dep2", "q2", "q3", "q4", "q5", "q6", "agelt35", "agegt54", "durable", "lusd", "husd"]
    else:
        xs = ["age", "inc", "educ", "fsize", "marr", "twoearn", "db", "pira", "hown"]
        raw = pd.DataFrame({c: rng.integers(0, 60, n) for c in xs})
        raw["net_tfa"] = rng.normal(size=n)
        raw["e401"] = rng.integers(0, 2, n)
        raw["p401"] = rng.integers(0, 2, n)
        reader, fn, y, d = "read_stata", ds.fetch_401K, "net_tfa", "e401"
    keep = raw.copy()
    seen = []
    orig = getattr(pd, reader)
    setattr(pd, reader, lambda *a, **k: (seen.append(a), raw)[1])
    try:
        if which == "401K" and s["poly"]:
            mon.raises(lambda: fn("DataFrame", polynomial_features=True), "fetch", "fetch_401K accepts polynomial features", exc=NotImplementedError)
        poly = s["poly"] and which == "bonus"
        kw = dict(polynomial_features=True) if poly else {}
        try:
            df = fn("DataFrame", **kw)
            obj = fn("DoubleMLData", **kw)
            obj2 = fn(dml.DoubleMLData, **kw)
        except OSError:
            raise Skip("the data set is read in another way")
        mon.raises(lambda: fn("array", **kw), "fetch", f"fetch_{which} accepts return_type 'array'", exc=ValueError)
    finally:
        setattr(pd, reader, orig)
    if not seen:
        raise Skip("the data set is read in another way")
    mon.check(raw.equals(keep), "fetch", f"fetch_{which} changed the table it was given")
    if which == "bonus":
        ref = keep[keep["tg"].isin([0, 4])].reset_index(drop=True)
        t = ref["tg"].to_numpy() / 4.0
        yy = np.log(ref["inuidur1"].to_numpy())
        X = ref.assign(dep1=1.0 * (ref["dep"] == 1), dep2=1.0 * (ref["dep"] == 2))[xs].to_numpy(dtype=float)
    else:
        ref, t, yy = keep, keep["e401"].to_numpy(), keep["net_tfa"].to_numpy()
        X = keep[xs].to_numpy(dtype=float)
    mon.close(obj.y, yy, "fetch", f"fetch_{which}: outcome")
    mon.close(obj.d, t, "fetch", f"fetch_{which}: treatment")
    mon.check(list(obj.d_cols) == [d] and obj.y_col == y and obj.z is None, "fetch", f"fetch_{which}: roles {obj.y_col} {obj.d_cols}")
    if poly:
        k = len(xs)
        mon.check(len(obj.x_cols) == k + k * (k + 1) // 2, "fetch", f"fetch_bonus: {len(obj.x_cols)} polynomial features")
        mon.close(obj.x[:, :k], X, "fetch", "fetch_bonus: linear features")
        pos = {c: j for j, c in enumerate(xs)}
        for c, v in list(zip(obj.x_cols, obj.x.T))[k:]:
            a, b = (c[:-2], c[:-2]) if c.endswith("^2") else c.split(" ")
            mon.close(v, X[:, pos[a]] * X[:, pos[b]], "fetch", f"fetch_bonus: feature {c}")
    else:
        mon.check(list(obj.x_cols) == xs, "fetch", f"fetch_{which}: covariates {obj.x_cols}")
        mon.close(obj.x, X, "fetch", f"fetch_{which}: covariates")
    mon.check(df.equals(obj.data) and obj2.data.equals(obj.data), "fetch", f"fetch_{which}: return types differ")
    mon.sig("fetch", which, poly)
