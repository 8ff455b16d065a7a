"""Independent reference computations.

Everything here is recomputed from the data frame, the public predictions and the public sample splits, following the
published score functions; nothing is imported from the package under test.
"""
import numpy as np
from scipy.stats import norm


def f64(a):
    return np.asarray(a, dtype=float)


def cols(df, names):
    return np.column_stack([f64(df[c]) for c in names])


def hajek(m, d):
    """IPW normalisation: rescale so that the inverse-probability weights average to one in each arm"""
    out = np.array(m, dtype=float)
    t, c = d == 1, d == 0
    out[t] = m[t] * np.mean(d / m)
    out[c] = 1 - (1 - m[c]) * np.mean((1 - d) / (1 - m))
    return out


def fold_mean(v, smpls):
    out = np.full(len(v), np.nan)
    for tr, te in smpls:
        out[te] = np.mean(v[tr])
    return out


def pred(model, key, r, k):
    a = model.predictions[key]
    return f64(a[:, r, k])


def ref_elements(s, df, roles, model, r, k, weights=None, callables=None, iivm_norm="z", ssm_norm="one"):
    """(psi_a, psi_b) of the linear scores; for PQ/LPQ a dict of elements plus a score function"""
    m = s["model"]
    y = f64(df[roles["y_col"]])
    dcol = roles["d_cols"][k]
    d = f64(df[dcol])
    n = len(y)
    smpls = model.smpls[r]
    P = lambda key: pred(model, key, r, k)  # noqa: E731
    thr = s.get("trimming_threshold", 1e-2)
    clip = (lambda a: np.clip(a, thr, 1 - thr)) if s.get("trimming_rule", "truncate") == "truncate" else (lambda a: a)

    if m == "PLR":
        if s["callable"]:
            return callables["PLR"](y, d, P("ml_l"), P("ml_m"), P("ml_g"), smpls)
        v = d - P("ml_m")
        if s["score"] == "partialling out":
            return -v * v, v * (y - P("ml_l"))
        return -v * d, v * (y - P("ml_g"))

    if m == "PLIV":
        if s["kind"] == "partialZ":
            rh = P("ml_r")
            return -rh * d, rh * y
        if s["kind"] == "partialXZ":
            mt = P("ml_r")
            w = d - mt
            dm = P("ml_m") - mt
            return -w * dm, dm * (y - P("ml_l"))
        Z = cols(df, roles["z_cols"])
        if Z.shape[1] == 1:
            z = Z[:, 0]
            v = z - P("ml_m")
            w = d - P("ml_r")
            if s["callable"]:
                return callables["PLIV"](y, z, d, P("ml_l"), P("ml_m"), P("ml_r"), P("ml_g"), smpls)
            if s["score"] == "partialling out":
                return -w * v, v * (y - P("ml_l"))
            return -v * d, v * (y - P("ml_g"))
        V = np.column_stack([Z[:, j] - P("ml_m_" + c) for j, c in enumerate(roles["z_cols"])])
        w = d - P("ml_r")
        A = np.column_stack([np.ones(n), V])
        beta, *_ = np.linalg.lstsq(A, w, rcond=None)
        rt = A @ beta
        return -w * rt, rt * (y - P("ml_l"))

    if m == "IRM":
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            mh = hajek(mh, d)
        g0, g1 = P("ml_g0"), P("ml_g1")
        if s["callable"]:
            return callables["IRM"](y, d, g0, g1, mh, smpls)
        w = np.ones(n) if weights is None else (weights["weights"] if isinstance(weights, dict) else weights)
        wb = w
        if isinstance(weights, dict):
            wb = weights["weights_bar"][:, r]
        if s["score"] == "ATTE":
            p = np.mean(w * d)
            wb = mh * w / p
            w = w * d / p
        psi_b = w * (g1 - g0) + wb * (d * (y - g1) / mh - (1 - d) * (y - g0) / (1 - mh))
        return -w / np.mean(w), psi_b

    if m == "APO":
        tr = (d == s["level"]).astype(float)
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            mh = hajek(mh, tr)
        g1 = P("ml_g_d_lvl1")
        w = np.ones(n) if weights is None else (weights["weights"] if isinstance(weights, dict) else weights)
        wb = weights["weights_bar"][:, r] if isinstance(weights, dict) else w
        return -w / np.mean(w), w * g1 + wb * tr * (y - g1) / mh

    if m == "IIVM":
        z = f64(df[roles["z_cols"][0]])
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            # the weights in this score are functions of the instrument; see finding iivm-normalize in known_findings.json
            mh = hajek(mh, z if iivm_norm == "z" else d)
        g0, g1, r0, r1 = P("ml_g0"), P("ml_g1"), P("ml_r0"), P("ml_r1")
        if s["callable"]:
            return callables["IIVM"](y, z, d, g0, g1, mh, r0, r1, smpls)
        aipw = lambda q, a0, a1: a1 - a0 + z * (q - a1) / mh - (1 - z) * (q - a0) / (1 - mh)  # noqa: E731
        return -aipw(d, r0, r1), aipw(y, g0, g1)

    if m == "DID":
        p = fold_mean(d, smpls)
        g0, g1 = P("ml_g0"), P("ml_g1")
        r0 = y - g0
        if s["score"] == "observational":
            mh = clip(P("ml_m"))
            if s["in_sample_normalization"]:
                pw = (1 - d) * mh / (1 - mh)
                return -d / np.mean(d), (d / np.mean(d) - pw / np.mean(pw)) * r0
            return -d / p, (d - mh) / (p * (1 - mh)) * r0
        if s["in_sample_normalization"]:
            q = np.mean(d)
            return -np.ones(n), g1 - g0 + d / q * (y - g1) - (1 - d) / (1 - q) * (y - g0)
        return -np.ones(n), g1 - g0 + d / p * (y - g1) - (1 - d) / (1 - p) * (y - g0)

    if m == "DIDCS":
        t = f64(df[roles["t_col"]])
        p, lam = fold_mean(d, smpls), fold_mean(t, smpls)
        G = {(a, b): P(f"ml_g_d{a}_t{b}") for a in (0, 1) for b in (0, 1)}
        I = {(a, b): ((d == a) & (t == b)).astype(float) for a in (0, 1) for b in (0, 1)}  # noqa: E741
        obs = s["score"] == "observational"
        odds = np.ones(n)
        if obs:
            mh = clip(P("ml_m"))
            odds = mh / (1 - mh)
        isn = s["in_sample_normalization"]
        reg = G[1, 1] - G[1, 0] - G[0, 1] + G[0, 0]
        psi_b = np.zeros(n)
        for (a, b), ind in I.items():
            sign = 1.0 if a == b else -1.0
            w = ind * (odds if (a == 0) else 1.0)
            if isn:
                w = w / np.mean(w)
            else:
                pt = lam if b == 1 else 1 - lam
                pd_ = p if (a == 1 or obs) else 1 - p
                w = w / (pd_ * pt)
            psi_b = psi_b + sign * w * (y - G[a, b])
        if obs:
            base = d / np.mean(d) if isn else d / p
        else:
            base = np.ones(n)
        return -base, psi_b + base * reg

    if m == "SSM":
        sel = f64(df[roles["s_col"]])
        mh = clip(P("ml_m"))
        pi = P("ml_pi")
        g0, g1 = P("ml_g_d0"), P("ml_g_d1")
        w1 = d * sel / (mh * pi)
        w0 = (1 - d) * sel / ((1 - mh) * pi)
        if s.get("normalize_ipw"):
            # see finding ssm-normalize in known_findings.json for the other variant
            w1 = w1 * (n if ssm_norm == "one" else np.sum(d)) / np.sum(w1)
            w0 = w0 * (n if ssm_norm == "one" else np.sum(1 - d)) / np.sum(w0)
        return -np.ones(n), w1 * (y - g1) + g1 - w0 * (y - g0) - g0

    if m == "CVAR":
        tau = s["treatment"]
        q = s["quantile"]
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            mh = hajek(mh, d)
        prop = mh if tau == 1 else 1 - mh
        tg = f64(model.nuisance_targets["ml_g"][:, r, k])
        pre = []
        for _, te in smpls:  # the preliminary quantile of a fold, recovered from its public targets
            i = te[~np.isnan(tg[te])]
            pre.append(tg[i][0] if np.ptp(tg[i]) < 1e-12 else np.max((y[i] - (1 - q) * tg[i]) / q))
        pq = np.mean(pre)
        gt = np.maximum(pq, (y - q * pq) / (1 - q))
        g = P("ml_g")
        return -np.ones(n), (d == tau) * (gt - g) / prop + g

    if m == "PQ":
        tau = s["treatment"]
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            mh = hajek(mh, d)
        prop = mh if tau == 1 else 1 - mh
        g = P("ml_g")
        ind = (d == tau).astype(float)
        sc = lambda th: ind * ((y <= th) - g) / prop + g - s["quantile"]  # noqa: E731
        return dict(score=sc, weights=ind / prop, y=y)

    if m == "LPQ":
        tau = s["treatment"]
        z = f64(df[roles["z_cols"][0]])
        mz = clip(P("ml_m_z"))
        if s.get("normalize_ipw"):
            mz = hajek(mz, z)
        r0, r1 = P("ml_m_d_z0"), P("ml_m_d_z1")
        cp = np.mean(r1 - r0 + z / mz * (d - r1) - (1 - z) / (1 - mz) * (d - r0))
        g0, g1 = P("ml_g_du_z0"), P("ml_g_du_z1")
        sg = 2 * tau - 1.0
        ind = (d == tau).astype(float)

        def sc(th):
            q = ind * (y <= th)
            return sg * (g1 - g0 + z / mz * (q - g1) - (1 - z) / (1 - mz) * (q - g0)) / cp - s["quantile"]

        return dict(score=sc, weights=sg * (z / mz - (1 - z) / (1 - mz)) * ind / cp, y=y)
    raise ValueError(m)


def ref_variants(s, df, roles, model, r, k, weights=None, callables=None):
    """the reference, and for the listed normalisation findings also the variant the code implements"""
    out = [ref_elements(s, df, roles, model, r, k, weights, callables)]
    if s["model"] == "IIVM" and s.get("normalize_ipw"):
        out.append(ref_elements(s, df, roles, model, r, k, weights, callables, iivm_norm="d"))
    if s["model"] == "SSM" and s.get("normalize_ipw"):
        out.append(ref_elements(s, df, roles, model, r, k, weights, callables, ssm_norm="share"))
    return out


def pick_variant(variants, psi, theta):
    """the variant closest to the observed score"""
    if len(variants) == 1:
        return variants[0]
    return min(variants, key=lambda v: np.max(np.abs(np.broadcast_to(v[0], psi.shape) * theta + v[1] - psi)))


def fold_clusters(df, roles, smpls):
    """per fold the distinct cluster values among the held-out rows, per cluster variable"""
    C = [df[c].values for c in roles["cluster_cols"]]
    return C, [[np.unique(c[te]) for c in C] for _, te in smpls]


def ref_theta(psi_a, psi_b, df, roles, smpls):
    n = len(psi_b)
    psi_a = np.broadcast_to(psi_a, (n,))
    if not roles["cluster_cols"]:
        return -np.mean(psi_b) / np.mean(psi_a)
    C, fc = fold_clusters(df, roles, smpls)
    a = b = 0.0
    for (_, te), cl in zip(smpls, fc):
        sc = 1.0 / np.prod([len(c) for c in cl])
        a += sc * np.sum(psi_a[te])
        b += sc * np.sum(psi_b[te])
    return -b / a


def agg_mean(v, df, roles, smpls):
    if not roles["cluster_cols"]:
        return np.mean(v)
    C, fc = fold_clusters(df, roles, smpls)
    tot = 0.0
    for (_, te), cl in zip(smpls, fc):
        tot += np.sum(v[te]) / np.prod([len(c) for c in cl])
    return tot


def ref_se(psi, deriv, df, roles, smpls):
    """sandwich standard error and the sample size it scales with; cluster-robust for one- and two-way clustering"""
    n = len(psi)
    deriv = np.broadcast_to(deriv, (n,))
    if not roles["cluster_cols"]:
        return np.sqrt(np.mean(psi**2) / np.mean(deriv) ** 2 / n), n
    C, fc = fold_clusters(df, roles, smpls)
    G = J = 0.0
    if len(C) == 1:
        c = C[0]
        for (_, te), (I,) in zip(smpls, fc):  # noqa: E741
            for v in I:
                G += np.sum(psi[c == v]) ** 2 / len(I)
            J += np.sum(deriv[te]) / len(I)
        K = len(smpls)
        G /= K
        J /= K
        N = len(np.unique(c))
    else:
        c1, c2 = C
        for (_, te), (I, L) in zip(smpls, fc):  # noqa: E741
            inI, inL = np.isin(c1, I), np.isin(c2, L)
            const = min(len(I), len(L)) / (len(I) * len(L)) ** 2
            for v in I:
                G += const * np.sum(psi[(c1 == v) & inL]) ** 2
            for v in L:
                G += const * np.sum(psi[(c2 == v) & inI]) ** 2
            J += np.sum(deriv[te]) / (len(I) * len(L))
        K = len(smpls)
        G /= K
        J /= K
        N = min(len(np.unique(c1)), len(np.unique(c2)))
    return np.sqrt(G / J**2 / N), N


def ref_aggregate(all_coef, all_se, N):
    """all_coef, all_se: (n_coef, n_rep); N scalar or array broadcastable"""
    c = np.median(all_coef, axis=1)
    v = all_se**2 + (all_coef - c[:, None]) ** 2 / N
    return c, np.sqrt(np.median(v, axis=1))


def pvals(t):
    return 2 * norm.sf(np.abs(t))
