"""C15 trimming and weight normalisation: propensities prescribed per observation are injected through learners and external
predictions; stored propensities and the scores they enter are compared with own clipping and normalisation."""
import numpy as np

from vlib import fitted, spy, zoo
from vlib.ops import quiet
from vlib.oracle import f64, hajek, ref_elements
from vlib.trace import keys_of

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 3500
MODELS = ["IRM", "IRM", "APO", "APO", "IIVM", "DID", "DIDCS", "SSM", "CVAR", "PQ", "LPQ"]
RULE = ("every model with a propensity, with propensities prescribed per observation (0, 1, the trimming bounds and their neighbours, values outside the unit interval as external predictions), "
        "thresholds 1e-3 to 0.45, normalisation on and off, composites; distinct = (model, options, source)")
FLOORS = {"ev:stored": 2800, "ev:score": 2800, "ev:normalized": 800, "ev:plain": 800, "ev:preliminary": 500, "ev:preliminary-all": 100, "ev:composite": 240, "ev:refused": 240, "trimmed-values": 20000, "kept-values": 20000}


def pinned():
    for model, n in (("IIVM", 40), ("SSM", 40)):
        rng = np.random.default_rng(n)
        s = fitted.draw(rng, model=model, small=True, splits=False, allow_cluster=False, allow_callable=False)
        s["normalize_ipw"] = True
        yield dict(kind="learner", s=s, seed=1, table=5)


def gen(rng, tier):
    while True:
        u = rng.random()
        m = str(rng.choice(MODELS))
        s = fitted.draw(rng, model=m, small=True, allow_cluster=bool(rng.random() < 0.3))
        if s["split"] == "nosplit":
            s["split"] = "user"
        if m in ("DID", "DIDCS"):
            s["score"], s["give_m"] = "observational", True
        if s["callable"]:
            s["normalize_ipw"] = s.get("normalize_ipw", False)
        s["trimming_threshold"] = float(rng.choice([1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.45]))
        base = dict(s=s, seed=int(rng.integers(2**31)), table=int(rng.integers(2**31)))
        if u < 0.6:
            yield dict(kind="learner", **base)
        elif u < 0.8 and m in zoo.EXT_OK and m != "CVAR":
            yield dict(kind="external", **base)
        elif u < 0.92:
            yield dict(kind="composite", which=str(rng.choice(["apos", "qte"])), seed=base["seed"], table=base["table"], thr=s["trimming_threshold"], norm=bool(rng.random() < 0.5), n_rep=int(rng.integers(1, 3)),
                       n=int(rng.integers(120, 220)), score=str(rng.choice(["PQ", "CVaR"])))
        else:
            yield dict(kind="refuse", m=m, seed=base["seed"], s=s)


def arm_means(s, df, roles, mh):
    d = f64(df[roles["z_cols"][0]]) if s["model"] in ("IIVM", "LPQ") else f64(df["d"])
    if s["model"] == "APO":
        d = (d == s["level"]).astype(float)
    a = hajek(mh, d)
    return np.mean(d / a), np.mean((1 - d) / (1 - a))


def observed_psi(m, s, r, ref):
    th = m.all_coef[0, r]
    return ref["score"](th) if isinstance(ref, dict) else np.broadcast_to(ref[0], len(m.psi)) * th + ref[1]


def judge_scores(mon, s, c, m, stored, thr):
    """stored: expected trimmed propensities, (n, n_rep)"""
    key = "ml_m_z" if s["model"] == "LPQ" else "ml_m"
    norm = bool(s.get("normalize_ipw"))
    for r in range(s["n_rep"]):
        got = m.psi[:, r, 0]
        args = (s, c.df, c.roles, m, r, 0, c.weights, zoo.CALLABLES)
        ref = ref_elements(*args)
        a = np.max(np.abs(got - observed_psi(m, s, r, ref)) / (1 + np.abs(got)))
        ok = a < 1e-8
        mon.count("ev:score")
        mon.count("ev:normalized" if norm else "ev:plain")
        if not ok and norm and s["model"] in ("IIVM", "SSM"):
            other = ref_elements(*args, **({"iivm_norm": "d"} if s["model"] == "IIVM" else {"ssm_norm": "share"}))
            if np.max(np.abs(got - observed_psi(m, s, r, other)) / (1 + np.abs(got))) < 1e-8:
                mon.fail("normalize-iivm-by-treatment" if s["model"] == "IIVM" else "normalize-ssm-to-share", "the inverse probability weights of the arms do not average to one")
                continue
        if not ok:
            mon.fail("score:" + s["model"], f"scores of repetition {r} are not those of the {'normalised' if norm else 'plain'} weights with threshold {thr} (largest relative difference {a:.3g})", key=key)
        if norm and s["model"] not in ("SSM",):
            mon.close(arm_means(s, c.df, c.roles, stored[:, r]), (1.0, 1.0), "arm-mean", "own normalised weights", rtol=1e-9)


def check_stored(mon, got, raw, thr, what, exact=True):
    want = np.clip(raw, thr, 1 - thr)
    mon.close(got, want, "stored", what, rtol=0, atol=0 if exact else 1e-15)
    mon.count("trimmed-values", int(np.sum(want != raw)))
    mon.count("kept-values", int(np.sum(want == raw)))
    mon.check(got.min() >= thr and got.max() <= 1 - thr, "band", f"{what}: outside the band of {thr}: {got.min()} {got.max()}")


def run_learner(spec, mon):
    s = spec["s"]
    thr = s["trimming_threshold"]
    T = spy.TableClf(seed=spec["table"], thr=thr)
    raw = spy.table_values(spec["table"], thr)[: s["n_obs"]]
    c = fitted.fit(s, record=True, learners={"ml_m": T})
    m = c.model
    mon.sig("learner", *fitted.signature(s), thr)
    key = "ml_m_z" if s["model"] == "LPQ" else "ml_m"
    R = s["n_rep"]
    for r in range(R):
        got = m.predictions[key][:, r, 0]
        if s["model"] == "LPQ":  # raw predictions are stored, trimmed ones are used
            mon.check(np.array_equal(got, raw) or np.array_equal(got, np.clip(raw, thr, 1 - thr)), "stored", f"LPQ: stored propensities are neither the predicted nor the trimmed ones, repetition {r}")
        else:
            check_stored(mon, got, raw, thr, f"{s['model']}: stored propensities of repetition {r}")
    judge_scores(mon, s, c, m, np.repeat(np.clip(raw, thr, 1 - thr)[:, None], R, axis=1), thr)
    if s["model"] in ("PQ", "CVAR"):
        preliminary(mon, s, c, m, raw, thr)
    if s["model"] in ("IRM", "APO") and not s["callable"] and m.sensitivity_elements is not None:
        # the norm of the Riesz representer uses the same weights
        d = f64(c.df["d"]) if s["model"] == "IRM" else (f64(c.df["d"]) == s["level"]).astype(float)
        for r in range(R):
            mh = np.clip(raw, thr, 1 - thr)
            if s["normalize_ipw"]:
                mh = hajek(mh, d)
            w = np.ones(len(d)) if c.weights is None else (c.weights["weights_bar"][:, r] if isinstance(c.weights, dict) else c.weights)
            if s["score"] == "ATTE":
                w = mh * w / np.mean(w * d)
            rr = w * (d / mh - (0 if s["model"] == "APO" else (1 - d) / (1 - mh)))
            mon.close(m.sensitivity_elements["riesz_rep"][:, r, 0] ** 2, rr**2, "riesz", f"squared Riesz representer of repetition {r}", rtol=1e-8)


def preliminary(mon, s, c, m, raw, thr):
    """the preliminary quantile of each fold solves the weighted quantile equation with trimmed (and normalised) weights"""
    y, d = f64(c.df["y"]), f64(c.df["d"])
    tau, q = s["treatment"], s["quantile"]
    p = np.clip(raw, thr, 1 - thr)
    p = p if tau == 1 else 1 - p
    fits = [e for e in spy.TRACE.fits() if e["params"].get("tag") == "g"]
    gaps = []
    for r in range(s["n_rep"]):
        tg = m.nuisance_targets["ml_g"][:, r, 0]
        for tr, te in m.smpls[r]:
            mine = [e for e in fits if np.isin(e["uids"], tr).all() and len(e["uids"]) < len(tr)]
            mine = [e for e in mine if len(np.setdiff1d(tr[d[tr] == tau], e["uids"])) > 0]
            i = te[d[te] == tau]
            if not len(i):
                continue
            if s["model"] == "CVAR":
                cand = [np.min(tg[i])]  # the floor of the targets, unless every outcome lies above it
                if np.ptp(tg[i]) > 0 and np.sum(np.isclose(tg[i], cand[0], rtol=0, atol=1e-12)) < 2:
                    continue
                lo = hi = cand[0]
            else:
                lo = np.max(y[i][tg[i] == 1], initial=-np.inf)
                hi = np.min(y[i][tg[i] == 0], initial=np.inf)
            # the outcome learner of this fold: trained on treated rows of the other half, with targets consistent with the quantile
            hit = []
            for e in mine:
                ye = y[e["uids"]]
                if s["model"] == "CVAR":
                    if np.allclose(e["y"], np.maximum(lo, (ye - q * lo) / (1 - q)), atol=1e-9):
                        hit.append((e, lo, hi))
                else:
                    l2, h2 = max(lo, np.max(ye[e["y"] == 1], initial=-np.inf)), min(hi, np.min(ye[e["y"] == 0], initial=np.inf))
                    if l2 < h2:
                        hit.append((e, l2, h2))
            if len(hit) != 1:
                mon.count("ambiguous")
                continue
            e, l2, h2 = hit[0]
            rows = np.setdiff1d(tr[d[tr] == tau], e["uids"])
            w = 1 / p[rows]
            n1 = len(tr) // 2
            tot = np.sum(w) if s["normalize_ipw"] else n1
            F = lambda t: np.sum(w[y[rows] <= t]) / tot - q  # noqa: E731
            # best achievable distance on this step function
            ys = np.sort(y[rows])
            best = min(min(abs(F(v)) for v in ys), abs(-q))
            vals = [F(v) for v in ys if l2 <= v < h2] + [F(l2) if np.isfinite(l2) else F(ys[0]), F(np.nextafter(h2, -np.inf)) if np.isfinite(h2) else F(ys[-1])]
            mon.count("ev:preliminary")
            jump = np.max(w) / tot
            gaps.append((min(abs(v) for v in vals) - best, jump))
    # the library minimises the step function approximately, so that single folds may be off, but not all of them
    if len(gaps) >= 4 and all(g > 0.02 + j for g, j in gaps):
        mon.fail("preliminary:" + s["model"], f"the preliminary quantiles of all {len(gaps)} folds miss the weighted equation, closest by {min(g for g, _ in gaps):.3f} (largest weights {[round(float(j), 3) for _, j in gaps]})")
    if len(gaps) >= 4:
        mon.count("ev:preliminary-all")


def run_external(spec, mon):
    s = spec["s"]
    thr = s["trimming_threshold"]
    rng = np.random.default_rng(spec["seed"])
    c0 = fitted.fit(dict(s))
    m0 = c0.model
    n, R = s["n_obs"], s["n_rep"]
    key = "ml_m_z" if s["model"] == "LPQ" else "ml_m"
    raw = np.column_stack([spy.table_values(spec["table"] + r, thr)[:n] for r in range(R)])
    out = rng.random((n, R)) < 0.05
    raw[out] = rng.choice([-0.5, 1.5, 0.0, 1.0, -1e-9], size=int(out.sum()))
    part = s["model"] not in ("LPQ",) and rng.random() < 0.5
    keys = [key] if part else keys_of(s, c0.roles)
    ext = {"d": {k: m0.predictions[k][:, :, 0].copy() for k in keys}}
    ext["d"][key] = raw.copy()
    quiet(lambda: m0.fit(external_predictions=ext))
    mon.sig("external", *fitted.signature(s), thr, part)
    for r in range(R):
        got = m0.predictions[key][:, r, 0]
        if s["model"] == "LPQ":
            mon.check(np.array_equal(got, raw[:, r]) or np.array_equal(got, np.clip(raw[:, r], thr, 1 - thr)), "stored", f"LPQ: stored propensities, repetition {r}")
        else:
            check_stored(mon, got, raw[:, r], thr, f"{s['model']}: stored external propensities of repetition {r}")
    mon.check(np.array_equal(ext["d"][key], raw), "argument", "the external propensities handed in were modified")
    judge_scores(mon, s, c0, m0, np.clip(raw, thr, 1 - thr), thr)


def run_composite(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    thr = spec["thr"]
    s = zoo.draw_spec(rng, model="APO" if spec["which"] == "apos" else "PQ", allow_cluster=False, allow_callable=False)
    s.update(binary_y=False, g_clf=False, n_rep=spec["n_rep"], levels=3, weights=None, n_folds=2)
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    raw = spy.table_values(spec["table"], thr)[: s["n_obs"]]
    T = spy.TableClf(seed=spec["table"], thr=thr, record=False)
    np.random.seed(s["seed"] % 2**31)
    want = np.clip(raw, thr, 1 - thr)
    mon.sig("composite", spec["which"], thr, spec["norm"], spec["score"])
    if spec["which"] == "apos":
        m = dml.DoubleMLAPOS(data, spy.SpyReg(record=False), T, treatment_levels=[2, 0, 1], n_folds=2, n_rep=s["n_rep"], normalize_ipw=spec["norm"], trimming_threshold=thr)
        quiet(m.fit)
        subs = [(x, dict(s, model="APO", level=lv, normalize_ipw=spec["norm"], trimming_threshold=thr)) for x, lv in zip(m.modellist, [2, 0, 1])]
    else:
        g = spy.SpyClf(record=False) if spec["score"] == "PQ" else spy.SpyReg(record=False)
        m = dml.DoubleMLQTE(data, g, T, quantiles=[0.4, 0.6], score=spec["score"], n_folds=2, n_rep=s["n_rep"], normalize_ipw=spec["norm"], trimming_threshold=thr)
        quiet(m.fit)
        k = "CVAR" if spec["score"] == "CVaR" else "PQ"
        subs = [(x, dict(s, model=k, treatment=t, quantile=q, normalize_ipw=spec["norm"], trimming_threshold=thr)) for t, lst in ((0, m.modellist_0), (1, m.modellist_1)) for x, q in zip(lst, [0.4, 0.6])]
    for sub, ss in subs:
        c = fitted.Ctx()
        c.df, c.roles, c.weights = df, roles, None
        mon.count("ev:composite")
        for r in range(s["n_rep"]):
            check_stored(mon, sub.predictions["ml_m"][:, r, 0], raw, thr, f"{spec['which']}: stored propensities")
        judge_scores(mon, ss, c, sub, np.repeat(want[:, None], s["n_rep"], axis=1), thr)


def run_refuse(spec, mon):
    s = spec["s"]
    rng = np.random.default_rng(spec["seed"])
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    L = zoo.make_learners(s, record=False)
    for bad in [dict(trimming_threshold=0.0), dict(trimming_threshold=0.5), dict(trimming_threshold=-0.1), dict(trimming_threshold=1.2), dict(trimming_threshold="0.1"), dict(trimming_threshold=1), dict(trimming_rule="discard"), dict(trimming_rule="drop"),
                dict(trimming_threshold=0.75)]:
        if rng.random() < 0.6:
            mon.raises(lambda: zoo.build_model(dict(s, **{k: v for k, v in bad.items()}), data, L, None), "refused", f"{s['model']} with {bad}", exc=(TypeError, ValueError))
    mon.sig("refuse", s["model"])


def run(spec, mon):
    {"learner": run_learner, "external": run_external, "composite": run_composite, "refuse": run_refuse}[spec["kind"]](spec, mon)
