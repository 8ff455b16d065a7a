"""C13 external predictions: round trips of a model's own predictions, foreign predictions against the reference formulas, and the learner calls."""
from collections import Counter

import numpy as np
from sklearn.model_selection import train_test_split

from vlib import fitted, spy, zoo
from vlib.core import Skip
from vlib.ops import own_predictions, quiet
from vlib.oracle import f64, pick_variant, ref_theta, ref_variants
from vlib.trace import keys_of, nuisance

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 3000
RULE = ("random configurations of every model class; a subset of (treatment, nuisance) pairs is supplied externally (the model's own predictions, or foreign ones) to a fresh model on the same splits; compared with the "
        "base fit / the documented formula while the learner calls are recorded; plus malformed and unsupported inputs and APOS with external levels; distinct = (model, options, mode, subset)")
FLOORS = {"ev:roundtrip:coef": 150, "ev:roundtrip:psi": 150, "ev:not-fitted": 300, "ev:still-fitted": 100, "ev:foreign-stored": 200, "ev:foreign-theta": 100, "ev:refused": 150, "ev:refused-state": 100,
          "ev:apos-level": 60, "ev:pq-threshold": 10}

UNSUPPORTED = ["CVAR", "SSM", "PLIVz", "PLIVxz", "QTE", "LPQpart"]


def gen(rng, tier):
    while True:
        u = rng.random()
        if u < 0.75:
            s = fitted.draw(rng, small=True, model=str(rng.choice(zoo.EXT_OK, p=[0.2, 0.15, 0.15, 0.11, 0.11, 0.09, 0.09, 0.06, 0.04])), max_rep=3)
            if s["split"] == "nosplit":
                s["split"] = "drawn"
            if s["model"] == "PLIV":
                s["kind"] = "std" if s["kind"] != "partialX" else "partialX"
                if s["n_instr"] > 1:
                    s["score"] = "partialling out"
                    s["callable"] = False
            mode = str(rng.choice(["own", "own", "foreign"]))
            yield dict(kind="model", s=s, mode=mode, frac=float(rng.choice([0.25, 0.5, 0.75, 1.0])), store_models=bool(rng.random() < 0.3), sub=int(rng.integers(2**31)))
        elif u < 0.84:
            s = fitted.draw(rng, small=True, model=str(rng.choice(zoo.EXT_OK[:7])), allow_cluster=False, max_rep=2)
            s["split"] = "drawn"
            yield dict(kind="malformed", s=s, sub=int(rng.integers(2**31)))
        elif u < 0.88:
            yield dict(kind="unsupported", which=str(rng.choice(UNSUPPORTED)), seed=int(rng.integers(2**31)))
        elif u < 0.96:
            s = zoo.draw_spec(rng, model="APO", small=True, allow_cluster=False)
            s["binary_y"] = s["g_clf"] = False
            s["split"] = "drawn"
            yield dict(kind="apos", s=s, sub=int(rng.integers(2**31)))
        else:
            s = fitted.draw(rng, model="PQ", allow_cluster=False, max_rep=2)
            s["split"] = str(rng.choice(["drawn", "user"]))
            s.pop("ctor", None)
            yield dict(kind="pq_threshold", s=s)


def base_tag(key):
    """the tag of the spy learner behind a nuisance key"""
    return key.split("_")[1].rstrip("01") if key.startswith("ml_") else key


def supplied_set(spec, keys, d_cols, s):
    rng = np.random.default_rng(spec["sub"])
    pairs = [(d, k) for d in d_cols for k in keys]
    if s["model"] == "LPQ":
        return set(pairs)
    pick = {p for p in pairs if rng.random() < spec["frac"]}
    if not pick:
        pick = {pairs[int(rng.integers(len(pairs)))]}
    return pick


def can_predict(s, key):
    return not (s["model"] == "IIVM" and (key == "ml_r0" and not s["always"] or key == "ml_r1" and not s["never"]))


def run(spec, mon):
    {"model": run_model, "malformed": run_malformed, "unsupported": run_unsupported, "apos": run_apos, "pq_threshold": run_pq}[spec["kind"]](spec, mon)


def fresh(s, c, record=True):
    """an unfitted model of the same configuration on the same splitting"""
    n = zoo.build_model(s, c.data, zoo.make_learners(s, record=record), c.weights)
    if s["cluster"]:
        n.set_sample_splitting([list(r) for r in c.model.smpls], all_smpls_cluster=[list(r) for r in c.model.smpls_cluster])
    else:
        n.set_sample_splitting([list(r) for r in c.model.smpls])
    return n


def fits_per_tag():
    return Counter(e["params"]["tag"] for e in spy.TRACE.fits())


def run_model(spec, mon):
    s = spec["s"]
    c = fitted.fit(s, record=True)
    m = c.model
    keys = [k for k in m.params_names]
    d_cols = c.roles["d_cols"]
    base = fits_per_tag()
    own = own_predictions(m, c.roles)
    pick = supplied_set(spec, keys, d_cols, s)
    rng = np.random.default_rng(spec["sub"] + 1)
    lazy_l = s["model"] == "PLR" and s["score"] == "IV-type" and not s["callable"]  # with g supplied, l is not needed
    ext = {}
    for k, d in enumerate(d_cols):
        for key in keys:
            if (d, key) not in pick:
                continue
            P = own[d][key].copy()
            if not np.all(np.isfinite(P)):
                pick.discard((d, key))
                continue
            if spec["mode"] == "foreign":
                if nuisance(s, c.df, c.roles, key, k)["trimmed"] or key in ("ml_m_z",) or s["model"] in ("PQ", "LPQ") or (s["model"] == "PLR" and key == "ml_m" and s.get("m_clf")):
                    P = np.clip(P + rng.normal(size=P.shape) * 0.15, 0.002, 0.998)
                else:
                    P = P + rng.normal(size=P.shape) * 0.3
            ext.setdefault(d, {})[key] = P
    if not ext:
        raise Skip("nothing to supply")
    spy.TRACE.clear()
    n = fresh(s, c)
    before = {d: {k: v.copy() for k, v in e.items()} for d, e in ext.items()}
    quiet(lambda: n.fit(external_predictions=ext, store_models=spec["store_models"]))
    now = fits_per_tag()
    mon.check(all(np.array_equal(ext[d][k], before[d][k]) for d in before for k in before[d]), "arguments-unchanged", f"{s['model']}: supplied predictions were modified")
    # learners behind supplied functions are not fitted, all others are
    shared = s["model"] == "PLR" and s["score"] == "IV-type" and not s["callable"] and not s.get("give_g", True)  # ml_g is a copy of ml_l then
    learner_tag = (lambda k: "l" if k == "ml_g" else base_tag(k)) if shared else base_tag  # noqa: E731
    tags = {learner_tag(k) for k in keys}
    for t in tags:
        mine = [(d, k) for d in d_cols for k in keys if learner_tag(k) == t and can_predict(s, k)]
        need = [p for p in mine if p not in pick]
        if lazy_l and t == "l":
            need = [p for p in need if (p[0], "ml_g") not in pick]
        if s["model"] in ("PQ", "LPQ"):
            if need:
                mon.check(now[t] == base[t], "still-fitted", f"{s['model']}: learner {t} fitted {now[t]} instead of {base[t]} times")
            else:
                mon.check(now[t] == 0, "not-fitted", f"{s['model']}: learner {t} was fitted {now[t]} times although its predictions were supplied for all", supplied=sorted(map(str, pick)))
            continue
        per = base[t] / max(1, len(mine))
        if not need:
            mon.check(now[t] == 0, "not-fitted", f"{s['model']}: learner {t} was fitted {now[t]} times although its predictions were supplied for all", supplied=sorted(map(str, pick)))
        elif len(need) < len(mine):
            mon.check(now[t] == per * len(need), "not-fitted", f"{s['model']}: learner {t} fitted {now[t]} times, expected {per * len(need)} ({len(need)} of {len(mine)} functions needed)", supplied=sorted(map(str, pick)))
        else:
            mon.check(now[t] == base[t], "still-fitted", f"{s['model']}: learner {t} fitted {now[t]} instead of {base[t]} times")
    quantile = s["model"] in ("PQ", "LPQ")
    if spec["mode"] == "own":
        # PQ: the root search starts from the preliminary estimates, which are not available if everything is supplied
        same = all(np.allclose(n.predictions[k], m.predictions[k], rtol=0, atol=1e-12, equal_nan=True) for k in keys) if not quantile else True
        if quantile:
            span = float(np.ptp(f64(c.df["y"])))
            for k, d in enumerate(d_cols):
                for r in range(m.n_rep):
                    partial_m = s["model"] == "PQ" and (d, "ml_m") in pick and (d, "ml_g") not in pick
                    if partial_m:  # the nested preliminary propensity comes from elsewhere: only the formula applies
                        continue
                    mon.check(any("root" in w for w in c.warn) or root_ok(s, c, n, k, r, span), "roundtrip:coef", f"{s['model']}: not a root of the score at the supplied predictions")
                    for key in keys:
                        mon.close(n.predictions[key][:, r, k], m.predictions[key][:, r, k], "roundtrip:predictions", f"{s['model']} {key}", rtol=0, atol=1e-12)
        else:
            # a nuisance trained on residuals of the others sees exactly the same inputs
            for a in ("all_coef", "all_se", "coef", "se"):
                mon.close(getattr(n, a), getattr(m, a), "roundtrip:" + a, f"{s['model']} {s.get('score')} {sorted(map(str, pick))[:6]}", rtol=1e-9, atol=1e-11)
            mon.close(n.psi, m.psi, "roundtrip:psi", f"{s['model']} {s.get('score')}", rtol=1e-8, atol=1e-9)
            for key in keys:
                g = n.predictions[key]
                for k, d in enumerate(d_cols):
                    if lazy_l and key == "ml_l" and (d, "ml_g") in pick and (d, "ml_l") not in pick:
                        continue
                    mon.close(g[:, :, k], m.predictions[key][:, :, k], "roundtrip:predictions", f"{s['model']} {key}", rtol=0, atol=1e-12)
            if m.sensitivity_elements is not None and not s["callable"]:
                for e, v in m.sensitivity_elements.items():
                    mon.close(n.sensitivity_elements[e], v, "roundtrip:sensitivity", f"{s['model']} {e}", rtol=1e-8, atol=1e-9)
            mon.check(same or lazy_l, "roundtrip:predictions-all", f"{s['model']}: predictions differ")
    else:
        for k, d in enumerate(d_cols):
            for key in keys:
                if (d, key) not in pick:
                    continue
                if not can_predict(s, key):
                    continue
                want = ext[d][key]
                if nuisance(s, c.df, c.roles, key, k)["trimmed"]:
                    want = np.clip(want, s["trimming_threshold"], 1 - s["trimming_threshold"])
                mon.close(n.predictions[key][:, :, k], want, "foreign-stored", f"{s['model']} {key}: stored prediction is not the supplied one", rtol=0, atol=1e-12)
            if quantile:
                continue
            for r in range(m.n_rep):
                ref = pick_variant(ref_variants(s, c.df, c.roles, n, r, k, c.weights, zoo.CALLABLES), n.psi[:, r, k], n.all_coef[k, r])
                th = ref_theta(ref[0], ref[1], c.df, c.roles, n.smpls[r])
                mon.close(n.all_coef[k, r], th, "foreign-theta", f"{s['model']} {s.get('score')}: estimate is not the formula at the supplied predictions", rtol=1e-7, atol=1e-9)
    if spec["store_models"] and n.models is not None:
        for key in keys:
            for d in d_cols:
                if (d, key) in pick and can_predict(s, key) and key in n.models:
                    mon.check(all(x is None for x in n.models[key][d]), "no-models", f"{s['model']} {key}: models stored for a supplied function")
    mon.sig(*fitted.signature(s), spec["mode"], len(pick), spec["store_models"])


def root_ok(s, c, n, k, r, span):
    from vlib.oracle import agg_mean

    ref = ref_variants(s, c.df, c.roles, n, r, k, c.weights, zoo.CALLABLES)[0]
    f = lambda x: agg_mean(ref["score"](x), c.df, c.roles, n.smpls[r])  # noqa: E731
    th = n.all_coef[k, r]
    y = np.sort(ref["y"])
    vals = np.array([f(v) for v in y])
    prev = np.concatenate([[f(y[0] - 1)], vals[:-1]])
    roots = y[np.sign(prev) != np.sign(vals)]
    gap = np.min(np.abs(roots - th)) if len(roots) else np.inf
    return gap < 1e-7 * (1 + span) or abs(f(th)) < 1e-12 or len(roots) == 0


def run_malformed(spec, mon):
    s = spec["s"]
    c = fitted.fit(s)
    m = c.model
    if s["model"] == "PLIV" and s["kind"] in ("partialZ", "partialXZ"):
        raise Skip("external predictions not supported")
    rng = np.random.default_rng(spec["sub"])
    d = c.roles["d_cols"][-1]
    keys = list(m.params_names)
    key = keys[int(rng.integers(len(keys)))]
    n, R = s["n_obs"], m.n_rep
    good = own_predictions(m, c.roles)
    good = {a: {b: v for b, v in e.items() if np.all(np.isfinite(v))} for a, e in good.items()}
    if key not in good[d]:
        raise Skip("no own predictions")
    P = good[d][key]

    def with_(e):
        g = {a: dict(b) for a, b in good.items()}
        g[d] = e
        return g

    bad = {
        "unknown treatment": {**good, "nope": {key: P}},
        "unknown learner": with_({**good[d], "ml_nope": P}),
        "too few rows": with_({**good[d], key: P[:-1]}),
        "transposed": with_({**good[d], key: P.T}),
        "one dimension": with_({**good[d], key: P[:, 0]}),
        "extra repetition": with_({**good[d], key: np.column_stack([P, P[:, :1]])}),
        "three dimensions": with_({**good[d], key: P[:, :, None]}),
        "list": with_({**good[d], key: P.tolist()}),
        "scalar": with_({**good[d], key: 0.5}),
        "not nested": {d: P},
        "not a dictionary": [good],
    }
    coef, se, psi, pred = m.coef.copy(), m.se.copy(), m.psi.copy(), {k: v.copy() for k, v in m.predictions.items()}
    for name in rng.permutation(list(bad))[:6]:
        mon.raises(lambda: quiet(lambda: m.fit(external_predictions=bad[name])), "refused", f"{s['model']}: external predictions ({name}, {key})", exc=(ValueError, TypeError))
        ok = m.coef is not None and np.array_equal(m.coef, coef) and np.array_equal(m.se, se) and np.array_equal(m.psi, psi, equal_nan=True)
        ok = ok and m.predictions is not None and all(np.array_equal(m.predictions[k], v, equal_nan=True) for k, v in pred.items())
        mon.check(ok, "refused-state", f"{s['model']}: refused external predictions ({name}) changed the results of the previous fit")
        mon.sig("malformed", s["model"], name)
    quiet(lambda: m.fit())
    mon.close(m.coef, coef, "refused-refit", f"{s['model']}: a fit without external predictions after a refused one", rtol=1e-9, atol=1e-11)


def run_unsupported(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    w = spec["which"]
    model = {"PLIVz": "PLIV", "PLIVxz": "PLIV", "QTE": "IRM", "LPQpart": "LPQ"}.get(w, w)
    s = zoo.draw_spec(rng, model=model, allow_cluster=False, allow_callable=False, small=True)
    s["split"] = "drawn"
    if w.startswith("PLIV"):
        s["kind"] = {"PLIVz": "partialZ", "PLIVxz": "partialXZ"}[w]
        s["score"] = "partialling out"
    n = s["n_obs"]
    if w == "QTE":
        s["binary_y"] = s["g_clf"] = False
        df, roles = zoo.make_frame(s)
        m = dml.DoubleMLQTE(zoo.make_data(s, df, roles), spy.SpyClf(record=False), spy.SpyClf(record=False), quantiles=[0.5], n_folds=2, n_rep=1)
        mon.raises(lambda: quiet(lambda: m.fit(external_predictions={"d": {"ml_m": np.full((n, 1), 0.5)}})), "unsupported", "QTE: external predictions", exc=(NotImplementedError, ValueError, TypeError))
    else:
        c = fitted.fit(s)
        m = c.model
        keys = list(m.params_names)
        own = own_predictions(m, c.roles)
        if w == "LPQpart":
            keep = {k for k in keys if rng.random() < 0.5} or {keys[0]}
            if keep == set(keys):
                keep.discard(keys[-1])
            own = {d: {k: v for k, v in e.items() if k in keep} for d, e in own.items()}
        mon.raises(lambda: quiet(lambda: m.fit(external_predictions=own)), "unsupported", f"{w}: external predictions", exc=(NotImplementedError, ValueError))
    mon.sig("unsupported", w)


def run_apos(spec, mon):
    s = spec["s"]
    rng = np.random.default_rng(spec["sub"])
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    L = zoo.make_learners(s)
    w = zoo.make_weights(s)
    levels = [int(x) for x in rng.permutation(s["levels"])[: int(rng.integers(2, s["levels"] + 1))]] if s["levels"] > 2 else [0, 1]
    kw = dict(treatment_levels=levels, n_folds=s["n_folds"], n_rep=s["n_rep"], trimming_threshold=s["trimming_threshold"], normalize_ipw=s["normalize_ipw"])
    if w is not None:
        kw["weights"] = w
    np.random.seed(s["seed"] % 2**31)
    a = dml.DoubleMLAPOS(data, L["ml_g"], L["ml_m"], **kw)
    quiet(lambda: a.fit())
    b = dml.DoubleMLAPOS(data, L["ml_g"], L["ml_m"], draw_sample_splitting=False, **kw)
    b.set_sample_splitting([list(r) for r in a.smpls])
    sup = [x for x in levels if rng.random() < 0.6] or [levels[-1]]
    ext, foreign = {}, bool(rng.random() < 0.4)
    for i, x in enumerate(levels):
        if x not in sup:
            continue
        P = a.modellist[i].predictions
        ks = [k for k in P if rng.random() < 0.7] or ["ml_m"]
        ext[x] = {}
        for k in ks:
            v = P[k][:, :, 0].copy()
            if foreign:
                v = np.clip(v + 0.1 * rng.normal(size=v.shape), 0.01, 0.99) if k == "ml_m" else v + rng.normal(size=v.shape)
            ext[x][k] = v
    quiet(lambda: b.fit(external_predictions=ext))
    for i, x in enumerate(levels):
        if foreign and x in ext:
            for k, v in ext[x].items():
                want = np.clip(v, s["trimming_threshold"], 1 - s["trimming_threshold"]) if k == "ml_m" else v
                mon.close(b.modellist[i].predictions[k][:, :, 0], want, "apos-level", f"level {x} {k}: not the supplied predictions", rtol=0, atol=1e-12)
            t = dict(s, level=x)
            for r in range(s["n_rep"]):
                ref = ref_variants(t, df, roles, b.modellist[i], r, 0, w)[0]
                mon.close(b.all_coef[i, r], ref_theta(ref[0], ref[1], df, roles, b.smpls[r]), "apos-theta", f"level {x}", rtol=1e-7, atol=1e-9)
        else:
            mon.close(b.coef[i], a.coef[i], "apos-level", f"level {x}: estimate", rtol=1e-9, atol=1e-11)
            mon.close(b.se[i], a.se[i], "apos-level", f"level {x}: se", rtol=1e-9, atol=1e-11)
            mon.close(b.framework.scaled_psi[:, i, :], a.framework.scaled_psi[:, i, :], "apos-psi", f"level {x}: scores", rtol=1e-8, atol=1e-9)
    coef = b.coef.copy()
    P = a.modellist[0].predictions["ml_m"][:, :, 0]
    for name, e in {"unknown level": {99: {"ml_m": P}}, "unknown learner": {levels[0]: {"ml_zz": P}}, "shape": {levels[0]: {"ml_m": P[:-2]}}, "not nested": {levels[0]: P}, "no dictionary": 3}.items():
        mon.raises(lambda: quiet(lambda: b.fit(external_predictions=e)), "refused", f"APOS {name}", exc=(ValueError, TypeError))
        mon.check(b.coef is not None and np.array_equal(b.coef, coef), "refused-state", f"APOS: refused external predictions ({name}) changed the previous results")
    mon.sig("apos", len(levels), len(sup), foreign, s["n_rep"], s.get("weights"))


def run_pq(spec, mon):
    """supplied propensities enter the nested preliminary quantile for the right observations"""
    s = dict(spec["s"], normalize_ipw=False, trimming_threshold=0.01, n_obs=900, n_folds=3, n_rep=3)
    s.pop("ctor", None)
    c = fitted.fit(s, record=False)
    y, d = f64(c.df["y"]), f64(c.df["d"])
    n = len(y)
    rank = np.argsort(np.argsort(y)) / n
    m_ext = np.column_stack([np.clip(0.15 + 0.7 * rank if r % 2 == 0 else 0.85 - 0.7 * rank, 0.02, 0.98) for r in range(c.model.n_rep)])
    b = fresh(s, c, record=True)
    spy.TRACE.clear()
    quiet(lambda: b.fit(external_predictions={"d": {"ml_m": m_ext}}))
    fits = [e for e in spy.TRACE.fits() if e["params"]["tag"] == "g"]
    tau, q = s["treatment"], s["quantile"]
    it = iter(fits)
    gap = []
    for r in range(b.n_rep):
        p = np.clip(m_ext[:, r], s["trimming_threshold"], 1 - s["trimming_threshold"])
        p = p if tau == 1 else 1 - p
        for tr, te in b.smpls[r]:
            e = next(it)
            t1, t2 = train_test_split(np.asarray(tr), test_size=0.5, random_state=42, stratify=d[tr])
            mon.check(set(e["uids"]) <= set(t2[d[t2] == tau]), "pq-rows", "g trained outside of the second half")
            # the threshold is the largest outcome labelled one
            yy = y[e["uids"]]
            one = e["y"] == 1
            if not one.any() or one.all():
                continue
            lo, hi = yy[one].max(), yy[~one].min()
            mon.check(lo < hi, "pq-monotone", "labels are no threshold")
            w = (d[t1] == tau) / p[t1]
            F = lambda th: np.mean(w * (y[t1] <= th)) - q  # noqa: E731
            # a root lies in [lo, hi): the weighted score must change its sign there up to one jump
            if np.mean(w) < q:  # no root exists
                continue
            gap.append(0.0 if F(lo) <= 0 <= F(hi) else min(abs(F(lo)), abs(F(hi))))
    if gap:  # the library's solver may stop on a plateau of the step function: judged over all folds
        mon.note["gap"] = float(np.median(gap))
        mon.check(np.median(gap) < 0.04, "pq-threshold", f"preliminary quantiles do not solve the weighted scores of their training halves (distances {np.round(gap, 3)})")
    mon.sig("pq", tau, q, s["n_rep"], s["n_folds"])
