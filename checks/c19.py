"""C19 composite models: DoubleMLAPOS and DoubleMLQTE against the single models fitted on the same folds with the same learners."""
import warnings

import joblib
import numpy as np
from scipy.stats import norm

from vlib import fitted, zoo
from vlib.oracle import ref_aggregate
from vlib.splits import user_splits

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 700
RULE = ("random composite (APOS: level lists and containers, weights, normalisation, trimming, external predictions per level; QTE: PQ / LPQ / CVaR, unsorted quantile lists, kernel density), "
        "splits drawn / redrawn / supplied / none, job counts, repeated fits, contrasts against one or several reference levels; every part is refitted as a single model on the composite's folds; "
        "distinct = distinct (composite, score, number of parts, options); non-trivial = composite and parts were fitted and compared")
FLOORS = {"ev:part-coef": 700, "ev:part-se": 700, "ev:part-psi": 300, "ev:joint-bootstrap": 300, "ev:contrast": 250, "ev:contrast-se": 250, "ev:labels": 400, "ev:contrast-bound": 150,
          "ev:contrast-bootstrap": 100, "ev:part-sensitivity": 100}
ASSUMPTIONS = ["spy learners are deterministic, so composite and separately fitted parts have to agree up to rounding"]
QUICK_BUDGET = 420


def my_kde(u, weights):
    w = np.ones(len(u)) if weights is None else weights
    h = 1.3 * np.std(u) * len(u) ** (-0.2)
    return np.sum(w * norm.pdf(u / h)) / np.sum(w) / h


def gen(rng, tier):
    while True:
        comp = "APOS" if rng.random() < 0.6 else "QTE"
        if comp == "APOS":
            s = zoo.draw_spec(rng, model="APO", allow_cluster=False)
            n_lv = int(rng.integers(1, s["levels"] + 1))
            lv = [int(v) for v in rng.permutation(s["levels"])[:n_lv]]
            sp = dict(comp=comp, s=s, levels=lv, cont=str(rng.choice(["list", "tuple", "array", "float"])), ext=bool(rng.random() < 0.2))
            if n_lv == 1 and rng.random() < 0.5:
                sp["cont"] = "scalar"
            sp["refs"] = [int(v) for v in rng.permutation(lv)[: int(rng.integers(1, n_lv + 1))]]
        else:
            model = str(rng.choice(["PQ", "LPQ", "CVAR"]))
            s = zoo.draw_spec(rng, model=model, allow_cluster=False, max_rep=2)
            nq = int(rng.integers(1, 4))
            q = [float(v) for v in rng.permutation(np.array([0.25, 0.35, 0.5, 0.6, 0.75]))[:nq]]
            sp = dict(comp=comp, s=s, quantiles=q, cont=str(rng.choice(["list", "array", "tuple"])), kde=bool(rng.random() < 0.4))
        sp["split"] = str(rng.choice(["drawn", "redraw", "user", "user_drop", "late"] + (["none"] if comp == "APOS" else [])))
        if sp["split"] == "none":
            s["n_rep"] = 1
            if s.get("weights") == "dict":
                s["weights"] = "vec"
        sp["jobs"] = [None if rng.random() < 0.6 else 2, None if rng.random() < 0.7 else 2]
        sp["refit"] = int(rng.integers(1, 3))
        sp["store"] = [bool(rng.random() < 0.7), bool(rng.random() < 0.3)]
        sp["n_boot"] = int(rng.integers(5, 40))
        sp["method"] = str(rng.choice(["normal", "wild", "Bayes"]))
        sp["seed"] = int(rng.integers(2**31 - 1))
        yield sp


def contain(v, kind):
    if kind == "array":
        return np.array(v)
    if kind == "tuple":
        return tuple(v)
    if kind == "float":
        return [float(x) for x in v]
    if kind == "scalar":
        return v[0]
    return list(v)


def run(sp, mon):
    s = sp["s"]
    rng = np.random.default_rng(sp["seed"])
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    weights = zoo.make_weights(s)
    L = zoo.make_learners(s, record=False)
    n = len(df)
    kw = dict(n_folds=s["n_folds"], n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"])
    if sp["split"] == "late":
        kw["draw_sample_splitting"] = False
    np.random.seed(sp["seed"] % 2**31)
    if sp["comp"] == "APOS":
        m = dml.DoubleMLAPOS(data, L["ml_g"], L["ml_m"], treatment_levels=contain(sp["levels"], sp["cont"]), weights=weights, **kw)
        parts = sp["levels"]
    else:
        score = {"PQ": "PQ", "LPQ": "LPQ", "CVAR": "CVaR"}[s["model"]]
        m = dml.DoubleMLQTE(data, L["ml_g"], L["ml_m"], quantiles=contain(sp["quantiles"], sp["cont"]), score=score, kde=my_kde if sp["kde"] else None, **kw)
        parts = sp["quantiles"]
    if sp["split"] in ("user", "user_drop", "late"):
        m.set_sample_splitting(user_splits(rng, fitted.strata_of(df), s["n_rep"], s["n_folds"], 0.1 if sp["split"] == "user_drop" else 0.0))
    elif sp["split"] == "redraw":
        m.draw_sample_splitting()
    elif sp["split"] == "none":
        m.set_sample_splitting((np.arange(n), np.arange(n)))
    ext = None
    if sp.get("ext"):
        ext = {}
        for lv in sp["levels"]:
            if rng.random() < 0.6:
                ext[lv] = {k: rng.uniform(0.2, 0.8, size=(n, s["n_rep"])) for k in ("ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m") if rng.random() < 0.6}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with joblib.parallel_backend("threading"):
            for i in range(sp["refit"]):
                if i and sp["split"] == "redraw":
                    m.draw_sample_splitting()
                m.fit(n_jobs_models=sp["jobs"][0], n_jobs_cv=sp["jobs"][1], store_predictions=sp["store"][0], store_models=sp["store"][1], external_predictions=ext)
        one = [fit_part(sp, s, data, L, weights, m.smpls, p, ext) for p in parts]
    what = f"{sp['comp']} {s.get('score')}"
    P = len(parts)
    R = s["n_rep"]
    # the parts
    th = np.array([o["theta"] for o in one])
    psi = np.stack([o["psi"] for o in one], axis=1)  # (n, P, R)
    se = np.sqrt(np.mean(psi**2, axis=0) / n)
    mon.close(m.all_coef, th, "part-coef", f"{what}: estimates per repetition differ from the single models", rtol=1e-9, atol=1e-11)
    mon.close(m.all_se, se, "part-se", f"{what}: standard errors per repetition differ from the single models", rtol=1e-8, atol=1e-11)
    ag = [ref_aggregate(th[j][None, :], se[j][None, :], n) for j in range(P)]
    ag = [(float(np.ravel(a)[0]), float(np.ravel(b)[0])) for a, b in ag]
    mon.close(m.coef, [a for a, _ in ag], "part-coef", f"{what}: estimates", rtol=1e-9, atol=1e-11)
    mon.close(m.se, [b for _, b in ag], "part-se", f"{what}: standard errors", rtol=1e-8, atol=1e-11)
    mon.close(m.framework.scaled_psi, psi, "part-psi", f"{what}: influence values", rtol=1e-7, atol=1e-9)
    mon.count("part-coef-values", th.size)
    # order and labels
    want = parts
    for nm, obj in (("summary", m.summary), ("confint", m.confint())):
        got = list(obj.index)
        ok = len(got) == P and all(float(g) == float(w) for g, w in zip(got, want))
        mon.check(ok, "labels", f"{what}: rows of {nm} are labelled {got} instead of {want}")
    mon.close(m.summary["coef"].values, m.coef, "labels", f"{what}: coefficient column of the summary", rtol=0, atol=0)
    if sp["comp"] == "APOS":
        mon.check([float(v) for v in m.treatment_levels] == [float(v) for v in parts] and m.n_treatment_levels == P, "labels", f"{what}: treatment_levels {m.treatment_levels}")
        mon.check(len(m.modellist) == P and all(float(a.treatment_level) == p for a, p in zip(m.modellist, parts)), "labels", f"{what}: order of the models")
    else:
        mon.check(np.array_equal(m.quantiles, parts) and m.n_quantiles == P, "labels", f"{what}: quantiles {m.quantiles}")
        for mm, tr in ((m.modellist_0, 0), (m.modellist_1, 1)):
            mon.check(len(mm) == P and all(a.quantile == p and a.treatment == tr for a, p in zip(mm, parts)), "labels", f"{what}: order of the models")
    for j in range(P):
        for mod, o in zip((m.modellist[j],) if sp["comp"] == "APOS" else (m.modellist_1[j], m.modellist_0[j]), one[j]["models"]):
            for key, v in o.nuisance_loss.items():
                mon.close(mod.nuisance_loss[key], v, "part-loss", f"{what} {key}: nuisance losses", rtol=1e-9, atol=1e-12)
    # stored predictions are those of the part
    if sp["store"][0]:
        for j in range(P):
            for mod, o in zip((m.modellist[j],) if sp["comp"] == "APOS" else (m.modellist_1[j], m.modellist_0[j]), one[j]["models"]):
                for key in o.predictions:
                    mon.close(mod.predictions[key], o.predictions[key], "part-predictions", f"{what} {key}: stored predictions", rtol=1e-10, atol=1e-12)
    joint(sp, mon, m, psi, se, n, what)
    if sp["comp"] == "APOS":
        contrasts(sp, s, mon, m, one, th, psi, n, what)
        for j in range(P):
            e0, e1 = one[j]["models"][0].sensitivity_elements, m.modellist[j].sensitivity_elements
            for k in e0:
                mon.close(e1[k], e0[k], "part-sensitivity", f"{what}: sensitivity element {k}", rtol=1e-8, atol=1e-10)
    mon.sig(sp["comp"], s.get("score"), P, sp["split"], sp["cont"], s["n_rep"], s.get("weights"), s["normalize_ipw"], sp.get("ext"), sp.get("kde"), str(sp["jobs"]), sp["refit"], str(sp["store"]), len(sp.get("refs", [])))
    mon.note = dict(coef=m.coef, se=m.se)


def fit_part(sp, s, data, L, weights, smpls, p, ext):
    kw = dict(n_folds=2, n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"], draw_sample_splitting=False)
    mods = []
    if sp["comp"] == "APOS":
        mods = [dml.DoubleMLAPO(data, L["ml_g"], L["ml_m"], treatment_level=p, weights=weights, **kw)]
    else:
        cls = zoo.CLASSES[s["model"]]
        extra = {} if s["model"] == "CVAR" else dict(kde=my_kde if sp["kde"] else None)
        mods = [cls(data, L["ml_g"], L["ml_m"], treatment=t, quantile=p, **extra, **kw) for t in (1, 0)]
    for mod in mods:
        mod.set_sample_splitting(smpls if len(smpls[0]) > 1 else smpls[0][0])
        e = None
        if ext is not None:
            e = {"d": dict(ext.get(p, {}))}
        mod.fit(external_predictions=e)
    sc = [(mod.all_coef[0], mod.psi[:, :, 0] / np.mean(mod.psi_deriv[:, :, 0], axis=0)) for mod in mods]
    if len(sc) == 1:
        th, psi = sc[0]
    else:
        th, psi = sc[0][0] - sc[1][0], sc[0][1] - sc[1][1]
    return dict(theta=th, psi=psi, models=mods)


def joint(sp, mon, m, psi, se, n, what):
    """one set of multipliers for all parts"""
    np.random.seed(sp["seed"] % 1000003)
    m.bootstrap(method=sp["method"], n_rep_boot=sp["n_boot"])
    B = m.boot_t_stat
    P, R = se.shape
    mon.check(B.shape == (sp["n_boot"], P, R), "bootstrap-shape", f"{what}: bootstrap statistics of shape {B.shape}")
    if B.shape != (sp["n_boot"], P, R):
        return
    np.random.seed(sp["seed"] % 1000003)
    f0 = m.modellist[0].framework if sp["comp"] == "APOS" else m.modellist_1[0].framework - m.modellist_0[0].framework
    f0.bootstrap(method=sp["method"], n_rep_boot=sp["n_boot"])
    mon.close(B[:, 0, :], f0.boot_t_stat[:, 0, :], "joint-bootstrap", f"{what}: first part's bootstrap statistics under the same seed", rtol=1e-8, atol=1e-10)
    # every part alone under the same seed draws the same multipliers
    for r in range(R):
        if P > 1:
            outs = []
            for j in range(P):
                np.random.seed(sp["seed"] % 1000003)
                f = m.modellist[j].framework if sp["comp"] == "APOS" else m.modellist_1[j].framework - m.modellist_0[j].framework
                f.bootstrap(method=sp["method"], n_rep_boot=sp["n_boot"])
                outs.append(f.boot_t_stat[:, 0, r])
            mon.close(B[:, :, r], np.column_stack(outs), "joint-bootstrap", f"{what}: the parts do not share their multipliers (repetition {r})", rtol=1e-8, atol=1e-10)
    ci = m.confint(joint=True, level=0.9)
    mx = np.max(np.abs(B), axis=1)  # (n_boot, R)
    crit = np.quantile(mx, 0.9, axis=0)
    lo = np.array([[m.all_coef[j, r] - crit[r] * se[j, r] for r in range(R)] for j in range(P)])
    hi = np.array([[m.all_coef[j, r] + crit[r] * se[j, r] for r in range(R)] for j in range(P)])
    mon.close(ci.values, np.column_stack([np.median(lo, axis=1), np.median(hi, axis=1)]), "joint-ci", f"{what}: simultaneous intervals", rtol=1e-8, atol=1e-10)


def contrasts(sp, s, mon, m, one, th, psi, n, what):
    P = len(sp["levels"])
    if P == 1:
        mon.raises(lambda: m.causal_contrast(sp["levels"][0]), "contrast-refused", "contrast with a single level", exc=ValueError)
        return
    mon.raises(lambda: m.causal_contrast(99), "contrast-refused", "unknown reference level", exc=ValueError)
    refs = sp["refs"]
    arg = refs[0] if len(refs) == 1 and sp["seed"] % 2 else list(refs) if sp["seed"] % 3 else tuple(refs)
    before = m.all_coef.copy(), m.all_se.copy()
    acc = m.causal_contrast(arg)
    mon.check(np.array_equal(before[0], m.all_coef) and np.array_equal(before[1], m.all_se), "contrast-pure", f"{what}: computing contrasts changed the model")
    pairs, done = [], []
    for r in refs:
        for i, lv in enumerate(sp["levels"]):
            if lv == r or {lv, r} in done:
                continue
            done.append({lv, r})
            pairs.append((i, sp["levels"].index(r)))
    got = list(acc.treatment_names)
    want = [f"{m.treatment_levels[i]} vs {m.treatment_levels[j]}" for i, j in pairs]
    mon.check(got == want, "contrast-labels", f"{what}: contrasts {got} instead of {want}")
    if got != want:
        return
    dth = np.array([th[i] - th[j] for i, j in pairs])
    dps = np.stack([psi[:, i] - psi[:, j] for i, j in pairs], axis=1)
    dse = np.sqrt(np.mean(dps**2, axis=0) / n)
    mon.close(acc.all_thetas, dth, "contrast", f"{what}: contrasts are not the differences of the level estimates", rtol=1e-8, atol=1e-10)
    mon.close(acc.all_ses, dse, "contrast-se", f"{what}: standard errors of contrasts", rtol=1e-8, atol=1e-10)
    ag = [ref_aggregate(dth[k][None, :], dse[k][None, :], n) for k in range(len(pairs))]
    mon.close(acc.thetas, [float(np.ravel(a)[0]) for a, _ in ag], "contrast", f"{what}: aggregated contrasts", rtol=1e-8, atol=1e-10)
    mon.close(acc.ses, [float(np.ravel(b)[0]) for _, b in ag], "contrast-se", f"{what}: aggregated standard errors of contrasts", rtol=1e-8, atol=1e-10)
    ci = acc.confint(level=0.9)
    mon.check(list(ci.index) == want, "contrast-labels", f"{what}: rows of confint are {list(ci.index)} instead of {want}")
    # joint bootstrap of contrasts with common multipliers
    np.random.seed(sp["seed"] % 999983)
    acc.bootstrap(method=sp["method"], n_rep_boot=sp["n_boot"])
    B = acc.boot_t_stat
    for k, (i, j) in enumerate(pairs):
        f = m.modellist[i].framework - m.modellist[j].framework
        np.random.seed(sp["seed"] % 999983)
        f.bootstrap(method=sp["method"], n_rep_boot=sp["n_boot"])
        mon.close(B[:, k, :], f.boot_t_stat[:, 0, :], "contrast-bootstrap", f"{what}: bootstrap statistics of contrast {want[k]}", rtol=1e-8, atol=1e-10)
    # bias bounds of contrasts: product of the pooled outcome and riesz variance
    el = [o["models"][0].sensitivity_elements for o in one]
    if any(np.any(e["nu2"] <= 0) or np.any(~np.isfinite(e["nu2"])) for e in el):
        mon.count("bound-undefined")
        return
    cf_y, cf_d, rho = 0.05, 0.04, 0.7
    acc.sensitivity_analysis(cf_y=cf_y, cf_d=cf_d, rho=rho, level=0.9)
    par = acc.sensitivity_params
    for k, (i, j) in enumerate(pairs):
        s2 = (el[i]["sigma2"] + el[j]["sigma2"]).reshape(-1) / 2
        n2 = (el[i]["nu2"] + el[j]["nu2"]).reshape(-1)
        b = np.sqrt(s2 * n2) * np.sqrt(cf_y * cf_d / (1 - cf_d)) * rho
        lo, hi = np.median(dth[k] - b), np.median(dth[k] + b)
        mon.close([par["theta"]["lower"][k], par["theta"]["upper"][k]], [lo, hi], "contrast-bound", f"{what}: bias bounds of contrast {want[k]}", rtol=1e-7, atol=1e-9)

        db = (s2 * (el[i]["psi_nu2"] + el[j]["psi_nu2"])[:, :, 0] + n2 * (el[i]["psi_sigma2"] + el[j]["psi_sigma2"])[:, :, 0] / 2) / (2 * np.sqrt(s2 * n2))
        c = np.sqrt(cf_y * cf_d / (1 - cf_d)) * rho
        for nm, sg in (("lower", -1), ("upper", 1)):
            sb = np.sqrt(np.mean((dps[:, k] + sg * c * db) ** 2, axis=0) / n)
            _, want_se = ref_aggregate((dth[k] + sg * b)[None, :], sb[None, :], n)
            mon.close(par["se"][nm][k], float(np.ravel(want_se)[0]), "contrast-bound-se", f"{what}: standard error of the {nm} bound of contrast {want[k]}", rtol=1e-6, atol=1e-9)
