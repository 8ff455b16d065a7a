"""C17 hyperparameters: histories of set_ml_nuisance_params / tune / resplit / fit with recording learners; every recorded fit is matched to the
nuisance, treatment, repetition and fold it belongs to, and every search is re-scored from the recorded candidate fits."""
import warnings

import joblib
import numpy as np
from sklearn.model_selection import ParameterGrid

from vlib import fitted, spy
from vlib.oracle import f64
from vlib.trace import TraceIndex, keys_of, nuisance, same_columns

LEVEL = "exploration"
N_QUICK = 520
RULE = ("two families: (set) random histories of set / overwrite / clear / resplit / refit operations, with settings given as a dict, a dict for part of the "
        "parameters or a nested list (first and last fold equal in a third of them) for a random subset of nuisance functions and treatments; (tune) tune() with random grids, "
        "criteria, grid or randomised search, on the whole sample or on folds, with and without set_as_params, earlier settings, followed by a fit. "
        "Distinct = distinct (family, model configuration, kinds of settings / tuning mode); non-trivial = at least one setting was expected in a recorded fit")
FLOORS = {"ev:fit-settings": 2500, "ev:stray-settings": 2500, "ev:tune-best": 700, "ev:tune-rows": 700, "ev:tune-target": 500, "ev:tune-reported": 250, "ev:refused": 150,
          "ev:tune-candidates": 700, "ev:tuned-settings-used": 1000}
ASSUMPTIONS = ["rows are identified through a row-id feature the learners do not use for fitting",
               "the sums of a search criterion over folds are compared up to 1e-9; ties may be resolved either way",
               "targets that need a preliminary estimate (IV-type ml_g, quantile and value-at-risk ml_g, partialXZ ml_r) are checked against the documented form with the crude preliminary value the code uses for tuning"]
QUICK_BUDGET = 420

LEARNER_OF = {"IRM": lambda k: k[:4], "DID": lambda k: k[:4], "DIDCS": lambda k: k[:4], "APO": lambda k: k[:4], "IIVM": lambda k: k[:4],
              "SSM": lambda k: "ml_g" if k.startswith("ml_g") else k, "PLIV": lambda k: "ml_m" if k.startswith("ml_m_") else k}
LPQ_TAG = {"ml_m_z": "m", "ml_m_d_z0": "m", "ml_m_d_z1": "m", "ml_g_du_z0": "g", "ml_g_du_z1": "g"}


def learner_name(model, key):
    return LEARNER_OF.get(model, lambda k: k)(key)


def gen(rng, tier):
    while True:
        fam = "tune" if rng.random() < 0.42 else "set"
        if fam == "set":
            s = fitted.draw(rng, tier)
            s["fam"] = fam
            s["n_ops"] = int(rng.integers(1, 6))
            s["refits"] = int(rng.integers(1, 3))
            s["n_jobs"] = None if rng.random() < 0.7 else 2
            s["store"] = bool(rng.random() < 0.5)
        else:
            s = fitted.draw(rng, tier, max_rep=2)
            while s["model"] == "LPQ" and rng.random() < 0.5:
                s = fitted.draw(rng, tier, max_rep=2)
            s["fam"] = fam
            if s["split"] == "nosplit":
                s["split"] = "drawn"
            s["on_folds"] = bool(rng.random() < 0.4)
            s["search"] = str(rng.choice(["grid_search", "grid_search", "randomized_search"]))
            s["scoring"] = str(rng.choice(["none", "none", "some", "all"]))
            s["set_as"] = bool(rng.random() < 0.75)
            s["n_folds_tune"] = int(rng.integers(2, 4))
            s["earlier"] = bool(rng.random() < 0.4)
            s["n_jobs"] = None if rng.random() < 0.75 else 2
            s["int_dtype"] = bool(rng.random() < 0.5)
            s["int_y"] = bool(s["model"] in ("PLR", "PLIV") and rng.random() < 0.5)
        yield s


def clean(p):
    return {k: v for k, v in p.items() if k != "record"}


def tag_of(s, key, learners):
    """the tag and base settings of the learner that is documented to estimate this nuisance"""
    m = s["model"]
    if m == "LPQ":
        key = "ml_" + LPQ_TAG[key]
    name = learner_name(m, key)
    if name not in learners and m == "PLR" and name == "ml_g":
        name = "ml_l"
    return learners[name]


# ---------------------------------------------------------------- settings
def draw_setting(rng, learner, n_rep, n_folds, serial):
    names = ["alpha", "scale"] if hasattr(learner, "scale") else ["alpha", "slope"]

    def vals(j):
        out = {}
        for q, nm in enumerate(names):
            out[nm] = float({"alpha": 2.0, "scale": 0.9, "slope": 0.8}[nm] * (1 + 0.01 * serial + 0.0007 * (j + 1) + 0.0003 * q))
        keep = rng.random()
        if keep < 0.35:
            out = {names[0]: out[names[0]]}
        elif keep < 0.5:
            out = {names[1]: out[names[1]]}
        return out

    kind = str(rng.choice(["dict", "folds", "folds", "folds_ends", "empty"], p=[0.35, 0.25, 0.15, 0.2, 0.05]))
    if kind == "dict":
        p = vals(0)
        return kind, p, [[p] * n_folds for _ in range(n_rep)]
    if kind == "empty":
        return kind, {}, [[{}] * n_folds for _ in range(n_rep)]
    full = [[vals(r * n_folds + f) for f in range(n_folds)] for r in range(n_rep)]
    if kind == "folds_ends":
        for rep in full:
            rep[-1] = dict(rep[0])
    return kind, full, full


def expected_params(learner, setting):
    p = clean(learner.get_params())
    p.update(setting or {})
    return p


def fit(c, mon, n_jobs=None, store=False):
    spy.TRACE.clear()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with joblib.parallel_backend("threading"):
            c.model.fit(n_jobs_cv=n_jobs, store_models=store)
    return list(spy.TRACE.events)


def check_fits(c, s, mon, events, want, mech, store=False):
    """want[(key, k)] -> nested list of dicts or None"""
    model = c.model
    T = TraceIndex(events)
    keys = keys_of(s, c.roles)
    n = s["n_obs"]
    n_set = 0
    exp = {}
    for k in range(len(c.roles["d_cols"])):
        for key in keys:
            L = tag_of(s, key, c.learners)
            w = want.get((key, k))
            for r, rep in enumerate(model.smpls):
                for f in range(len(rep)):
                    exp[(key, k, r, f)] = expected_params(L, w[r][f] if w is not None else None)
    # no fit carries settings of another place
    masks = {}
    for r, rep in enumerate(model.smpls):
        for f, (tr, te) in enumerate(rep):
            m = np.zeros(n, bool)
            m[tr] = True
            masks[(r, f)] = m
    for e in T.fits.values():
        p = clean(e["params"])
        ok = any(p == v for (key, k, r, f), v in exp.items() if v["tag"] == p["tag"] and masks[(r, f)][e["uids"]].all())
        mon.check(ok, "stray-settings", f"{s['model']}: a learner was fitted with settings {p} nobody set for its nuisance function and fold", n_rows=len(e["uids"]))
    for k, dc in enumerate(c.roles["d_cols"]):
        for key in keys:
            info = nuisance(s, c.df, c.roles, key, k)
            if info["const"]:
                continue
            P = f64(model.predictions[key][:, :, k])
            if np.all(np.isnan(P)):
                continue
            for r, rep in enumerate(model.smpls):
                for f, (tr, te) in enumerate(rep):
                    w = exp[(key, k, r, f)]
                    cand = T.candidates(te, P[te, r], s.get("trimming_threshold") if info["trimmed"] else None)
                    if not cand:
                        mon.check(False, "provenance", f"{s['model']} {key}: stored predictions of a fold were produced by no recorded predict call")
                        continue
                    got = [clean(T.fits[e["fit_id"]]["params"]) for e in cand]
                    mon.check(any(g == w for g in got), mech, f"{s['model']} {key} treatment {dc} rep {r} fold {f}: fitted with {got[0]} instead of {w}",
                              setting=want.get((key, k)) is not None)
                    if want.get((key, k)) is not None and want[(key, k)][r][f]:
                        n_set += 1
                    if store:
                        st = model.models[key][dc][r]
                        if st is not None and st[f] is not None:
                            mon.check(clean(st[f].get_params()) == w, "stored-model-settings", f"{s['model']} {key}: stored model of fold {f} has settings {clean(st[f].get_params())} instead of {w}")
    return n_set


def reported(c, mon, want, keys):
    for (key, k), w in want.items():
        got = c.model.params[key][c.roles["d_cols"][k]]
        mon.check(c.model.get_params(key) == c.model.params[key], "settings-reported", f"get_params({key}) and params disagree")
        nr, nf = len(c.model.smpls), len(c.model.smpls[0])
        for r in range(nr):
            if w is None:
                mon.check(got is None or got[r] is None, "settings-reported", f"{key}: params reports {got} although nothing is set")
            else:
                ok = got is not None and got[r] is not None and len(got) == nr and len(got[r]) == nf and all(
                    (got[r][f] or {}) == (w[r][f] or {}) for f in range(nf))
                mon.check(ok, "settings-reported", f"{key}: params does not report what was set", rep=r)


def run_set(s, mon):
    rng = np.random.default_rng(s["seed"] + 99)
    c = fitted.fit(s, do_fit=False, record=True)
    keys = keys_of(s, c.roles)
    nk = len(c.roles["d_cols"])
    base_before = {k: clean(v.get_params()) for k, v in c.learners.items()}
    want = {(key, k): None for key in keys for k in range(nk)}
    serial = 0
    kinds = set()
    n_set = 0
    for i in range(s["refits"]):
        for _ in range(s["n_ops"]):
            nr, nf = len(c.model.smpls), len(c.model.smpls[0])
            op = rng.random()
            key, k = str(rng.choice(keys)), int(rng.integers(nk))
            dc = c.roles["d_cols"][k]
            if op < 0.78:
                serial += 1
                kind, given, full = draw_setting(rng, tag_of(s, key, c.learners), nr, nf, serial)
                ret = c.model.set_ml_nuisance_params(key, dc, given)
                mon.check(ret is c.model, "returns-self", "set_ml_nuisance_params does not return the model")
                want[(key, k)] = full
                kinds.add(kind)
            elif op < 0.88:
                c.model.set_ml_nuisance_params(key, dc, None)
                want[(key, k)] = None
                kinds.add("clear")
            elif op < 0.94:
                # refused requests change nothing
                before = c.model.params[key][dc]
                bad = [{"alpha": 3.3}] if nr != 1 else [[{"alpha": 3.3}] * (nf + 1)]
                mon.raises(lambda: c.model.set_ml_nuisance_params(key, dc, bad), "refused", "settings with the wrong number of repetitions or folds")
                mon.raises(lambda: c.model.set_ml_nuisance_params("ml_nope", dc, {"alpha": 3.3}), "refused", "unknown nuisance function", exc=ValueError)
                mon.raises(lambda: c.model.set_ml_nuisance_params(key, "nope", {"alpha": 3.3}), "refused", "unknown treatment", exc=ValueError)
                mon.check(c.model.params[key][dc] == before, "refused-changes-nothing", "a refused setting was stored")
            elif not s["cluster"] and s["split"] != "nosplit":
                c.model.draw_sample_splitting()
                for kk in want:  # a redraw may keep or drop settings; what it reports is what counts
                    got = c.model.params[kk[0]][c.roles["d_cols"][kk[1]]]
                    dropped = got is None or got[0] is None
                    if dropped:
                        want[kk] = None
                kinds.add("redraw")
        reported(c, mon, want, keys)
        store = s["store"]
        ev = fit(c, mon, s["n_jobs"], store)
        n_set += check_fits(c, s, mon, ev, want, "fit-settings", store)
        reported(c, mon, want, keys)
    for nm, L in c.learners.items():
        mon.check(clean(L.get_params()) == base_before[nm], "user-learner-untouched", f"the user's {nm} object was changed")
    mon.count("settings-in-fits", n_set)
    if n_set:
        mon.sig("set", *fitted.signature(s), sorted(kinds), s["n_jobs"], s["store"])
    mon.note = dict(kinds=sorted(kinds), settings_in_fits=n_set)


# ---------------------------------------------------------------- tuning
REG_SCORES = ["r2", "neg_mean_squared_error", "neg_mean_absolute_error"]
CLF_SCORES = ["accuracy", "neg_log_loss", "neg_brier_score"]


def score_of(name, kind, y, pred):
    if name is None:
        name = "r2" if kind == "SpyReg" else "accuracy"
    if name == "r2":
        return 1 - np.sum((y - pred) ** 2) / np.sum((y - y.mean()) ** 2)
    if name == "neg_mean_squared_error":
        return -np.mean((y - pred) ** 2)
    if name == "neg_mean_absolute_error":
        return -np.mean(np.abs(y - pred))
    if name == "accuracy":
        return np.mean(y == pred)
    if name == "neg_log_loss":
        return np.mean(y * np.log(pred) + (1 - y) * np.log(1 - pred))
    if name == "neg_brier_score":
        return -np.mean((y - pred) ** 2)
    raise ValueError(name)


def draw_grid(rng, learner, serial):
    second = "scale" if hasattr(learner, "scale") else "slope"
    al = [float(a) for a in np.round(rng.choice([0.01, 0.3, 3.0, 20.0, 90.0, 400.0], size=int(rng.integers(2, 4)), replace=False) * (1 + 0.01 * serial), 6)]
    g = {"alpha": al}
    u = rng.random()
    if u < 0.4:
        g[second] = [float(v) for v in rng.choice([0.6, 0.8, 1.0, 1.3], size=2, replace=False)]
    elif u < 0.55:
        g = [{"alpha": al[:2]}, {second: [0.75, 1.1]}]
    return g


def target_for_tuning(s, c, key, k, info):
    """('exact', target) / ('family', predicate on the recorded target over all fits of that key) / None"""
    m = s["model"]
    y = f64(c.df["y"])
    d = f64(c.df[c.roles["d_cols"][k]])
    if m in ("PQ", "LPQ", "CVAR") and (key.startswith("ml_g")):
        q = np.quantile(y[d == s["treatment"]], s["quantile"])
        lo, hi = [np.quantile(y[d == s["treatment"]], np.clip(s["quantile"] + e, 0, 1)) for e in (-0.2, 0.2)]
        return "quant", (q, lo, hi)
    if key == "ml_g" and m in ("PLR", "PLIV"):
        return "lin", (y, d)
    if m == "PLIV" and s["kind"] == "partialXZ" and key == "ml_r":
        return "mhat", None
    if info["target"] is None:
        return None, None
    return "exact", info["target"]


def tune_mask(s, c, key, k, info):
    if s["model"] in ("PQ", "CVAR") and key == "ml_g":
        return f64(c.df["d"]) == s["treatment"]
    return info["mask"]


def run_tune(s, mon):
    rng = np.random.default_rng(s["seed"] + 177)
    c = fitted.fit(s, do_fit=False, record=True) if not s.get("int_y") else int_y_model(s)
    keys = keys_of(s, c.roles)
    nk = len(c.roles["d_cols"])
    m = s["model"]
    L_names = list(c.learners)
    if m == "LPQ":
        L_names = list(keys)
    elif m in ("DID", "DIDCS") and s.get("score") == "experimental":
        L_names = [x for x in L_names if x != "ml_m"]
    elif m == "PLR" and s["score"] == "IV-type" and not s["callable"] and "ml_g" not in c.learners:
        L_names = L_names + ["ml_g"]
    base = {nm: (tag_of(s, nm, c.learners)) for nm in L_names}
    grids = {nm: draw_grid(rng, base[nm], i) for i, nm in enumerate(L_names)}
    scoring = None
    if s["scoring"] != "none":
        scoring = {}
        for nm in L_names:
            if s["scoring"] == "all" or rng.random() < 0.5:
                scoring[nm] = str(rng.choice(REG_SCORES if type(base[nm]).__name__ == "SpyReg" else CLF_SCORES))
    want = {(key, k): None for key in keys for k in range(nk)}
    nr, nf = len(c.model.smpls), len(c.model.smpls[0])
    if s["earlier"]:
        for j in range(int(rng.integers(1, 3))):
            key, k = str(rng.choice(keys)), int(rng.integers(nk))
            _, given, full = draw_setting(rng, tag_of(s, key, c.learners), nr, nf, 5 + j)
            c.model.set_ml_nuisance_params(key, c.roles["d_cols"][k], given)
            want[(key, k)] = full
    base_before = {k: clean(v.get_params()) for k, v in c.learners.items()}
    n_iter = int(rng.integers(2, 4))
    n_cand = {nm: len(ParameterGrid(g)) for nm, g in grids.items()}
    if s["search"] == "randomized_search":
        n_iter = min(n_iter, min(n_cand.values()))
    spy.TRACE.clear()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with joblib.parallel_backend("threading"):
            res = c.model.tune(grids, tune_on_folds=s["on_folds"], scoring_methods=scoring, n_folds_tune=s["n_folds_tune"], search_mode=s["search"],
                               n_iter_randomized_search=n_iter, n_jobs_cv=s["n_jobs"], set_as_params=s["set_as"], return_tune_res=True)
    events = list(spy.TRACE.events)
    for nm, L in c.learners.items():
        mon.check(clean(L.get_params()) == base_before[nm], "user-learner-untouched", f"the user's {nm} object was changed by tune")
    mon.check(len(res) == nk, "tune-result-per-treatment", "one tuning result per treatment")
    tuned = read_searches(s, c, mon, events, res, keys, nk, grids, scoring, base, n_iter)
    if tuned is None:
        return
    for k in range(nk):
        for key in keys:
            info = nuisance(s, c.df, c.roles, key, k)
            if info["const"]:
                w = None
            elif s["on_folds"]:
                w = [[tuned[(key, k, r, f)] for f in range(nf)] for r in range(nr)]
            else:
                w = [[tuned[(key, k, 0, 0)]] * nf for _ in range(nr)]
            got = c.model.params[key][c.roles["d_cols"][k]]
            mon.check(c.model.get_params(key) == c.model.params[key], "tune-reported", f"get_params({key}) and params disagree")
            if s["set_as"] and w is not None:
                ok = got is not None and all(got[r] is not None and len(got[r]) == nf and all(got[r][f] == w[r][f] for f in range(nf)) for r in range(nr))
                mon.check(ok, "tune-reported", f"{m} {key}: the reported parameters are not the tuned ones", got=got, want=w)
                want[(key, k)] = w
            elif not s["set_as"]:
                old = want[(key, k)]
                ok = (old is None and (got is None or all(g is None for g in got))) or (
                    old is not None and got is not None and all((got[r][f] or {}) == (old[r][f] or {}) for r in range(nr) for f in range(nf)))
                mon.check(ok, "tune-not-set", f"{m} {key}: tune(set_as_params=False) changed the settings")
            else:
                want[(key, k)] = None
    ev = fit(c, mon, s["n_jobs"], False)
    n_set = check_fits(c, s, mon, ev, want, "tuned-settings-used")
    mon.count("settings-in-fits", n_set)
    mon.sig("tune", *fitted.signature(s), s["on_folds"], s["search"], s["scoring"], s["set_as"], s["earlier"], s["n_jobs"])
    mon.note = dict(searches=len(tuned), settings_in_fits=n_set)


def int_y_model(s):
    """the same configuration with an integer-valued outcome stored as integers (counts)"""
    from vlib import zoo

    c = fitted.Ctx()
    c.s = s
    c.df, c.roles = zoo.make_frame(s)
    for col in ["y"] + list(c.roles["d_cols"]) + list(c.roles["z_cols"] or []):
        if not np.all(c.df[col] == np.rint(c.df[col])):
            c.df[col] = np.rint(c.df[col] * 3).astype(int)
        else:
            c.df[col] = c.df[col].astype(int)
    c.data = zoo.make_data(s, c.df, c.roles)
    c.learners = zoo.make_learners(s, record=True)
    c.weights = zoo.make_weights(s)
    np.random.seed(s["seed"] % 2**31)
    c.model = zoo.build_model(s, c.data, c.learners, c.weights)
    return c


def read_searches(s, c, mon, events, res, keys, nk, grids, scoring, base, n_iter):
    m = s["model"]
    n = s["n_obs"]
    T = TraceIndex(events)
    by_fit = {}
    for e in events:
        if e["op"] == "predict":
            by_fit.setdefault(e["fit_id"], []).append(e)
    nr, nf = len(c.model.smpls), len(c.model.smpls[0])
    places = [(k, r, f) for k in range(nk) for r in (range(nr) if s["on_folds"] else [0]) for f in (range(nf) if s["on_folds"] else [0])]
    tuned = {}
    lin = {}
    for (k, r, f) in places:
        out = res[k][r] if s["on_folds"] else res[k]
        tr = np.sort(c.model.smpls[r][f][0]) if s["on_folds"] else np.arange(n)
        trm = np.zeros(n, bool)
        trm[tr] = True
        for key in keys:
            info = nuisance(s, c.df, c.roles, key, k)
            mon.check(key in out["params"], "tune-covers-nuisance", f"{m}: no tuned parameters for {key}")
            if key not in out["params"]:
                return None
            mon.check(len(out["params"][key]) == (nf if s["on_folds"] else 1), "tune-per-fold", f"{m} {key}: {len(out['params'][key])} tuned settings for {nf} folds")
            best = out["params"][key][f]
            if info["const"]:
                mon.check(best is None, "tune-constant-nuisance", f"{m} {key}: tuned although it is not estimated")
                continue
            name = key if m == "LPQ" else learner_name(m, key)
            L = base[name]
            rows = trm & tune_mask(s, c, key, k, info)
            kind, tgt = target_for_tuning(s, c, key, k, info)
            w = expected_params(L, best)
            feats = info["feats"]
            if m == "SSM" and s["score"] == "nonignorable" and key != "ml_pi":
                feats = None
            cand = []
            for e in T.fits.values():
                if clean(e["params"]) == w and len(e["uids"]) == rows.sum() and rows[e["uids"]].all() and len(np.unique(e["uids"])) == len(e["uids"]):
                    if kind == "exact" and not np.allclose(e["y"], tgt[e["uids"]], rtol=0, atol=1e-12):
                        continue
                    if feats is not None and not same_columns(e["X"], feats[e["uids"]]):
                        continue
                    if kind == "quant" and not quant_ok(s, c, e, tgt):
                        continue
                    if kind == "lin" and not on_line(e, tgt):
                        continue
                    cand.append(e)
            if not mon.check(len(cand) > 0, "tune-rows", f"{m} {key} treatment {k} rep {r} fold {f}: no candidate was refitted with the selected settings {best} on exactly the rows, "
                             "target and features of that nuisance function", n_rows=int(rows.sum())):
                return None
            if kind is not None:
                mon.count("ev:tune-target")
            tuned[(key, k, r, f)] = best
            if kind == "lin":
                lin.setdefault((k, r), []).append((key, f, cand[0], tr))
            # candidate fits: same features, same target, proper subset of the rows, before the refit
            ref = cand[0]
            ypos = np.full(n, np.nan)
            ypos[ref["uids"]] = ref["y"]
            xpos = np.full((n, ref["X"].shape[1]), np.nan)
            xpos[ref["uids"]] = ref["X"]
            ref_block = [block(events, T, e, ypos, xpos, rows, by_fit) for e in cand]
            score_name = None if scoring is None else scoring.get(name)
            grid = [dict(p) for p in ParameterGrid(grids[name])]
            ok_any, msgs = False, []
            for blk in ref_block:
                ok, msg, n_seen = judge(blk, best, grid, L, score_name, type(L).__name__, s, rows, ypos, n_iter)
                msgs.append(msg)
                if ok is None:
                    mon.count("scores-undefined")
                    ok_any = True
                    break
                if ok:
                    ok_any = True
                    mon.count("candidates-scored", n_seen)
                    break
            bad_cand = (not ok_any) and all(t.startswith("candidates") for t in msgs)
            mon.check(not bad_cand, "tune-candidates", f"{m} {key}: {msgs[0]}")
            if not bad_cand:
                mon.check(ok_any, "tune-best", f"{m} {key} treatment {k} rep {r} fold {f}: {msgs[0]}", criterion=score_name, best=best)
    check_initial(s, c, mon, lin, tuned, T, by_fit, nk)
    return tuned


def quant_ok(s, c, e, t):
    q, lo, hi = t
    y = f64(c.df["y"])[e["uids"]]
    d = f64(c.df["d"])[e["uids"]]
    if s["model"] == "CVAR":
        # max(q, (y - tau q)/(1 - tau)) for a plausible q
        qq = e["y"].min()
        want = np.maximum(qq, (y - s["quantile"] * qq) / (1 - s["quantile"]))
        return lo - 1e-9 <= qq <= hi + 1e-9 and np.allclose(want, e["y"], atol=1e-9)
    one = (e["y"] == 1) if s["model"] == "PQ" else (e["y"] == 1)
    elig = np.ones(len(y), bool) if s["model"] == "PQ" else d == s["treatment"]
    if np.any(one & ~elig):
        return False
    a = y[one].max() if one.any() else -np.inf
    b = y[elig & ~one].min() if (elig & ~one).any() else np.inf
    return a < b or (a <= b) and max(a, lo) <= min(b, hi) + 1e-9


def on_line(e, t):
    """the target is y - c d for one number c"""
    y, d = t[0][e["uids"]], t[1][e["uids"]]
    diff = y - e["y"]
    i = np.argmax(np.abs(d))
    if d[i] == 0:
        return False
    cst = diff[i] / d[i]
    return np.allclose(diff, cst * d, atol=1e-7 * (1 + abs(cst)), rtol=1e-7)


def block(events, T, ref, ypos, xpos, rows, by_fit):
    """(fit, test-prediction) pairs of the search that ended in this refit"""
    out = []
    seq = ref["seq"]
    lo = 0
    for e in events[:seq][::-1]:
        # the final refit of the previous search bounds the block: it is the fit that was never scored on rows it had not seen
        if e["op"] == "fit" and not any(len(np.intersect1d(p["uids"], e["uids"])) == 0 for p in by_fit.get(e["fit_id"], [])):
            lo = e["seq"] + 1
            break
    for e in events[lo:seq]:
        if e["op"] != "fit" or e["params"]["tag"] != ref["params"]["tag"]:
            continue
        u = e["uids"]
        if not rows[u].all() or len(u) >= rows.sum():
            continue
        if not np.allclose(e["y"], ypos[u], rtol=0, atol=1e-9) or e["X"].shape[1] != xpos.shape[1] or not np.allclose(e["X"], xpos[u], rtol=0, atol=1e-12):
            continue
        rest = rows.copy()
        rest[u] = False
        tests = [p for p in by_fit.get(e["fit_id"], []) if len(p["uids"]) == rest.sum() and rest[p["uids"]].all()]
        out.append((e, tests))
    return out


def judge(blk, best, grid, L, score_name, kind, s, rows, ypos, n_iter):
    groups = {}
    for e, tests in blk:
        groups.setdefault(repr(sorted(clean(e["params"]).items())), []).append((e, tests))
    exp = {repr(sorted(expected_params(L, p).items())): p for p in grid}
    extra = [g for g in groups if g not in exp]
    if s["search"] == "grid_search":
        missing = [g for g in exp if g not in groups]
        if missing:
            return False, f"candidates: {len(missing)} of {len(exp)} grid points were not tried", 0
    elif len(groups) < min(n_iter, len(exp)):
        return False, f"candidates: {len(groups)} tried, {n_iter} requested", 0
    if extra:
        return False, f"candidates: settings outside the grid were tried: {extra[0]}", 0
    scores = {}
    for g, lst in groups.items():
        if len(lst) != s["n_folds_tune"]:
            # identical searches (same rows, target and grid) may be interleaved: only multiples are possible then
            if len(lst) % s["n_folds_tune"]:
                return False, f"candidates: a candidate was fitted {len(lst)} times for {s['n_folds_tune']} folds", 0
            lst = lst[-s["n_folds_tune"]:]
        cover = np.zeros(len(rows), int)
        vals = []
        for e, tests in lst:
            if not tests:
                return False, "candidates: a candidate was not scored on the rows left out of its fit", 0
            want_m = "predict_proba" if score_name in ("neg_log_loss", "neg_brier_score") else "predict"
            t = [p for p in tests if p["method"] == want_m]
            if not t:
                return False, f"criterion: candidates were not scored through {want_m}", 0
            t = t[0]
            cover[t["uids"]] += 1
            if kind == "SpyClf" and len(np.unique(e["y"])) < 2:
                return None, "", 0
            vals.append(score_of(score_name, kind, ypos[t["uids"]], t["out"]))
        if np.any(cover[rows] != 1):
            return False, "candidates: the folds of the search do not partition its rows", 0
        scores[g] = np.mean(vals)
    if not all(np.isfinite(v) for v in scores.values()):
        return None, "", 0
    g = repr(sorted(expected_params(L, best).items()))
    if g not in scores:
        return False, f"selected settings {best} are not among the candidates", 0
    top = max(scores.values())
    if scores[g] < top - 1e-9 * (1 + abs(top)):
        return False, f"selected {best} with score {scores[g]:.6g} although another candidate has {top:.6g}", len(scores)
    return True, "", len(scores)


def check_initial(s, c, mon, lin, tuned, T, by_fit, nk):
    """ml_g of the IV-type score is tuned on y - theta d with the preliminary estimate implied by the tuned l, m (and r)"""
    m = s["model"]
    y = f64(c.df["y"])
    for (k, r), lst in lin.items():
        d = f64(c.df[c.roles["d_cols"][k]])
        z = f64(c.df[c.roles["z_cols"][0]]) if m == "PLIV" else d
        for key, f, e, tr in lst:
            diff = y[e["uids"]] - e["y"]
            i = np.argmax(np.abs(d[e["uids"]]))
            cst = diff[i] / d[e["uids"]][i]
            # partialling-out estimate from any consistent nuisance fit lies close to the least-squares residual estimate
            X = nuisance(s, c.df, c.roles, "ml_l", k)["feats"]
            X1 = np.column_stack([np.ones(len(X)), X])
            res = [v - X1 @ np.linalg.lstsq(X1, v, rcond=None)[0] for v in (y, d, z)]
            ref = np.sum(res[2] * res[0]) / np.sum(res[2] * res[1])
            se = np.std(res[2] * (res[0] - ref * res[1])) / abs(np.mean(res[2] * res[1])) / np.sqrt(len(y))
            fin = np.isfinite(cst)
            mon.check(fin, "tune-initial-finite", f"{m} ml_g is tuned on y - theta d with theta = {cst}")
            if fin:
                mon.note["theta_init"] = [float(cst), float(ref), float(se)]
                mon.count("theta-initial")
                exact_initial(s, c, mon, k, r, key, cst, tuned, T, by_fit, y, d, z)


def exact_initial(s, c, mon, k, r, key, cst, tuned, T, by_fit, y, d, z):
    """recompute it from the recorded in-sample predictions of the refitted learners"""
    m = s["model"]
    n = len(y)
    nf = len(c.model.smpls[r]) if s["on_folds"] else 1
    hats = {}
    names = ["ml_l", "ml_m"] + (["ml_r"] if m == "PLIV" else [])
    for nm in names:
        h = np.full(n, np.nan)
        for f in range(nf):
            tr = np.sort(c.model.smpls[r][f][0]) if s["on_folds"] else np.arange(n)
            w = expected_params(tag_of(s, nm, c.learners), tuned[(nm, k, r, f)])
            feats = nuisance(s, c.df, c.roles, nm, k)["feats"]
            tgt = nuisance(s, c.df, c.roles, nm, k)["target"]
            found = None
            for e in T.fits.values():
                if clean(e["params"]) == w and len(e["uids"]) == len(tr) and np.array_equal(np.sort(e["uids"]), tr) and same_columns(e["X"], feats[e["uids"]]) \
                        and np.allclose(e["y"], tgt[e["uids"]]):
                    for p in by_fit.get(e["fit_id"], []):
                        if len(p["uids"]) == len(tr):
                            found = p
            if found is None:
                return
            h[found["uids"]] = found["out"]
        hats[nm] = h
    if m == "PLR":
        th = np.nanmean((d - hats["ml_m"]) * (y - hats["ml_l"])) / np.nanmean((d - hats["ml_m"]) ** 2)
    else:
        th = np.nanmean((z - hats["ml_m"]) * (y - hats["ml_l"])) / np.nanmean((d - hats["ml_r"]) * (z - hats["ml_m"]))
    mon.close(cst, th, "tune-initial", f"{m} ml_g is tuned on y - theta d: preliminary theta", rtol=1e-5, atol=1e-7)


def run(s, mon):
    (run_set if s["fam"] == "set" else run_tune)(s, mon)
