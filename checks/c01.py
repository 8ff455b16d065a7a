"""C01 cross-fitting separation: recorded learner calls against the sample splits."""
import numpy as np

from vlib import spy, zoo
from vlib.oracle import f64
from vlib.splits import user_splits
from vlib.trace import TraceIndex, keys_of, nuisance, same_columns

LEVEL = "exploration"
N_QUICK = 400
RULE = ("random model class x score x data shape x sample splitting (drawn / user-supplied uneven splits with reduced training sets / clusters) "
        "x parameter source x n_jobs_cv x store_models, fitted with recording learners whose predictions carry a fingerprint of their "
        "training rows; distinct = distinct (model, score/kind, clusters, split source, params, n_rep, execution options); "
        "non-trivial = at least one stored prediction was traced to a recorded fit")
FLOORS = {"ev:provenance": 800, "ev:train-excludes-row": 800, "ev:train-within-fold": 800, "ev:train-subgroup": 500, "ev:nested-disjoint": 20, "ev:nested-half": 400, "ev:nested-cover": 400,
          "ev:features": 500, "ev:target": 400, "ev:params": 60}
ASSUMPTIONS = ["rows are identified through a row-id feature the learners do not use for fitting",
               "the fold's own predictions are recognised by value; two differently trained spies give different values"]


def gen(rng, tier):
    while True:
        s = zoo.draw_spec(rng)
        s["split"] = str(rng.choice(["drawn", "drawn", "user", "user_drop", "redraw"]))
        if s["cluster"] and s["split"].startswith("user"):
            s["split"] = "redraw"
        s["params"] = str(rng.choice(["none", "none", "dict", "folds"]))
        s["n_jobs"] = None if rng.random() < 0.6 else 2
        s["store_models"] = bool(rng.random() < 0.4)
        if s["model"] in ("PQ", "CVAR", "LPQ") or (s["model"] == "SSM" and s["score"] == "nonignorable"):
            if rng.random() < 0.5:
                s.update(n_folds=2, n_rep=1, cluster=0, nested=True, split="drawn", params="none")
        yield s


def strata_of(s, df, roles):
    lab = np.zeros(len(df), int)
    for c in ["d", "z", "t", "s"]:
        if c in df.columns and len(np.unique(df[c])) <= 5:
            lab = lab * 7 + df[c].values.astype(int)
    return lab


def param_value(s, key, k, r, fold):
    """a distinctive ridge penalty per (nuisance, treatment, repetition, fold)"""
    base = 5.0 + (sum(ord(c) for c in key) % 17) + 20 * k + 60 * r
    if s["params"] == "folds":
        base += 0.25 * (fold + 1)
    return base


def run(s, mon):
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    learners = zoo.make_learners(s)
    weights = zoo.make_weights(s)
    spare = s["model"] in ("PLR", "PLIV") and s.get("kind", "std") == "std" and s["score"] == "partialling out" and not s["callable"] and s["seed"] % 3 == 0
    if spare:  # a learner this score has no use for: accepted and ignored
        learners = dict(learners, ml_g=spy.SpyReg(tag="spare"))
    model = zoo.build_model(s, data, learners, weights)
    if spare:
        mon.check("ml_g" not in model.params_names, "ignored-learner", f"{s['model']}: a learner the score has no use for is listed as a nuisance learner")
    rng = np.random.default_rng(s["seed"] + 5)
    if s["split"].startswith("user"):
        sp = user_splits(rng, strata_of(s, df, roles), s["n_rep"], s["n_folds"], 0.15 if s["split"] == "user_drop" else 0.0,
                         "list" if rng.random() < 0.5 else "array")
        model.set_sample_splitting(sp)
        for r in range(s["n_rep"]):
            for f in range(s["n_folds"]):
                mon.check(np.array_equal(np.sort(model.smpls[r][f][1]), np.sort(sp[r][f][1])) and
                          np.array_equal(np.sort(model.smpls[r][f][0]), np.sort(sp[r][f][0])), "split-as-given",
                          "user split not used as supplied")
    elif s["split"] == "redraw":
        model.draw_sample_splitting()
    keys = keys_of(s, roles)
    if s["params"] != "none":
        for key in keys:
            for k, dc in enumerate(roles["d_cols"]):
                nf = len(model.smpls[0])
                if s["params"] == "dict":
                    if s["n_rep"] > 1 or s["cluster"]:
                        pv = {"alpha": param_value(s, key, k, 0, 0)}
                    else:
                        pv = {"alpha": param_value(s, key, k, 0, 0)}
                else:
                    pv = [[{"alpha": param_value(s, key, k, r, f)} for f in range(nf)] for r in range(s["n_rep"])]
                model.set_ml_nuisance_params(key, dc, pv)
    spy.TRACE.clear()
    import joblib

    with joblib.parallel_backend("threading"):
        model.fit(n_jobs_cv=s["n_jobs"], store_models=s["store_models"])
    events = list(spy.TRACE.events)
    mon.count("fit-events", sum(e["op"] == "fit" for e in events))
    mon.count("predict-events", sum(e["op"] == "predict" for e in events))
    T = TraceIndex(events)
    n = s["n_obs"]
    smpls = model.smpls
    # whatever was fitted, was fitted on rows of one training fold
    trains = [np.isin(np.arange(n), tr) for rep in smpls for tr, _ in rep]
    for e in T.fits.values():
        u = e["uids"]
        mon.check(e["params"].get("tag") != "spare", "ignored-learner", f"{s['model']}: a learner the score has no use for was fitted")
        mon.check(any(np.all(t[u]) for t in trains), "fit-inside-some-training-fold",
                  "a learner was fitted on rows that no training fold contains together", n_rows=len(u), tag=e["params"].get("tag"))
    traced = 0
    thr = s.get("trimming_threshold")
    for k in range(len(roles["d_cols"])):
        for key in keys:
            info = nuisance(s, df, roles, key, k)
            P = f64(model.predictions[key][:, :, k])
            if s["model"] == "PLR" and s["score"] == "IV-type" and np.all(np.isnan(P)):
                continue
            for r in range(s["n_rep"]):
                for f, (tr, te) in enumerate(smpls[r]):
                    vals = P[te, r]
                    if info["const"]:
                        mon.check(np.all(vals == float(key[-1])), "constant-nuisance", f"{key} should be constant {key[-1]}")
                        continue
                    cand = T.candidates(te, vals, thr if info["trimmed"] else None)
                    if not mon.check(len(cand) > 0, "provenance", f"{s['model']} {key}: stored predictions of a fold were produced by no recorded predict call",
                                     rep=r, fold=f, treat=k):
                        continue
                    traced += 1
                    best = None
                    for e in cand:
                        fe = T.fits[e["fit_id"]]
                        m = np.zeros(n, bool)
                        m[fe["uids"]] = True
                        trm = np.zeros(n, bool)
                        trm[tr] = True
                        prob = []
                        if np.any(m[te]):
                            prob.append("train-excludes-row")
                        if np.any(m & ~trm):
                            prob.append("train-within-fold")
                        exp = trm & info["mask"]
                        if np.any(m & ~exp) or (info["exact"] and np.any(m != exp)) or len(fe["uids"]) != m.sum():
                            prob.append("train-subgroup")
                        if best is None or len(prob) < len(best[0]):
                            best = (prob, e, fe)
                    prob, e, fe = best
                    for mech in ("train-excludes-row", "train-within-fold", "train-subgroup"):
                        mon.check(mech not in prob, mech, f"{s['model']} {key}: fold {f} rep {r} treat {k}: model was trained on the wrong rows",
                                  n_train=len(fe["uids"]), fold_train=len(tr))
                    if "slope" in fe["params"] and len(np.unique(fe["y"])) > 1:
                        mon.check(e["method"] == "predict_proba", "class-probabilities", f"{s['model']} {key}: a classifier's labels instead of its probabilities")
                    if info["target"] is not None:
                        mon.close(fe["y"], info["target"][fe["uids"]], "target", f"{s['model']} {key}: training target")
                    if info["feats"] is not None:
                        mon.check(same_columns(fe["X"], info["feats"][fe["uids"]]), "features",
                                  f"{s['model']} {key}: training features are not the documented covariates", got=fe["X"].shape, want=info["feats"].shape)
                        mon.check(same_columns(e["X"], info["feats"][e["uids"]]), "features-predict",
                                  f"{s['model']} {key}: prediction features are not the documented covariates")
                    if s["params"] != "none":
                        want = param_value(s, key, k, r if s["params"] == "folds" else 0, f if s["params"] == "folds" else 0)
                        mon.check(fe["params"]["alpha"] == want, "params",
                                  f"{s['model']} {key}: fitted with alpha={fe['params']['alpha']} instead of {want}", rep=r, fold=f, treat=k)
                    if not info["exact"] and key != "ml_pi" and s["model"] in ("PQ", "LPQ", "CVAR", "SSM"):
                        halves(s, mon, T, key, fe, trm, exp)
                    if s.get("nested") and not info["exact"]:
                        nested(s, mon, T, key, fe, tr, info, df["z"].values if "z" in df else None)
    mon.count("traced", traced)
    if traced:
        mon.sig(s["model"], s.get("score"), s.get("kind"), s["callable"], s["cluster"], s["split"], s["params"], s["n_rep"], s["n_jobs"], s["store_models"],
                s.get("n_treat"), s.get("n_instr"))
    mon.note = dict(traced=traced, fits=len(T.fits))


def halves(s, mon, T, key, fe, trm, exp):
    """any folds and repetitions: the final fit uses about half of its rows, and preliminary fits inside the training set cover the other half
    without touching it"""
    n = len(trm)
    fin = np.zeros(n, bool)
    fin[fe["uids"]] = True
    tag = "pi" if s["model"] == "SSM" else "m"
    cover = np.zeros(n, bool)
    for e in T.fits.values():
        if e["params"]["tag"] == tag and e is not fe:
            m = np.zeros(n, bool)
            m[e["uids"]] = True
            if not np.any(m & ~trm) and not np.any(m & fin):
                cover |= m
    rest = exp & ~fin
    mon.check(0.3 < fin.sum() / max(exp.sum(), 1) < 0.7, "nested-half", f"{s['model']} {key}: the final fit uses {fin.sum()} of {exp.sum()} rows instead of a half")
    mon.check(not np.any(rest & ~cover), "nested-cover", f"{s['model']} {key}: no preliminary fit uses the half the final fit leaves out",
              missing=int((rest & ~cover).sum()))


def nested(s, mon, T, key, fe, tr, info, z):
    """preliminary estimates and the final nuisance use disjoint halves of the training fold (two folds, one repetition:
    the training folds are disjoint, so membership is unambiguous)"""
    trs = set(tr.tolist())
    fin = set(fe["uids"].tolist())
    if s["model"] == "SSM":
        if key == "ml_pi":
            return
        prelim_tags = {"pi"}
    else:
        prelim_tags = {"m"}
    own = []
    if s["model"] == "LPQ":
        # the refits on the whole training fold, conditional on the instrument
        own = [set(tr[z[tr] == v].tolist()) for v in (0, 1)]
    sizes = []
    for e in T.fits.values():
        u = set(e["uids"].tolist())
        if e["params"]["tag"] in prelim_tags and u <= trs and (len(u) < len(trs)) and e is not fe:
            if any(u == o for o in own):
                continue
            mon.check(not (u & fin), "nested-disjoint", f"{s['model']} {key}: a preliminary fit shares {len(u & fin)} rows with the final nuisance fit")
            sizes.append(len(u))
    mon.check(len(sizes) > 0, "nested-prelim-seen", f"{s['model']} {key}: no preliminary fit seen")
