"""Build, split and fit a configuration; return everything a monitor needs."""
import warnings

import numpy as np

from . import zoo
from .splits import user_splits


class Ctx:
    pass


NESTED = ("PQ", "LPQ", "CVAR")


def draw(rng, tier="quick", model=None, splits=True, **kw):
    s = zoo.draw_spec(rng, model=model, **kw)
    s["split"] = "drawn"
    if splits:
        s["split"] = str(rng.choice(["drawn", "drawn", "user", "user_drop", "redraw", "nosplit"]))
        if s["cluster"]:
            s["split"] = str(rng.choice(["drawn", "redraw", "user_cluster"]))
        elif s["split"] == "nosplit":
            if s["model"] in NESTED or (s["model"] == "SSM" and s["score"] == "nonignorable"):
                s["split"] = "user"
            else:
                s["n_rep"] = 1
                if s.get("kind") == "partialXZ":
                    s["split"] = "user"
                if s.get("weights") == "dict":
                    s["weights"] = "vec"
    if s["split"].startswith("user") and s.get("weights") != "dict" and rng.random() < 0.5:
        # the model was created for another number of folds and repetitions than the splitting supplied later
        s["ctor"] = [int(rng.integers(2, 5)), int(rng.integers(1, 4))]
    return s


def strata_of(df):
    lab = np.zeros(len(df), int)
    for c in ["d", "z", "t", "s"]:
        if c in df.columns and len(np.unique(df[c])) <= 5:
            lab = lab * 7 + df[c].values.astype(int)
    return lab


def cluster_splits(rng, C, n_rep, n_folds):
    """user-supplied cluster splits of different sizes; returns (smpls, smpls_cluster)"""
    n = len(C[0])
    all_s, all_c = [], []
    for _ in range(n_rep):
        parts = []
        for c in C:
            vals = rng.permutation(np.unique(c))
            w = rng.uniform(0.8, 1.2, size=n_folds)
            cuts = np.round(np.cumsum(w) / w.sum() * len(vals)).astype(int)
            f = np.searchsorted(cuts, np.arange(len(vals)), side="right").clip(0, n_folds - 1)
            parts.append([vals[f == k] for k in range(n_folds)])
        cells = [(a,) for a in range(n_folds)] if len(C) == 1 else [(a, b) for a in range(n_folds) for b in range(n_folds)]
        sm, cl = [], []
        for cell in cells:
            tr, te = np.ones(n, bool), np.ones(n, bool)
            ctr, cte = [], []
            for c, p, a in zip(C, parts, cell):
                test = p[a]
                train = np.concatenate([p[b] for b in range(n_folds) if b != a])
                te &= np.isin(c, test)
                tr &= np.isin(c, train)
                ctr.append(train)
                cte.append(test)
            sm.append((np.where(tr)[0], np.where(te)[0]))
            cl.append((ctr, cte))
        all_s.append(sm)
        all_c.append(cl)
    return all_s, all_c


def fit(s, record=False, fit_kw=None, model_kw=None, do_fit=True, split_seed=None, learners=None):
    c = Ctx()
    c.s = s
    c.df, c.roles = zoo.make_frame(s)
    c.data = zoo.make_data(s, c.df, c.roles)
    c.learners = zoo.make_learners(s, record=record)
    c.learners.update(learners or {})
    c.weights = zoo.make_weights(s)
    np.random.seed((s["seed"] if split_seed is None else split_seed) % 2**31)
    kw = dict(model_kw or {})
    if s.get("ctor"):
        kw.update(n_folds=s["ctor"][0], n_rep=s["ctor"][1])
    c.model = zoo.build_model(s, c.data, c.learners, c.weights, **kw)
    rng = np.random.default_rng(s["seed"] + 5)
    sp = s.get("split", "drawn")
    if sp in ("user", "user_drop"):
        c.given = user_splits(rng, strata_of(c.df), s["n_rep"], s["n_folds"], 0.15 if sp == "user_drop" else 0.0)
        c.model.set_sample_splitting(c.given)
    elif sp == "user_cluster":
        C = [c.df[x].values for x in c.roles["cluster_cols"]]
        a, b = cluster_splits(rng, C, s["n_rep"], s["n_folds"])
        c.model.set_sample_splitting(a, all_smpls_cluster=b)
    elif sp == "redraw":
        c.model.draw_sample_splitting()
    elif sp == "nosplit":
        c.model.set_sample_splitting((np.arange(s["n_obs"]), np.arange(s["n_obs"])))
    c.warn = []
    if do_fit:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            c.model.fit(**(fit_kw or {}))
        c.warn = [str(x.message) for x in w]
    return c


def signature(s):
    return (s["model"], s.get("score"), s.get("kind"), s["callable"], s["cluster"], s["split"], s["n_rep"], s["n_treat"], s.get("n_instr"),
            s.get("weights"), s.get("normalize_ipw"), s.get("in_sample_normalization"), s.get("treatment"), s.get("quantile"), s.get("always"), s.get("never"))
