"""C09 sample splitting: partitions, strata, clusters, provenance, refusal, reproducibility over histories of draws and assignments."""
import warnings

import numpy as np
from sklearn.linear_model import LinearRegression, LogisticRegression

from vlib import fitted, zoo
from vlib.splits import user_splits
from vlib.core import Skip

import doubleml as dml
from doubleml.utils import DoubleMLClusterResampling, DoubleMLResampling

LEVEL = "exploration"
N_QUICK = 3000
RULE = ("every model class and composite: histories of drawn, redrawn, assigned (list of lists, list of pairs, single pair; lists, arrays, unordered) and invalid splittings; after each "
        "step the published splitting is judged structurally; distinct = (class, cluster, history, folds, reps)")
FLOORS = {"ev:partition": 2500, "ev:strata": 800, "ev:cluster-disjoint": 400, "ev:as-given": 700, "ev:refuse": 4000, "ev:state-kept": 3000, "ev:reproducible": 600, "ev:reps-differ": 200}

STRATA = dict(IRM=["d"], APO=["d"], PQ=["d"], CVAR=["d"], DID=["d"], IIVM=["d", "z"], LPQ=["d", "z"], DIDCS=["d", "t"], SSM=["d", "s"], QTE=["d"], APOS=["d"])


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        r = rng.random()
        steps = [str(x) for x in rng.choice(["redraw", "lists", "pairs", "arrays", "invalid", "nosplit", "fit"], size=int(rng.integers(1, 5)), p=[.2, .2, .12, .13, .2, .08, .07])]
        if r < 0.62:
            s = zoo.draw_spec(rng, small=True)
            if rng.random() < 0.35 and not s["cluster"]:
                for _ in range(10):
                    s = zoo.draw_spec(rng, small=True)
                    if s["cluster"]:
                        break
            yield dict(kind="model", s=s, steps=steps, seed=int(rng.integers(2**31)))
        elif r < 0.85:
            s = zoo.draw_spec(rng, model="APO" if rng.random() < 0.5 else "IRM", small=True, allow_cluster=False, allow_callable=False)
            s["weights"] = None
            yield dict(kind="APOS" if s["model"] == "APO" else "QTE", s=s, steps=steps, seed=int(rng.integers(2**31)), score=str(rng.choice(["PQ", "CVaR"])))
        else:
            yield dict(kind="raw", seed=int(rng.integers(2**31)), n=int(rng.integers(6, 80)), n_folds=int(rng.integers(2, 6)), n_rep=int(rng.integers(1, 5)),
                       mode=str(rng.choice(["plain", "strat", "c1", "c2"])))


def labels(df, cols):
    lab = np.zeros(len(df), int)
    for c in cols:
        lab = lab * 11 + df[c].values.astype(int)
    return lab


def judge(mon, smpls, n, n_rep, n_folds, lab=None, drawn=True, where=""):
    mon.check(len(smpls) == n_rep and all(len(r) == n_folds for r in smpls), "counts", f"{where}: {len(smpls)} repetitions x {[len(r) for r in smpls]} folds instead of {n_rep} x {n_folds}")
    for r in smpls:
        hits = np.zeros(n, int)
        for tr, te in r:
            tr, te = np.asarray(tr), np.asarray(te)
            np.add.at(hits, te, 1)
            if drawn:
                comp = np.setdiff1d(np.arange(n), te)
                mon.check(np.array_equal(np.sort(tr), comp), "complement", f"{where}: training set is not the complement of the test fold")
            mon.check(len(np.intersect1d(tr, te)) == 0, "disjoint", where)
        mon.check(np.all(hits == 1), "partition", f"{where}: test folds do not partition the observations")
        sizes = [len(te) for _, te in r]
        if drawn and lab is None:
            mon.check(max(sizes) - min(sizes) <= 1, "balanced", f"{where}: fold sizes {sizes}")
        if drawn and lab is not None:
            cnt = np.array([[np.sum(lab[te] == v) for v in np.unique(lab)] for _, te in r])
            mon.check(np.all(cnt.max(axis=0) - cnt.min(axis=0) <= 1), "strata", f"{where}: strata are not spread evenly over the folds: {cnt.tolist()}")
            if np.all(np.unique(lab, return_counts=True)[1] >= 2):
                mon.check(all(len(np.unique(lab[tr])) == len(np.unique(lab)) for tr, _ in r), "strata-train", f"{where}: a training set misses a stratum")
    if drawn and n_rep > 1 and n > 30:
        for a in range(n_rep):
            for b in range(a):
                mon.check(not all(np.array_equal(x[1], y[1]) for x, y in zip(smpls[a], smpls[b])), "reps-differ", f"{where}: repetitions {b} and {a} are identical")


def judge_cluster(mon, smpls, scl, C, n_rep, k, where="", drawn=True):
    n = len(C[0])
    mon.check(len(smpls) == n_rep == len(scl) and all(len(r) == k ** len(C) for r in smpls), "counts", f"{where}")
    for r, rc in zip(smpls, scl):
        hits = np.zeros(n, int)
        combos = {}
        for (tr, te), (ctr, cte) in zip(r, rc):
            np.add.at(hits, te, 1)
            intr, inte = np.ones(n, bool), np.ones(n, bool)
            for c, a, b in zip(C, ctr, cte):
                mon.check(len(np.intersect1d(c[tr], c[te])) == 0, "cluster-disjoint", f"{where}: training and test fold share a cluster")
                mon.check(np.array_equal(np.sort(np.concatenate([a, b])), np.unique(c)), "cluster-lists", f"{where}: published train/test clusters do not partition the clusters")
                intr &= np.isin(c, a)
                inte &= np.isin(c, b)
                for v in b:
                    combos.setdefault(v, 0)
            mon.check(np.array_equal(np.sort(tr), np.where(intr)[0]) and np.array_equal(np.sort(te), np.where(inte)[0]), "cluster-match",
                      f"{where}: observations do not match the published clusters")
            prod = 1
            for q in cte:
                prod *= len(q)
            mon.count("cluster_cells", prod)
        mon.check(np.all(hits == 1), "partition", f"{where}: test folds do not partition the observations")
        # every combination of clusters is tested exactly once
        seen = np.zeros([len(np.unique(c)) for c in C], int)
        for _, cte in rc:
            seen[np.ix_(*[np.searchsorted(np.unique(c), b) for c, b in zip(C, cte)])] += 1
        mon.check(np.all(seen == 1), "cluster-cells", f"{where}: cluster combinations tested {np.unique(seen)} times")
        for j, c in enumerate(C):
            sz = sorted({tuple(np.sort(cte[j]).tolist()) for _, cte in rc})
            if drawn:
                mon.check(max(map(len, sz)) - min(map(len, sz)) <= 1, "cluster-balanced", f"{where}")


def eq_given(mon, m, given, where):
    ok = len(m.smpls) == len(given) and all(
        len(a) == len(b) and all(np.array_equal(np.sort(x[0]), np.sort(np.asarray(y[0]))) and np.array_equal(np.sort(x[1]), np.sort(np.asarray(y[1]))) for x, y in zip(a, b))
        for a, b in zip(m.smpls, given))
    mon.check(ok, "as-given", f"{where}: the published splitting is not the supplied one")
    mon.check(m.n_rep == len(given) and m.n_folds == len(given[0]), "as-given-counts", f"{where}: n_rep={m.n_rep}, n_folds={m.n_folds}")


def invalid_variants(rng, good, n):
    """(name, splitting) made invalid in exactly one place, at a random repetition and fold"""
    def deep():
        return [[(list(map(int, a)), list(map(int, b))) for a, b in r] for r in good]

    R, F = len(good), len(good[0])
    r, f = int(rng.integers(R)), int(rng.integers(F))
    out = []
    g = deep()
    g[r][f] = (g[r][f][0], g[r][f][1][:-1])
    out.append(("an observation is in no test fold", g))
    g = deep()
    g2 = (f + 1) % F
    g[r][f] = (g[r][f][0], g[r][f][1] + [g[r][g2][1][0]])
    out.append(("an observation is in two test folds", g))
    g = deep()
    g[r][f] = (g[r][f][0] + [g[r][f][1][0]], g[r][f][1])
    out.append(("training and test overlap", g))
    g = deep()
    g[r][f] = (g[r][f][0] + [g[r][f][0][0]], g[r][f][1])
    out.append(("duplicate training index", g))
    g = deep()
    g[r][f] = (g[r][f][0][:-1] + [n], g[r][f][1])
    out.append(("training index out of range", g))
    g = deep()
    g[r][f] = (g[r][f][0][:-1] + [-1], g[r][f][1])
    out.append(("negative training index", g))
    g = deep()
    t = g[r][f][1]
    g[r][f] = (g[r][f][0], t[:-1] + [t[0]])
    out.append(("duplicate test index", g))
    g = deep()
    g[r][f] = (g[r][f][0], [n if q == t[-1] else q for q in t])
    out.append(("test index out of range", g))
    g = deep()
    g[r][f] = ([float(q) for q in g[r][f][0]], g[r][f][1])
    out.append(("float indices", g))
    g = deep()
    g[r][f] = (g[r][f][0], g[r][f][1], [1])
    out.append(("triple", g))
    g = deep()
    g[r][f] = list(g[r][f])
    out.append(("fold is a list", g))
    g = deep()
    if R > 1:
        g[r] = [g[r][0]] + g[r][1:] + [([0], [])] if False else g[r][:-1]
        out.append(("different number of folds", g))
        g = deep()
        g[r] = tuple(g[r])
        out.append(("repetition is a tuple", g))
    out.append(("a dict", {"a": deep()}))
    out.append(("a number", 3))
    return out


def state(m):
    return [[(np.array(a), np.array(b)) for a, b in r] for r in m.smpls], m.n_rep, m.n_folds


def state_same(m, s):
    sm, R, F = s
    return m.n_rep == R and m.n_folds == F and len(m.smpls) == len(sm) and all(
        len(a) == len(b) and all(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]) for x, y in zip(a, b)) for a, b in zip(m.smpls, sm))


def parts_follow(mon, spec, m, where):
    """the single models of a composite use the published splitting"""
    ml = m.modellist if spec["kind"] == "APOS" else list(m.modellist_0) + list(m.modellist_1)
    st = state(m)
    mon.check(all(state_same(x, st) for x in ml), "parts-follow", f"{where}: a part of the composite uses another splitting than the one published")


def run(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "raw":
        n, k, R = spec["n"], spec["n_folds"], spec["n_rep"]
        n = max(n, 2 * k)
        mon.sig("raw", spec["mode"], k, R, min(n // 20, 3))
        for _ in range(2):
            sd = int(rng.integers(2**31))
            outs = []
            if spec["mode"] in ("plain", "strat"):
                lab = None if spec["mode"] == "plain" else rng.integers(0, 3, size=n)
                if lab is not None and np.min(np.unique(lab, return_counts=True)[1]) < k:
                    raise Skip("stratum smaller than the number of folds")
                for s_ in (sd, sd, sd + 1):
                    np.random.seed(s_ % 2**31)
                    outs.append(DoubleMLResampling(n_folds=k, n_rep=R, n_obs=n, stratify=lab).split_samples())
                judge(mon, outs[0], n, R, k, lab, where="raw")
                flat = [np.concatenate([te for r in o for _, te in r]) for o in outs]
            else:
                C = [rng.integers(0, k + int(rng.integers(0, 8)), size=n) for _ in range(int(spec["mode"][1]))]
                if min(len(np.unique(c)) for c in C) < k:
                    raise Skip("fewer clusters than folds")
                for s_ in (sd, sd, sd + 1):
                    np.random.seed(s_ % 2**31)
                    outs.append(DoubleMLClusterResampling(n_folds=k, n_rep=R, n_obs=n, n_cluster_vars=len(C), cluster_vars=np.column_stack(C)).split_samples())
                judge_cluster(mon, outs[0][0], outs[0][1], C, R, k, "raw cluster")
                flat = [np.concatenate([te for r in o[0] for _, te in r]) for o in outs]
            mon.check(np.array_equal(flat[0], flat[1]), "reproducible", "same seed, different splitting")
            if n > 30 and spec["mode"] == "plain":
                mon.check(not np.array_equal(flat[0], flat[2]), "seed-matters", "different seeds, identical splitting")
        mon.raises(lambda: DoubleMLResampling(n_folds=1, n_rep=1, n_obs=10), "refuse", "one fold")
        return
    s = spec["s"]
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    learners = zoo.make_learners(s, record=False)
    n = s["n_obs"]
    comp = spec["kind"] in ("APOS", "QTE")

    def mk(**kw):
        a = dict(n_folds=s["n_folds"], n_rep=s["n_rep"])
        a.update(kw)
        if spec["kind"] == "APOS":
            return dml.DoubleMLAPOS(data, **learners, treatment_levels=list(range(s["levels"]))[:2], **a)
        if spec["kind"] == "QTE":
            lr = dict(ml_g=LinearRegression() if spec["score"] == "CVaR" else LogisticRegression(), ml_m=LogisticRegression())
            return dml.DoubleMLQTE(data, **lr, quantiles=[0.3, 0.6], score=spec["score"], **a)
        return zoo.build_model(s, data, learners, zoo.make_weights(s), **kw)

    key = spec["kind"] if comp else s["model"]
    lab = labels(df, STRATA[key]) if key in STRATA else None
    C = [df[x].values for x in roles["cluster_cols"]] if s["cluster"] else None
    strata = fitted.strata_of(df)
    mon.sig(key, s["cluster"], s["n_folds"], s["n_rep"], "-".join(spec["steps"]))

    def drawn_ok(m, where):
        if C is None:
            judge(mon, m.smpls, n, s["n_rep"] if where == "constructed" else m.n_rep, s["n_folds"] if where == "constructed" else m.n_folds, lab, True, where)
        else:
            judge_cluster(mon, m.smpls, m.smpls_cluster, C, m.n_rep, cl_folds[0], where)
            mon.check(m.n_folds == cl_folds[0] ** len(C), "counts", "n_folds of clustered model")

    cl_folds = [s["n_folds"]]
    ms = []
    for sd in (spec["seed"], spec["seed"], spec["seed"] + 1):
        np.random.seed(sd % 2**31)
        ms.append(mk())
    m = ms[0]
    flat = [np.concatenate([te for r in x.smpls for _, te in r]) for x in ms]
    mon.check(np.array_equal(flat[0], flat[1]), "reproducible", f"{key}: same seed, different splitting")
    if C is None:
        mon.check(not np.array_equal(flat[0], flat[2]), "seed-matters", f"{key}: different seeds, same splitting")
    drawn_ok(m, "constructed")
    if comp:
        parts_follow(mon, spec, m, "constructed")
    # delayed splitting
    e = mk(draw_sample_splitting=False)
    mon.raises(lambda: e.smpls, "refuse", "splitting requested before it exists", exc=ValueError)
    mon.raises(lambda: e.fit(), "refuse", "fit without splitting")
    e.draw_sample_splitting()
    drawn_ok(e, "delayed draw")
    if comp:
        parts_follow(mon, spec, e, "delayed draw")
    can_redraw = True
    for st in spec["steps"]:
        before = state(m)
        if st == "redraw":
            if not can_redraw:
                continue
            m.draw_sample_splitting()
            drawn_ok(m, "redraw")
            if comp:
                parts_follow(mon, spec, m, "redraw")
        elif st in ("lists", "arrays", "pairs"):
            R, F = int(rng.integers(1, 4)), int(rng.integers(2, 4))
            if s.get("weights") == "dict" or spec["kind"] == "APOS":
                R = s["n_rep"]
            if st == "pairs":
                if s.get("weights") == "dict" and s["n_rep"] > 1:
                    continue
                R = 1
            if C is not None:
                g, cl = fitted.cluster_splits(rng, C, R, F)
                if st == "arrays":
                    cl = [[([list(q) for q in a], [list(q) for q in b]) for a, b in r] for r in cl]
                m.set_sample_splitting(g[0] if st == "pairs" else g, all_smpls_cluster=cl)
                cl_folds[0] = F
                eq_given(mon, m, g, st)
                mon.check(len(m.smpls_cluster) == R, "as-given-counts")
                judge_cluster(mon, m.smpls, m.smpls_cluster, C, R, F, st, drawn=False) if F <= min(len(np.unique(c)) for c in C) // 2 else None
            else:
                g = user_splits(rng, strata, R, F, drop=float(rng.choice([0, 0.2])), kind="list" if st != "arrays" else "array")
                ret = m.set_sample_splitting(g[0] if st == "pairs" else g)
                mon.check(ret is m, "returns-self")
                eq_given(mon, m, g, st)
                judge(mon, m.smpls, n, R, F, None, False, st)
            if comp:
                parts_follow(mon, spec, m, st)
            else:
                mon.check(m.psi.shape == (n, R, len(roles["d_cols"])) and m.all_coef.shape == (len(roles["d_cols"]), R), "as-given-shapes", "result arrays do not have the new number of repetitions")
            can_redraw = True
        elif st == "nosplit":
            if C is not None or comp or s.get("weights") == "dict":
                continue
            al = np.arange(n)
            m.set_sample_splitting((al, al) if rng.random() < 0.5 else [(rng.permutation(al).tolist(), al.tolist())])
            mon.check(m.n_rep == 1 and m.n_folds == 1 and len(m.smpls) == 1 and len(m.smpls[0]) == 1, "nosplit", "")
            mon.check(np.array_equal(m.smpls[0][0][0], al) and np.array_equal(m.smpls[0][0][1], al), "as-given", "no splitting")
            can_redraw = False
        elif st == "invalid":
            F = 3
            if C is None:
                good = user_splits(rng, strata, int(rng.integers(1, 4)), F)
                for nm, g in invalid_variants(rng, good, n):
                    mon.raises(lambda: m.set_sample_splitting(g), "refuse", f"{key}: {nm}", exc=(ValueError, TypeError, IndexError))
                    mon.check(state_same(m, before), "state-kept", f"refused splitting ({nm}) changed the splitting")
                r0 = good[0]
                for nm, g in [("pairs with a gap", r0[:-1]), ("pair that is no full sample", (np.arange(n - 1), np.arange(n))), ("pair of halves", (np.arange(n // 2), np.arange(n // 2, n))),
                              ("pair train only", (np.arange(n), np.arange(n - 1))), ("three elements", (np.arange(n),) * 3), ("mixed list", [r0[0], list(r0[1])]), ("list with a number", [r0, 3]),
                              ("one overlapping pair", [(np.arange(n - 1), np.arange(n))])]:
                    mon.raises(lambda: m.set_sample_splitting(g), "refuse", f"{key}: {nm}", exc=(ValueError, TypeError, IndexError))
                    mon.check(state_same(m, before), "state-kept", f"refused splitting ({nm}) changed the splitting")
            else:
                R = int(rng.integers(1, 4))
                g, cl = fitted.cluster_splits(rng, C, R, 2)
                r, f, j = int(rng.integers(R)), int(rng.integers(len(g[0]))), int(rng.integers(len(C)))

                def cp():
                    return [[([np.array(q) for q in a], [np.array(q) for q in b]) for a, b in x] for x in cl]

                b = [("no clusters given", None), ("fewer repetitions of clusters", cl[:-1]), ("fewer folds of clusters", cl[:-1] + [cl[-1][:-1]])]
                c = cp()
                c[r][f][1][j] = c[r][f][1][j][:-1]
                b.append(("a cluster is in no list", c))
                c = cp()
                c[r][f][0][j] = np.append(c[r][f][0][j], c[r][f][1][j][0])
                b.append(("a cluster is in the training and the test list", c))
                c = cp()
                c[r][f][0][j] = np.append(c[r][f][0][j][:-1], 10**6)
                b.append(("an unknown cluster", c))
                for nm, x in b:
                    mon.raises(lambda: m.set_sample_splitting(g, all_smpls_cluster=x), "refuse", f"{key}: {nm}", exc=(ValueError, TypeError))
                    mon.check(state_same(m, before), "state-kept", f"refused splitting ({nm}) changed the splitting")
                for nm, x in invalid_variants(rng, g, n)[:8]:
                    mon.raises(lambda: m.set_sample_splitting(x, all_smpls_cluster=cl), "refuse", f"{key}: {nm}", exc=(ValueError, TypeError, IndexError))
                    mon.check(state_same(m, before), "state-kept", f"refused splitting ({nm}) changed the splitting")
            if comp:
                parts_follow(mon, spec, m, "after refusal")
        elif st == "fit":
            if s.get("weights") == "dict" and m.n_rep != s["n_rep"]:
                continue
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m.fit()
            except Exception as ex:
                mon.count("fit-failed:" + type(ex).__name__)
                continue
            mon.check(state_same(m, before), "fit-keeps-splits", "fitting changed the splitting")
            if comp:
                parts_follow(mon, spec, m, "fit")
