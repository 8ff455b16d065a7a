"""C26 histories: random sequences of public operations; after each one the object is compared with a fresh object that got only the last splitting, settings and fit."""
import contextlib
import copy
import io
import pickle
import warnings

import joblib
import numpy as np
import pandas as pd

from vlib import fitted, fw, spy, zoo
from vlib.core import Skip
from vlib.ops import basis_frame, grids, own_predictions, quiet
from vlib.splits import user_splits
from vlib.state import diff, public

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 330
RULE = ("random histories (6-12 public operations) on a model of every class, on APOS/QTE, on RDFlex and on inference objects, with a second object sharing data and learners; after every operation all public properties and the outcomes of the "
        "reporting methods are compared with those of a fresh object which received only the current splitting, settings, last fit, last bootstrap and last sensitivity analysis; everything handed out before is compared with its copy. "
        "distinct = (model, options, preceding operation, operation)")
FLOORS = {"ev:latest": 900, "ev:probes": 900, "ev:other-object": 900, "ev:handed-out": 1500, "ev:copy": 60}
ASSUMPTIONS = ["learners are deterministic, so a fresh object with the same splitting and settings must give the same results"]
QUICK_BUDGET = 500
RTOL = 1e-8


def gen(rng, tier):
    k_ops = (5, 10) if tier == "quick" else (8, 24)
    while True:
        u = rng.random()
        o = dict(sub=int(rng.integers(2**31)), n_ops=int(rng.integers(*k_ops)))
        if u < 0.66:
            s = fitted.draw(rng, small=True, max_rep=2)
            if s["split"] == "nosplit":
                s["split"] = "drawn"
            s["n_folds"] = min(s["n_folds"], 3)
            o.update(kind="single", model=s["model"], s=s)
        elif u < 0.82:
            model = str(rng.choice(["APOS", "QTE"]))
            s = zoo.draw_spec(rng, model="APO" if model == "APOS" else str(rng.choice(["PQ", "CVAR", "LPQ"])), small=True, max_rep=2 if model == "APOS" else 1, allow_cluster=False)
            if model == "APOS":
                s["binary_y"] = s["g_clf"] = False
            o.update(kind="composite", model=model, s=s, n_ops=min(o["n_ops"], 6))
        elif u < 0.87:
            o.update(kind="rdd", model="RD", s=dict(seed=int(rng.integers(2**31)), fuzzy=bool(rng.random() < 0.5), n_rep=int(rng.integers(1, 3))), n_ops=4)
        else:
            o.update(kind="frames", model="FW")
        yield o


def run(o, mon):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), joblib.parallel_backend("threading"):
        warnings.simplefilter("ignore")
        {"single": single, "composite": composite, "rdd": rdd, "frames": frames}[o["kind"]](o, mon)


# ------------------------------------------------------------------ observation
SKIP = ("models", "modellist", "modellist_0", "modellist_1", "rdd_obj")


def models_shape(v):
    """which fitted learners are kept (their content is compared through their predictions elsewhere)"""
    if isinstance(v, dict):
        return {k: models_shape(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [models_shape(x) for x in v]
    if v is None:
        return None
    return (type(v).__name__, {k: x for k, x in v.get_params().items()} if hasattr(v, "get_params") else None)


def state(m):
    out = public(m, skip=SKIP)
    for nm in ("modellist", "modellist_0", "modellist_1"):
        if hasattr(m, nm):
            out[nm] = [public(x, depth=1, skip=SKIP) for x in getattr(m, nm)]
    if hasattr(m, "models"):
        out["models"] = models_shape(m.models)
    return out


def outcome(f, seed):
    np.random.seed(seed)
    try:
        v = f()
    except Exception as e:
        return ("raises", type(e).__name__)
    if isinstance(v, pd.DataFrame):
        return (list(v.columns), [str(i) for i in v.index], v.map(lambda x: x if isinstance(x, str) else float(x)).to_dict("list"))
    if hasattr(v, "thetas"):
        return public(v)
    if isinstance(v, (dml.DoubleMLBLP,)):
        return outcome(lambda: v.summary, seed)
    return v


def probes(m, B=None, seed=0):
    fs = {"str": lambda: str(m), "confint": lambda: m.confint(level=0.9)}
    if hasattr(m, "p_adjust"):
        fs.update(joint=lambda: m.confint(joint=True), bonf=lambda: m.p_adjust(method="bonferroni"), rw=lambda: m.p_adjust())
    if hasattr(m, "evaluate_learners"):
        fs["eval"] = lambda: m.evaluate_learners()
    if hasattr(m, "causal_contrast"):
        fs["contrast"] = lambda: m.causal_contrast(m.treatment_levels[0])
    if hasattr(m, "construct_framework"):
        fs["frame"] = lambda: m.construct_framework()
    if B is not None:
        for nm in ("cate", "capo"):
            if hasattr(m, nm):
                fs[nm] = lambda nm=nm: getattr(m, nm)(B)
    if hasattr(m, "sensitivity_analysis"):
        fs["sens_summary"] = lambda: m.sensitivity_summary
    return {k: outcome(f, seed) for k, f in fs.items()}


RESULTS = ["coef", "se", "all_coef", "all_se", "psi", "psi_deriv", "predictions", "nuisance_targets", "nuisance_loss", "sensitivity_elements", "boot_t_stat", "summary", "framework", "sensitivity_params", "smpls", "psi_elements", "models", "ci", "h", "pval", "t_stat"]


class Kept:
    """results handed out by the object, with copies"""

    def __init__(self, mon):
        self.mon, self.rows = mon, []

    def take(self, m, when):
        for a in RESULTS:
            try:
                v = getattr(m, a, None)
            except Exception:
                continue
            if v is None:
                continue
            self.rows.append((f"{a} (handed out after {when})", v, self.snap(a, v)))
        self.rows = self.rows[-60:]

    @staticmethod
    def snap(a, v):
        if a == "framework":
            return {k: copy.deepcopy(getattr(v, k)) for k in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi", "n_rep", "sensitivity_elements")}
        if a == "models":
            return models_shape(v)
        if isinstance(v, pd.DataFrame):
            return v.copy()
        return copy.deepcopy(v)

    def verify(self, after):
        for what, v, s in self.rows:
            a = what.split(" ")[0]
            now = self.snap(a, v) if a in ("framework", "models") else v
            if isinstance(s, pd.DataFrame):
                ok = s.equals(now)
            elif a == "models":
                ok = s == now
            else:
                ok = diff({"": to_snap(s)}, {"": to_snap(now)}) is None
            self.mon.check(ok, "handed-out", f"{what} changed by {after}")


def to_snap(v):
    from vlib.ops import snap

    return snap(v)


# ------------------------------------------------------------------ single models
class Hist:
    """what a fresh object has to receive to be in the same state"""

    def __init__(self):
        self.smpls = self.cluster = None
        self.params_fit = self.fit = self.boot = self.sens = None
        self.fitted = False

    def reset(self):
        self.fitted, self.fit, self.boot, self.sens, self.params_fit = False, None, None, None, None


def get_params(m):
    return copy.deepcopy(m.params)


def put_params(m, P):
    for ln, per in (P or {}).items():
        for d, reps in per.items():
            if reps is not None and any(r is not None for r in reps):
                m.set_ml_nuisance_params(ln, d, copy.deepcopy(reps))


def single(o, mon):
    s = o["s"]
    rng = np.random.default_rng(o["sub"])
    c = fitted.fit(s, do_fit=False)
    A, df, roles = c.model, c.df, c.roles
    n = len(df)
    what = " ".join(str(x) for x in (s["model"], s.get("score"), s.get("kind", "")))
    # a second model on the same data and learner objects
    s2 = {**s, "trimming_threshold": 0.2}
    Bm = zoo.build_model(s2, c.data, c.learners, c.weights)
    Bm.fit()
    if not s["cluster"]:
        Bm.bootstrap(n_rep_boot=3)
    bstate = state(Bm)
    basis = basis_frame(np.random.default_rng(3), df, 2) if s["model"] in ("IRM", "PLR", "APO") and s["n_rep"] < 3 else None
    H = Hist()
    kept = Kept(mon)

    def take_splits():
        H.smpls = copy.deepcopy(A.smpls)
        H.cluster = copy.deepcopy(A.smpls_cluster) if s["cluster"] else None

    take_splits()
    weights_dict = s.get("weights") == "dict"
    prev = "new"

    def replica():
        L = zoo.make_learners(s, record=False)
        R = zoo.build_model(s, zoo.make_data(s, df, roles), L, zoo.make_weights(s), n_rep=len(H.smpls), draw_sample_splitting=False)
        R.set_sample_splitting(copy.deepcopy(H.smpls), **({"all_smpls_cluster": copy.deepcopy(H.cluster)} if s["cluster"] else {}))
        if H.fitted:
            put_params(R, H.params_fit)
            R.fit(**copy.deepcopy(H.fit))
            clear = {ln: {d: None for d in per} for ln, per in H.params_fit.items()}
            for ln in clear:
                for d in clear[ln]:
                    R.set_ml_nuisance_params(ln, d, None)
        put_params(R, get_params(A))
        if H.boot:
            np.random.seed(H.boot[0])
            R.bootstrap(**H.boot[1])
        if H.sens:
            R.sensitivity_analysis(**H.sens)
        return R

    ext_ok = s["model"] in zoo.EXT_OK and not s["callable"] and not (s["model"] == "PLIV" and s["kind"] != "std") and len(roles["d_cols"]) == 1
    sens_ok = s["model"] in zoo.SENS_OK and not s["callable"]
    ops = ["fit"] * 4 + ["draw", "split", "split", "params", "params", "tune", "boot", "boot", "read", "copy"]
    if sens_ok:
        ops += ["sens", "sens", "bench"]
    if ext_ok:
        ops += ["extfit", "extfit"]
    for i in range(o["n_ops"]):
        op = "fit" if i == 0 and rng.random() < 0.7 else str(rng.choice(ops))
        if op in ("boot", "sens", "bench") and not H.fitted or op == "boot" and s["cluster"]:
            op = "fit"
        kept.take(A, prev)
        if op in ("fit", "extfit"):
            kw = dict(store_predictions=bool(rng.random() < 0.7), store_models=bool(rng.random() < 0.3))
            if rng.random() < 0.15:
                kw["n_jobs_cv"] = 2
            if op == "extfit":
                E = own(A, s, df, roles, rng, H)
                if E is None:
                    op = "fit"
                else:
                    kw["external_predictions"] = E
            H.reset()
            H.params_fit = get_params(A)
            A.fit(**copy.deepcopy(kw))
            H.fitted, H.fit = True, kw
        elif op == "draw":
            A.draw_sample_splitting()
            H.reset()
            take_splits()
        elif op == "split":
            R_ = len(A.smpls) if weights_dict else int(rng.integers(1, 4))
            K = int(rng.integers(2, 4))
            if s["cluster"]:
                a, b = fitted.cluster_splits(rng, [df[x].values for x in roles["cluster_cols"]], R_, K)
                A.set_sample_splitting(a, all_smpls_cluster=b)
            else:
                A.set_sample_splitting(user_splits(rng, fitted.strata_of(df), R_, K, 0.1 if rng.random() < 0.4 else 0.0))
            H.reset()
            take_splits()
        elif op == "params":
            ln = str(rng.choice(A.params_names))
            v = {"alpha": float(rng.choice([0.3, 4.0, 11.0]))}
            if rng.random() < 0.4:
                v = [[{"alpha": float(rng.choice([0.3, 4.0, 11.0]))} for _ in range(A.n_folds)] for _ in range(A.n_rep)]
            A.set_ml_nuisance_params(ln, str(rng.choice(roles["d_cols"])), v)
        elif op == "tune":
            if s["model"] == "SSM" and s["score"] == "nonignorable":
                pass
            before_p = get_params(A)
            try:
                A.tune(grids(A, rng), n_folds_tune=2, tune_on_folds=bool(rng.random() < 0.3), set_as_params=bool(rng.random() < 0.7))
            except Exception as e:  # too few observations of a class in a tuning fold
                if "class" not in str(e) and "members" not in str(e) and "samples" not in str(e) and "fits failed" not in str(e):
                    raise
                mon.check(diff(before_p, get_params(A)) is None, "latest", f"{what}: settings after a failed tuning")
        elif op == "boot":
            H.boot = (int(rng.integers(2**31)), dict(method=str(rng.choice(["normal", "Bayes", "wild"])), n_rep_boot=int(rng.integers(2, 9))))
            np.random.seed(H.boot[0])
            A.bootstrap(**H.boot[1])
        elif op == "sens":
            H.sens = dict(cf_y=float(rng.choice([0.02, 0.1])), cf_d=float(rng.choice([0.03, 0.2])), rho=float(rng.choice([1.0, -0.5])), level=float(rng.choice([0.9, 0.8])), null_hypothesis=float(rng.choice([0.0, 0.3])))
            quiet(lambda: A.sensitivity_analysis(**H.sens))
        elif op == "bench":
            xs = [x for x in roles["x_cols"] if x != "uid"][:1]
            try:
                A.sensitivity_benchmark(xs)
            except Exception as e:  # learner settings or few covariates
                mon.count("benchmark-refused:" + type(e).__name__)
        elif op == "copy":
            C = copy.deepcopy(A) if rng.random() < 0.6 else pickle.loads(pickle.dumps(A))
            mon.check(diff(state(A), state(C), rtol=RTOL) is None, "copy", f"{what}: a copy differs: {diff(state(A), state(C), rtol=RTOL)}")
            sa = state(A)
            C.draw_sample_splitting()
            C.fit(store_models=True)
            ln = C.params_names[0]
            C.set_ml_nuisance_params(ln, roles["d_cols"][0], {"alpha": 7.7})
            r = diff(sa, state(A))
            mon.check(r is None, "copy", f"{what}: operations on a copy changed {r}")
        else:
            probes(A, basis)
        mon.count("op:" + op)
        judge(o, mon, A, replica, H, what, prev, op, basis)
        kept.verify(op)
        r = diff(bstate, state(Bm))
        mon.check(r is None, "other-object", f"{what}: {op} on one model changed {r} of another one")
        mon.sig(what, s["cluster"], prev, op)
        prev = op
    # the other model is still usable and the shared learners are as they were
    L = zoo.make_learners(s, record=False)
    for k in L:
        mon.check(c.learners[k].get_params() == L[k].get_params() and not hasattr(c.learners[k], "coef_"), "other-object", f"{what}: the user's learner {k} was modified")
    sm = copy.deepcopy(Bm.smpls)
    Bm.fit()
    if s["cluster"]:
        return
    F = zoo.build_model(s2, zoo.make_data(s, df, roles), L, zoo.make_weights(s), draw_sample_splitting=False)
    F.set_sample_splitting(sm)
    F.fit()
    r = diff(state(F), state(Bm), rtol=RTOL)
    mon.check(r is None, "other-object", f"{what}: refit of the second model: {r}")


def own(A, s, df, roles, rng, H):
    """external predictions: some learners' predictions of a fresh fit on the current splitting, perturbed"""
    L = zoo.make_learners(s, record=False)
    R = zoo.build_model(s, zoo.make_data(s, df, roles), L, zoo.make_weights(s), n_rep=len(H.smpls), draw_sample_splitting=False)
    R.set_sample_splitting(copy.deepcopy(H.smpls), **({"all_smpls_cluster": copy.deepcopy(H.cluster)} if s["cluster"] else {}))
    R.fit()
    names = [k for k in R.params_names if R.predictions is not None and R.predictions.get(k) is not None and not np.all(np.isnan(R.predictions[k].astype(float)))]
    if s["model"] != "LPQ":
        names = [k for k in names if rng.random() < 0.6] or names[:1]
    if not names or np.any(np.isnan(np.concatenate([R.predictions[k].ravel() for k in names]).astype(float))):
        return None
    if s["model"] == "PLR" and s["score"] == "IV-type" and "ml_g" in names and "ml_m" in names and "ml_l" not in names:
        names.append("ml_l")
    E = own_predictions(R, roles, names)
    for d in E:
        for k in E[d]:
            p = E[d][k]
            E[d][k] = np.clip(p * 0.9 + 0.05, 0.02, 0.98) if np.all((p >= 0) & (p <= 1)) and not set(np.unique(p)) <= {0.0, 1.0} else p
    return E


def judge(o, mon, A, replica, H, what, prev, op, basis):
    R = replica()
    r = diff(state(R), state(A), rtol=RTOL)
    mon.check(r is None, "latest", f"{what}: after {prev} and {op} ({'fitted' if H.fitted else 'not fitted'}) the object differs from a fresh one: {r}")
    pa, pr = probes(A, basis), probes(R, basis)
    for k in pr:
        r = diff({"": to_snap(pr[k])}, {"": to_snap(pa[k])}, rtol=RTOL)
        mon.check(r is None, "probes", f"{what}: after {prev} and {op} {k} differs from a fresh object: {r}")


# ------------------------------------------------------------------ composites
def composite(o, mon):
    s = o["s"]
    rng = np.random.default_rng(o["sub"])
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    L = zoo.make_learners(s, record=False)
    kw = dict(n_folds=2, n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"])
    levels = [int(v) for v in rng.permutation(s["levels"])[: int(rng.integers(1, 4))]] if o["model"] == "APOS" else None
    quant = sorted(float(q) for q in rng.choice([0.3, 0.4, 0.5, 0.6], size=int(rng.integers(1, 3)), replace=False))

    def build(dd, ll, **k):
        if o["model"] == "APOS":
            return dml.DoubleMLAPOS(dd, ll["ml_g"], ll["ml_m"], treatment_levels=levels, **kw, **k)
        return dml.DoubleMLQTE(dd, ll["ml_g"], ll["ml_m"], quantiles=quant, score={"PQ": "PQ", "CVAR": "CVaR", "LPQ": "LPQ"}[s["model"]], **kw, **k)

    A, O = build(data, L), build(data, L)
    O.fit()
    ostate = state(O)
    H = Hist()
    H.smpls = copy.deepcopy(A.smpls)
    kept = Kept(mon)
    prev = "new"
    sens_ok = o["model"] == "APOS"
    what = o["model"] + " " + s["score"]

    def replica():
        R = build(zoo.make_data(s, df, roles), zoo.make_learners(s, record=False), draw_sample_splitting=False)
        R.set_sample_splitting(copy.deepcopy(H.smpls))
        if H.fitted:
            R.fit(**copy.deepcopy(H.fit))
        if H.boot:
            np.random.seed(H.boot[0])
            R.bootstrap(**H.boot[1])
        if H.sens:
            R.sensitivity_analysis(**H.sens)
        return R

    for i in range(o["n_ops"]):
        op = "fit" if i == 0 and rng.random() < 0.7 else str(rng.choice(["fit", "fit", "draw", "split", "boot", "read", "copy"] + (["sens", "sens", "bench", "extfit"] if sens_ok else [])))
        if op in ("boot", "sens", "bench") and not H.fitted:
            op = "fit"
        kept.take(A, prev)
        if op in ("fit", "extfit"):
            k = dict(store_predictions=bool(rng.random() < 0.7), store_models=bool(rng.random() < 0.3))
            if rng.random() < 0.3:
                k["n_jobs_models"] = 2
            if op == "extfit":
                n, R = len(df), A.n_rep
                lev = [v for v in levels if rng.random() < 0.7] or levels[:1]
                k["external_predictions"] = {v: {"ml_m": np.clip(rng.uniform(size=(n, R)), 0.1, 0.6)} for v in lev}
            H.reset()
            A.fit(**copy.deepcopy(k))
            H.fitted, H.fit = True, k
        elif op == "draw":
            A.draw_sample_splitting()
            H.reset()
            H.smpls = copy.deepcopy(A.smpls)
        elif op == "split":
            A.set_sample_splitting(user_splits(rng, fitted.strata_of(df), int(rng.integers(1, 3)) if s["model"] == "APO" else 1, 2, 0.0))
            H.reset()
            H.smpls = copy.deepcopy(A.smpls)
        elif op == "boot":
            H.boot = (int(rng.integers(2**31)), dict(method=str(rng.choice(["normal", "Bayes", "wild"])), n_rep_boot=int(rng.integers(2, 9))))
            np.random.seed(H.boot[0])
            A.bootstrap(**H.boot[1])
        elif op == "sens":
            H.sens = dict(cf_y=float(rng.choice([0.02, 0.1])), cf_d=float(rng.choice([0.03, 0.2])), rho=float(rng.choice([1.0, -0.5])))
            quiet(lambda: A.sensitivity_analysis(**H.sens))
        elif op == "bench":
            try:
                A.sensitivity_benchmark([x for x in roles["x_cols"] if x != "uid"][:1])
            except Exception as e:
                mon.count("benchmark-refused:" + type(e).__name__)
        elif op == "copy":
            C = copy.deepcopy(A) if rng.random() < 0.6 else pickle.loads(pickle.dumps(A))
            r = diff(state(A), state(C), rtol=RTOL)
            mon.check(r is None, "copy", f"{what}: a copy differs: {r}")
            sa = state(A)
            C.draw_sample_splitting()
            C.fit()
            r = diff(sa, state(A))
            mon.check(r is None, "copy", f"{what}: operations on a copy changed {r}")
        else:
            probes(A)
        mon.count("op:" + op)
        judge(o, mon, A, replica, H, what, prev, op, None)
        kept.verify(op)
        r = diff(ostate, state(O))
        mon.check(r is None, "other-object", f"{what}: {op} on one object changed {r} of another one")
        mon.sig(what, prev, op)
        prev = op


# ------------------------------------------------------------------ regression discontinuity
def rdd(o, mon):
    from doubleml.rdd import RDFlex

    s = o["s"]
    rng = np.random.default_rng(o["sub"])
    r = np.random.default_rng(s["seed"])
    n = 420
    x = r.normal(size=n)
    W = r.uniform(-1, 1, size=(n, 2))
    right = x >= 0
    d = (r.uniform(size=n) < 0.2 + 0.6 * right).astype(int) if s["fuzzy"] else right.astype(int)
    y = W[:, 0] + d + 0.2 * x + r.normal(size=n) * 0.4
    df = pd.DataFrame(dict(uid=spy.UID0 + np.arange(n), a=W[:, 0], b=W[:, 1], s=x, d=d, y=y))
    data = dml.DoubleMLData(df, "y", "d", x_cols=["uid", "a", "b"], s_col="s")

    def make():
        np.random.seed(o["sub"] % 2**31)
        return RDFlex(data, spy.SpyReg(record=False), spy.SpyClf(record=False) if s["fuzzy"] else None, fuzzy=s["fuzzy"], n_folds=2, n_rep=s["n_rep"], h_fs=1.0)

    A, O = make(), make()
    O.fit(n_iterations=1)
    ostate = state(O)
    kept, prev, it, asked = Kept(mon), "new", None, False
    for i in range(o["n_ops"]):
        op = str(rng.choice(["fit1", "fit2", "fit3", "read", "copy", "confint"]))
        kept.take(A, prev)
        if op.startswith("fit"):
            it = int(op[3])
            asked = False
            A.fit(n_iterations=it)
        elif op == "copy":
            C = copy.deepcopy(A)
            sa = state(A)
            mon.check(diff(sa, state(C)) is None, "copy", f"RD: a copy differs: {diff(sa, state(C))}")
            C.fit(n_iterations=1)
            mon.check(diff(sa, state(A)) is None, "copy", f"RD: operations on a copy changed {diff(sa, state(A))}")
        elif op == "confint" and it:
            A.confint(level=0.8)
            asked = True
        R = make()
        if it:
            R.fit(n_iterations=it)
            if asked:
                R.confint(level=0.8)
        q = diff(state(R), state(A), rtol=RTOL)
        mon.check(q is None, "latest", f"RD: after {prev} and {op} the object differs from a fresh one: {q}")
        for k, f in (("confint", lambda m: m.confint()), ("str", str)):
            q = diff({"": to_snap(outcome(lambda: f(R), 0))}, {"": to_snap(outcome(lambda: f(A), 0))}, rtol=RTOL)
            mon.check(q is None, "probes", f"RD: after {prev} and {op} {k} differs: {q}")
            asked = asked and k == "str"
        if it:
            A.confint(level=0.8)
            asked = True
        kept.verify(op)
        q = diff(ostate, state(O))
        mon.check(q is None, "other-object", f"RD: {op} changed {q} of another object")
        mon.count("op:" + op)
        mon.sig("RD", s["fuzzy"], prev, op)
        prev = op


# ------------------------------------------------------------------ inference objects
def frames(o, mon):
    """a pool of inference objects; every object is described by an expression which is evaluated again on fresh objects"""
    rng = np.random.default_rng(o["sub"])
    n, K, R = int(rng.integers(20, 50)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    sens = str(rng.choice(["", "short", "full"])) or None
    base = [fw.parts(rng, n, K, R, sens=sens) for _ in range(2)]
    pool = [dict(expr=("base", i), obj=fw.make(base[i]), boot=None, sens=None, names=None) for i in range(2)]

    def ev(e, seen):
        """fresh evaluation of an expression"""
        if e[0] == "base":
            return fw.make(base[e[1]])
        a = [ev(x, seen) if isinstance(x, tuple) else x for x in e[1:]]
        if e[0] == "+":
            return a[0] + a[1]
        if e[0] == "-":
            return a[0] - a[1]
        if e[0] == "*":
            return a[0] * a[1]
        return dml.concat(a)

    prev = "new"
    for _ in range(2 * o["n_ops"]):
        op = str(rng.choice(["+", "-", "*", "concat", "boot", "boot", "sens", "sens", "names", "read", "copy"]))
        p = pool[int(rng.integers(len(pool)))]
        if op in "+-":
            q = pool[int(rng.integers(len(pool)))]
            if p["obj"].n_thetas != q["obj"].n_thetas or depth(p["expr"]) + depth(q["expr"]) > 8:
                continue
            pool.append(dict(expr=(op, p["expr"], q["expr"]), obj=p["obj"] + q["obj"] if op == "+" else p["obj"] - q["obj"], boot=None, sens=None, names=None))
        elif op == "*":
            v = float(rng.choice([2.0, -0.5, 0.0, 3.0]))
            pool.append(dict(expr=("*", p["expr"], v), obj=p["obj"] * v if rng.random() < 0.5 else v * p["obj"], boot=None, sens=None, names=None))
        elif op == "concat":
            q = pool[int(rng.integers(len(pool)))]
            if depth(p["expr"]) + depth(q["expr"]) > 8:
                continue
            pool.append(dict(expr=("c", p["expr"], q["expr"]), obj=dml.concat([p["obj"], q["obj"]]), boot=None, sens=None, names=None))
        elif op == "boot":
            p["boot"] = (int(rng.integers(2**31)), dict(method=str(rng.choice(["normal", "Bayes", "wild"])), n_rep_boot=int(rng.integers(2, 9))))
            np.random.seed(p["boot"][0])
            p["obj"].bootstrap(**p["boot"][1])
        elif op == "sens" and sens and p["obj"].sensitivity_elements is not None:
            p["sens"] = dict(cf_y=float(rng.choice([0.02, 0.1])), cf_d=float(rng.choice([0.03, 0.2])), rho=float(rng.choice([1.0, 0.5])), level=float(rng.choice([0.9, 0.8])))
            p["obj"].sensitivity_analysis(**p["sens"])
        elif op == "names":
            p["names"] = [f"p{int(rng.integers(100))}_{k}" for k in range(p["obj"].n_thetas)]
            p["obj"].treatment_names = list(p["names"])
        elif op == "copy":
            C = copy.deepcopy(p["obj"])
            sa = public(p["obj"])
            mon.check(diff(sa, public(C)) is None, "copy", f"a copied inference object differs: {diff(sa, public(C))}")
            C.bootstrap(n_rep_boot=3)
            mon.check(diff(sa, public(p["obj"])) is None, "copy", f"operations on a copy changed {diff(sa, public(p['obj']))}")
        for q in pool[-6:] + pool[:2]:
            Rf = ev(q["expr"], {})
            if q["names"]:
                Rf.treatment_names = list(q["names"])
            if q["boot"]:
                np.random.seed(q["boot"][0])
                Rf.bootstrap(**q["boot"][1])
            if q["sens"]:
                Rf.sensitivity_analysis(**q["sens"])
            r = diff(strip(public(Rf), q), strip(public(q["obj"]), q), rtol=RTOL)
            mon.check(r is None, "latest", f"inference object {show(q['expr'])} after {prev} and {op}: {r}")
            pa, pr = probes_fw(q["obj"]), probes_fw(Rf)
            for k in pr:
                r = diff({"": to_snap(pr[k])}, {"": to_snap(pa[k])}, rtol=RTOL)
                if not (k == "summary" and q["names"] is None):
                    mon.check(r is None, "probes", f"inference object {show(q['expr'])} after {prev} and {op}: {k}: {r}")
        mon.count("op:" + op)
        mon.sig("FW", sens, prev, op, len(pool))
        prev = op


def strip(s, q):
    """the names of derived objects depend on when their parents were named"""
    s = dict(s)
    if q["names"] is None:
        s.pop("treatment_names", None)
    return s


def probes_fw(f):
    return {k: outcome(g, 0) for k, g in dict(confint=lambda: f.confint(level=0.9).to_numpy(), joint=lambda: f.confint(joint=True).to_numpy(), rw=lambda: np.asarray(f.p_adjust()[0] if isinstance(f.p_adjust(), tuple) else f.p_adjust().to_numpy()),
                                             bonf=lambda: np.asarray(f.p_adjust(method="bonferroni")[0] if isinstance(f.p_adjust(method="bonferroni"), tuple) else f.p_adjust(method="bonferroni").to_numpy())).items()}


def depth(e):
    return 1 if e[0] == "base" else 1 + sum(depth(x) for x in e[1:] if isinstance(x, tuple))


def show(e):
    return f"f{e[1]}" if e[0] == "base" else "(" + f" {e[0]} ".join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:]) + ")"
