"""C18 symmetries: pairs of related executions (transformed data, folds and settings) with equivariant learners."""
import warnings

import numpy as np
import pandas as pd

from vlib import fitted, zoo
from vlib.core import Mon, Skip
from vlib.oracle import f64
from vlib.splits import user_splits
from vlib.spy import SpyClf, SpyReg, split_uid

LEVEL = "exploration"
N_QUICK = 900
RULE = ("random model configuration fitted on supplied folds with least-squares learners, then fitted again after each of three transformations out of: shift / scale / flip the outcome, "
        "add a multiple of the treatment, shift / scale a treatment, recombine or scale the instruments, affine recombination of the covariates, permute observations (with folds, weights), "
        "reorder folds, reorder repetitions, rename / reorder columns and roles, reorder treatments, relabel clusters, swap cluster variables, change the index, change dtypes, swap the arms, relabel treatment levels; "
        "distinct = distinct (transformation, model configuration); non-trivial = both executions finished and were compared")
FLOORS = {"ev:coef": 1500, "ev:se": 1500, "ev:psi": 400, "ev:joint-ci": 250, "ev:sensitivity": 150}
ASSUMPTIONS = ["learners are exact least squares (or a squashed linear rule), so they commute with the transformations up to rounding",
               "models that split a training fold at random inside a fit are not compared under permutations or label swaps that change that split",
               "quantile estimates solve a step equation numerically; where a transformation changes rounding they are compared up to 0.3 standard errors (20 % for the standard error) and must differ in most of five samples to count, otherwise exactly"]

ROUNDING = ("affine_x", "reorder", "y_affine")
INNER = ("PQ", "LPQ", "CVAR")


def inner_split(s):
    return s["model"] in INNER or (s["model"] == "SSM" and s["score"] == "nonignorable")


def options(s):
    m = s["model"]
    o = ["rename", "reorder", "index", "dtype", "rep_order", "affine_x"]
    if not inner_split(s):
        o += ["permute", "permute"]
    if not inner_split(s) or m == "SSM":
        o += ["fold_order"]
    if not s.get("binary_y"):
        o += ["y_affine", "y_affine"]
        if m not in INNER:
            o += ["y_flip"]
    if m in ("PLR", "PLIV"):
        if not s.get("m_clf"):
            o += ["d_scale", "y_plus_d"]
            if not s["callable"] and s["score"] == "partialling out" and s.get("kind") != "partialZ":
                o += ["d_shift"]
        if s["n_treat"] > 1:
            o += ["treat_order", "treat_order"]
    if m == "PLIV":
        o += ["z_affine"]
        if s["n_instr"] > 1:
            o += ["z_recombine", "z_recombine", "z_order"]
    if m == "SSM" and s["score"] == "nonignorable":
        o += ["z_affine"]
    if s["cluster"]:
        o += ["cluster_labels", "cluster_labels"]
        if s["cluster"] == 2:
            o += ["cluster_swap", "cluster_swap"]
    if (m == "IRM" and s["score"] == "ATE") or m == "IIVM" or (m == "SSM" and s["score"] == "missing-at-random"):
        o += ["arms", "arms", "arms"]
    if m == "APO":
        o += ["levels", "levels"]
    return o


def gen(rng, tier):
    while True:
        s = fitted.draw(rng, tier, splits=False, max_rep=3)
        s["split"] = "supplied"
        s["index"] = "range"
        s["uid_pos"] = 0
        s["counts"] = bool(not s.get("binary_y") and rng.random() < 0.3)
        o = options(s)
        if s["counts"]:
            o += ["dtype"] * 5
        s["trans"] = [str(t) for t in dict.fromkeys(rng.choice(o, size=3).tolist())]
        s["tseed"] = int(rng.integers(2**31 - 1))
        yield s


class State:
    """everything one execution is determined by"""


def base_state(s):
    a = State()
    a.s = dict(s)
    a.df, a.roles = zoo.make_frame(s)
    if s.get("counts"):
        for col in ["y"] + (a.roles["d_cols"] if s["model"] in ("PLR", "PLIV") and not s.get("binary_d") else []) + (a.roles["z_cols"] if s["model"] == "PLIV" else []):
            v = np.rint(4 * f64(a.df[col]))
            a.df[col] = np.minimum(v - v.min(), 99)
    a.weights = zoo.make_weights(s)
    rng = np.random.default_rng(s["seed"] + 5)
    a.cl = None
    if s["cluster"]:
        C = [a.df[x].values for x in a.roles["cluster_cols"]]
        a.splits, a.cl = fitted.cluster_splits(rng, C, s["n_rep"], s["n_folds"])
    else:
        a.splits = user_splits(rng, fitted.strata_of(a.df), s["n_rep"], s["n_folds"], 0.0)
    a.other = None  # names that replace the d / z ... columns
    return a


class _Std:
    """standardise the columns first, so that the tiny penalty does not depend on their units"""

    def fit(self, X, y, sample_weight=None):
        _, X = split_uid(X)
        self.mu_, sd = X.mean(axis=0), X.std(axis=0)
        self.sd_ = np.where(sd > 1e-12 * (np.abs(self.mu_) + 1e-30), sd, np.inf)
        return super().fit((X - self.mu_) / self.sd_, y, sample_weight)

    def _z(self, X):
        _, X = split_uid(X)
        return (X - self.mu_) / self.sd_


class EqReg(_Std, SpyReg):
    def predict(self, X):
        return self.scale * (self._z(X) @ self.beta_ + self.icpt_)


class EqClf(_Std, SpyClf):
    def _p(self, X):
        return 1.0 / (1.0 + np.exp(-1.2 * self.slope * (self._z(X) @ self.beta_ + self.icpt_)))


def learners(s):
    L = zoo.make_learners(s, record=False)
    out = {}
    for nm, v in L.items():
        cls = EqReg if isinstance(v, SpyReg) else EqClf
        out[nm] = cls(**{**v.get_params(), "fingerprint": 0.0, "alpha": 1e-9, "record": False})
    return out


def execute(a, joint=True):
    s = a.s
    data = zoo.make_data(s, a.df, a.roles)
    L = learners(s)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = zoo.build_model(s, data, L, a.weights, n_folds=2, n_rep=1) if s.get("weights") != "dict" else zoo.build_model(s, data, L, a.weights)
        if a.cl is not None:
            model.set_sample_splitting(a.splits, all_smpls_cluster=a.cl)
        else:
            model.set_sample_splitting(a.splits)
        np.random.seed(s["tseed"] % 2**31)
        model.fit()
    return model


# ------------------------------------------------------------- transformations: new state, expected (scale, shift) per treatment, order of treatments, row permutation
class Expect:
    def __init__(self, k):
        self.scale = np.ones(k)
        self.shift = np.zeros(k)
        self.treat = np.arange(k)
        self.rows = None
        self.reps = None
        self.sens = True
        self.psi = True


def copy_state(a):
    b = State()
    b.s = dict(a.s)
    b.df = a.df.copy()
    b.roles = {k: (list(v) if isinstance(v, list) else v) for k, v in a.roles.items()}
    b.weights = a.weights
    b.splits = a.splits
    b.cl = a.cl
    return b


def take_rows(w, p):
    if w is None:
        return None
    if isinstance(w, dict):
        return {k: v[p] for k, v in w.items()}
    return w[p]


def unit(a):
    """what the average potential outcome of a constant outcome 1 is: the mean of the weights"""
    if a.weights is None:
        return 1.0
    return float(np.mean(a.weights["weights"] if isinstance(a.weights, dict) else a.weights))


def transform(a, t, rng):
    s = a.s
    m = s["model"]
    k = len(a.roles["d_cols"])
    b = copy_state(a)
    e = Expect(k)
    df = b.df
    dcols = a.roles["d_cols"]
    if t == "y_affine":
        sc = float(rng.choice([1e-8, 1e-4, 0.01, 0.3, 7.0, 250.0, 1e7]))
        sh = float(rng.choice([0.0, -4.0, 60.0])) * min(sc, 1e3)
        if s.get("kind") == "partialZ":  # nothing is partialled out of the outcome: no intercept
            sh = 0.0
        df["y"] = sc * f64(df["y"]) + sh
        e.scale[:] = sc
        if m in INNER + ("APO",):
            e.shift[:] = sh * unit(a)
    elif t == "y_flip":
        sc, sh = -float(rng.choice([0.5, 1.0, 3.0, 1e-5])), float(rng.choice([0.0, 10.0]))
        if s.get("kind") == "partialZ":
            sh = 0.0
        df["y"] = sc * f64(df["y"]) + sh
        e.scale[:] = sc
        if m == "APO":
            e.shift[:] = sh * unit(a)
    elif t == "y_plus_d":
        c = rng.normal(size=k) * 2
        y = f64(df["y"]).copy()
        for j, dc in enumerate(dcols):
            y = y + c[j] * f64(df[dc])
        df["y"] = y
        if k > 1 and (not s.get("other_treat_cov", True) or s.get("kind") == "partialZ"):
            # the other treatments are not partialled out: only one of them may be added
            j0 = int(rng.integers(k))
            df["y"] = f64(a.df["y"]) + c[j0] * f64(df[dcols[j0]])
            e.only = [j0]
            e.shift[j0] = c[j0]
            e.sens = False
        else:
            e.shift[:] = c
        e.sens = e.sens and m == "PLR"
        e.sens_scale_only = True
    elif t == "d_scale":
        j = int(rng.integers(k))
        c = float(rng.choice([-3.0, -1.0, 0.05, 0.5, 40.0, 1e-6, 1e-4, 1e5]))
        df[dcols[j]] = c * f64(df[dcols[j]])
        e.scale[j] = 1 / c
    elif t == "d_shift":
        j = int(rng.integers(k))
        df[dcols[j]] = f64(df[dcols[j]]) + float(rng.choice([-5.0, 2.0, 30.0]))
    elif t == "z_affine":
        for z in a.roles["z_cols"]:
            df[z] = float(rng.choice([-2.0, 0.1, 9.0, 1e-6, 1e5])) * f64(df[z]) + float(rng.choice([0.0, 3.0]))
    elif t == "z_recombine":
        Z = np.column_stack([f64(df[z]) for z in a.roles["z_cols"]])
        A = rng.normal(size=(Z.shape[1], Z.shape[1])) + 2 * np.eye(Z.shape[1])
        Z = Z @ A
        for j, z in enumerate(a.roles["z_cols"]):
            df[z] = Z[:, j]
        e.psi = True
    elif t == "z_order":
        b.roles["z_cols"] = list(rng.permutation(b.roles["z_cols"]))
    elif t == "affine_x":
        xs = [c for c in a.roles["x_cols"] if c != "uid"]
        X = np.column_stack([f64(df[c]) for c in xs])
        A = np.linalg.qr(rng.normal(size=(len(xs), len(xs))))[0] * rng.uniform(0.5, 3.0, size=len(xs))
        X = X @ A + rng.normal(size=len(xs))
        for j, c in enumerate(xs):
            df[c] = X[:, j]
    elif t == "permute":
        p = rng.permutation(len(df))
        inv = np.argsort(p)
        b.df = df.iloc[p].reset_index(drop=True) if rng.random() < 0.5 else df.iloc[p]
        b.splits = [[(np.sort(inv[tr]), np.sort(inv[te])) for tr, te in rep] for rep in a.splits]
        b.weights = take_rows(a.weights, p)
        e.rows = p
    elif t == "fold_order":
        nf = len(a.splits[0])
        o = [rng.permutation(nf) for _ in a.splits]
        b.splits = [[rep[i] for i in q] for rep, q in zip(a.splits, o)]
        if a.cl is not None:
            b.cl = [[rep[i] for i in q] for rep, q in zip(a.cl, o)]
    elif t == "rep_order":
        q = rng.permutation(len(a.splits))
        b.splits = [a.splits[i] for i in q]
        if a.cl is not None:
            b.cl = [a.cl[i] for i in q]
        if isinstance(a.weights, dict):
            b.weights = {"weights": a.weights["weights"], "weights_bar": a.weights["weights_bar"][:, q]}
        e.reps = q
    elif t == "rename":
        old = list(df.columns)
        new = [f"v{i} (col)" if rng.random() < 0.3 else str(rng.choice(["d", "y", "z", "x", "ml_g", "t_"])) + f"{int(i)}_" for i in rng.permutation(len(old))]
        mp = dict(zip(old, new))
        b.df = df.rename(columns=mp)
        for r, v in b.roles.items():
            b.roles[r] = None if v is None else (mp[v] if isinstance(v, str) else [mp[c] for c in v])
    elif t == "reorder":
        b.df = df[list(rng.permutation(df.columns))]
        b.roles["x_cols"] = list(rng.permutation(b.roles["x_cols"]))
    elif t == "treat_order":
        q = rng.permutation(k)
        b.roles["d_cols"] = [dcols[i] for i in q]
        e.treat = q
    elif t == "index":
        kind = int(rng.integers(5))
        n = len(df)
        if kind == 0:
            df.index = rng.permutation(n)
        elif kind == 1:
            df.index = np.zeros(n, int)
        elif kind == 2:
            df.index = [f"r{i % 7}" for i in range(n)]
        elif kind == 3:
            df.index = pd.date_range("2020-01-01", periods=n)[::-1]
        else:
            df.index = pd.MultiIndex.from_arrays([np.arange(n) % 3, rng.permutation(n)])
    elif t == "dtype":
        for c in df.columns:
            if c == "uid" or (a.roles["cluster_cols"] and c in a.roles["cluster_cols"]):
                continue
            v = f64(df[c])
            if np.all(v == np.rint(v)) and v.min() >= 0 and v.max() < 100:
                kinds = ["int8", "uint8", "int16", "int32", "int64", "float64", "float32", "uint16"]
                if m in INNER:  # single precision moves the root of the step equation across tied outcomes
                    kinds.remove("float32")
                df[c] = v.astype(str(rng.choice(kinds)))
    elif t == "cluster_labels":
        for j, c in enumerate(a.roles["cluster_cols"]):
            u = np.unique(df[c].values)
            kind = int(rng.integers(3))
            if kind == 0:
                new = rng.permutation(1000)[: len(u)] - 300
            elif kind == 1:
                new = np.round(rng.normal(size=len(u)) * 50, 4)
            else:
                new = rng.permutation(len(u)).astype(float)
            mp = dict(zip(u.tolist(), new.tolist()))
            df[c] = [mp[v] for v in df[c].values.tolist()]
            b.cl = [[tuple([np.array([mp[v] for v in part.tolist()]) if q == j else part for q, part in enumerate(side)] for side in fold) for fold in rep] for rep in b.cl]
    elif t == "cluster_swap":
        b.roles["cluster_cols"] = a.roles["cluster_cols"][::-1]
        b.cl = [[tuple(list(side)[::-1] for side in fold) for fold in rep] for rep in a.cl]
    elif t == "arms":
        df["d"] = 1 - df["d"]
        if m == "IIVM":
            df["z"] = 1 - df["z"]
            b.s["always"], b.s["never"] = a.s["never"], a.s["always"]
        e.scale[:] = -1
        e.sens = m == "IRM"
    elif t == "levels":
        v = f64(df["d"])
        sc, sh = int(rng.choice([-1, 2, 3])), int(rng.choice([-3, 0, 10]))
        df["d"] = (sc * v + sh).astype(int if rng.random() < 0.5 else float)
        b.s["level"] = int(sc * a.s["level"] + sh)
    else:
        raise ValueError(t)
    return b, e


def run(s, mon):
    a = base_state(s)
    m0 = execute(a)
    if not np.all(np.isfinite(m0.coef)) or not np.all(np.isfinite(m0.se)):
        raise Skip("base estimate not finite")
    if np.any(m0.se > 50 * np.std(f64(a.df["y"]))):
        raise Skip("ill-conditioned base estimate")
    rng = np.random.default_rng(s["tseed"])
    for t in s["trans"]:
        b, e = transform(a, t, rng)
        m1 = execute(b)
        loose = s["model"] in INNER and t in ROUNDING
        if loose:
            # rounding can move the root of a step equation to another crossing: the same pair on further samples decides
            sub = Mon()
            compare(s, sub, a, b, m0, m1, t, e, True)
            if sub.viol:
                again = 0
                for i in range(1, 5):
                    s2 = dict(s, seed=int(s["seed"] + i) % (2**31 - 1))
                    a2 = base_state(s2)
                    b2, e2 = transform(a2, t, rng)
                    sub2 = Mon()
                    compare(s2, sub2, a2, b2, execute(a2), execute(b2), t, e2, True)
                    again += bool(sub2.viol)
                mon.count("rounding-retried")
                if again < 2:
                    sub.viol = []
            mon.viol += sub.viol
            mon.counts.update(sub.counts)
        else:
            compare(s, mon, a, b, m0, m1, t, e, False)
        mon.sig(t, *fitted.signature(s))
        mon.count("pair:" + t)


def compare(s, mon, a, b, m0, m1, t, e, loose):
    k = len(a.roles["d_cols"])
    idx = np.array(getattr(e, "only", list(range(k))))
    sel = e.treat
    sc, sh = e.scale[sel], e.shift[sel]
    what = f"{s['model']} {s.get('score')} {t}"
    exp_coef = sc * m0.coef[sel] + sh
    exp_se = np.abs(sc) * m0.se[sel]
    se = exp_se
    tol = 1e-6 * se + 1e-9 * np.abs(exp_coef)
    if loose:
        tol = 0.3 * se
    bad = np.abs(m1.coef - exp_coef)[idx] > tol[idx]
    A0 = (sc[:, None] * m0.all_coef[sel] + sh[:, None])
    S0 = np.abs(sc)[:, None] * m0.all_se[sel]
    if e.reps is not None:
        A0, S0 = A0[:, e.reps], S0[:, e.reps]
    mon.check(not np.any(bad), "coef", f"{what}: coefficient {m1.coef} instead of {exp_coef} (se {exp_se})", scale=sc, shift=sh)
    ts = 1e-6 if not loose else 0.2
    bad = np.abs(m1.se - exp_se)[idx] > ts * exp_se[idx]
    mon.check(not np.any(bad), "se", f"{what}: standard error {m1.se} instead of {exp_se}", coef=m1.coef)
    tol = (1e-6 if not loose else 0.3) * S0 + 1e-9 * np.abs(A0)
    mon.check(np.all(np.abs(m1.all_coef - A0)[idx] <= tol[idx]), "all-coef", f"{what}: coefficients per repetition differ", got=m1.all_coef, want=A0)
    mon.check(np.all(np.abs(m1.all_se - S0)[idx] <= ts * S0[idx]), "all-se", f"{what}: standard errors per repetition differ", got=m1.all_se, want=S0)
    if np.any(bad) or len(idx) < k:
        return
    if not loose and e.psi:
        # influence of every observation, relative to its spread (studentised: free of the scale of the derivative)
        p0, p1 = m0.psi[:, :, sel], m1.psi
        if e.rows is not None:
            p0 = p0[e.rows]
        if e.reps is not None:
            p0 = p0[:, e.reps]
        d0 = np.mean(m0.psi_deriv[:, :, sel], axis=0)
        if e.reps is not None:
            d0 = d0[e.reps]
        i0 = p0 / d0 * sc
        i1 = p1 / np.mean(m1.psi_deriv, axis=0)
        err = np.max(np.abs(i0 - i1) / (np.std(i0, axis=0) + 1e-300))
        mon.check(err < 1e-5, "psi", f"{what}: the influence values of single observations changed (by {err:.3g} standard deviations)")
    if e.reps is None and e.rows is None and np.array_equal(sel, np.arange(k)) and t not in ("arms", "y_flip", "d_scale") and not loose and not s["cluster"]:
        out = []
        for mod in (m0, m1):
            np.random.seed(s["tseed"] % 2**31)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.bootstrap(n_rep_boot=60)
                out.append(mod.confint(joint=True, level=0.9).values)
        ref = sc[:, None] * out[0] + sh[:, None]
        mon.check(np.all(np.abs(out[1] - ref) <= 1e-5 * np.abs(se)[:, None] + 1e-9 * np.abs(ref)), "joint-ci", f"{what}: simultaneous intervals {out[1].tolist()} instead of {ref.tolist()}")
    if s["model"] in zoo.SENS_OK and e.sens and m0.sensitivity_elements is not None and not s["callable"]:
        if np.any(~np.isfinite(m0.sensitivity_elements["sigma2"])):
            return
        kw = dict(cf_y=0.04, cf_d=0.03, rho=0.8, level=0.9)
        try:
            m0.sensitivity_analysis(**kw)
        except Exception as ex:
            err0 = type(ex)
        else:
            err0 = None
        try:
            m1.sensitivity_analysis(**kw)
        except Exception as ex:
            mon.check(err0 is not None, "sensitivity-refusal", f"{what}: sensitivity analysis is refused after the transformation only ({ex})")
            return
        mon.check(err0 is None, "sensitivity-refusal", f"{what}: sensitivity analysis is refused before the transformation only")
        if err0 is not None:
            return
        q0, q1 = m0.sensitivity_params, m1.sensitivity_params
        for part in ("theta", "se", "ci"):
            lo, up = q0[part]["lower"][sel], q0[part]["upper"][sel]
            if part == "se":
                lo, up = np.abs(sc) * lo, np.abs(sc) * up
            else:
                lo, up = sc * lo + sh, sc * up + sh
            neg = sc < 0
            lo, up = np.where(neg, up, lo), np.where(neg, lo, up)
            ok = np.all(np.abs(q1[part]["lower"] - lo) <= 1e-5 * se + 1e-6 * np.abs(lo)) and np.all(np.abs(q1[part]["upper"] - up) <= 1e-5 * se + 1e-6 * np.abs(up))
            mon.check(ok, "sensitivity", f"{what}: sensitivity {part} [{q1[part]['lower']}, {q1[part]['upper']}] instead of [{lo}, {up}]")
        if np.all(sh == 0) and t != "y_plus_d":
            for nm in ("rv", "rva"):
                v0, v1 = q0[nm][sel], q1[nm]
                mon.check(np.all(np.abs(v0 - v1) < 2e-4), "sensitivity-rv", f"{what}: {nm} {v1} instead of {v0}")
