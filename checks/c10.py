"""C10 data backend: random frames and setter histories against a small executable model of roles, arrays and refusals."""
import copy
import warnings

import numpy as np
import pandas as pd

from vlib import env  # noqa: F401

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 2500
RULE = ("random frames (mixed dtypes, binary, NaN and inf columns, odd indices) x accepted and refused constructor calls and setter histories on plain and cluster data; after every step all "
        "public roles, arrays and indicators are compared with an executable model; distinct = (class, number of treatments/instruments, options, history shape)")
FLOORS = {"ev:arrays": 9000, "ev:refused": 3000, "ev:accepted": 5000, "ev:unchanged": 1800, "ev:from-arrays": 500, "ev:binary": 8000, "ev:frame-untouched": 2000}
KINDS = ["float", "float", "float", "int", "bin", "binf", "bool", "f32", "const", "three"]


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(2**31)), n=int(rng.integers(12, 40)), cols=int(rng.integers(8, 14)), cluster=bool(rng.random() < 0.4),
                   steps=int(rng.integers(2, 9)), arrays=bool(rng.random() < 0.25), dirty=bool(rng.random() < 0.4))


def frame(rng, spec):
    n = spec["n"]
    out, bad = {}, []
    names = [f"c{j}" for j in range(spec["cols"])]
    if rng.random() < 0.3:
        names = [f"{q} x{j}" for j, q in enumerate(rng.choice(list("abyzd"), size=len(names)))]
    for nm in names:
        k = str(rng.choice(KINDS))
        v = {"float": rng.normal(size=n), "int": rng.integers(-5, 9, size=n), "bin": rng.integers(0, 2, size=n), "binf": rng.integers(0, 2, size=n).astype(float),
             "bool": rng.random(n) < 0.5, "f32": rng.normal(size=n).astype(np.float32), "const": np.ones(n), "three": rng.integers(0, 3, size=n).astype(float)}[k]
        out[nm] = v
    df = pd.DataFrame(out)
    if spec["dirty"]:
        for nm in names:
            if rng.random() < 0.25 and df[nm].dtype.kind == "f":
                w = str(rng.choice(["nan", "inf", "both"]))
                a = df[nm].values.copy()
                if w != "inf":
                    a[int(rng.integers(n))] = np.nan
                if w != "nan":
                    a[int(rng.integers(n))] = -np.inf
                df[nm] = a
                bad.append(nm)
    ix = str(rng.choice(["range", "perm", "str", "dup"]))
    if ix == "perm":
        df.index = rng.permutation(n)
    elif ix == "str":
        df.index = [f"r{i}" for i in range(n)]
    elif ix == "dup":
        df.index = np.zeros(n, int)
    return df


class Refuse(Exception):
    pass


class Model:
    """reference semantics"""

    def __init__(self, df, cluster):
        self.df, self.cluster = df, cluster
        self.r = dict(y=None, d=None, x=None, z=None, t=None, s=None, c=None)
        self.other, self.force = True, True
        self.act = None

    def copy(self):
        m = copy.copy(self)
        m.r = {k: (list(v) if isinstance(v, list) else v) for k, v in self.r.items()}
        return m

    def norm(self, role, v):
        cols = list(self.df.columns)
        if role in ("y", "t", "s"):
            if v is None and role != "y":
                return None
            if not isinstance(v, str) or v not in cols:
                raise Refuse("name")
            return v
        if v is None and role in ("x", "z"):
            return None
        if isinstance(v, str):
            v = [v]
        if not isinstance(v, list) or len(set(v)) != len(v) or not set(v) <= set(cols) or len(v) == 0:
            raise Refuse("list")
        return list(v)

    def default_x(self):
        used = set()
        for k in ("y", "d", "z", "t", "s", "c"):
            v = self.r[k]
            if v is not None:
                used |= {v} if isinstance(v, str) else set(v)
        return [c for c in self.df.columns if c not in used]

    def disjoint(self):
        seen = {}
        for k, v in self.r.items():
            for c in ([] if v is None else [v] if isinstance(v, str) else v):
                if c in seen:
                    raise Refuse(f"{c} is {seen[c]} and {k}")
                seen[c] = k

    def fin(self, names, allow_nan=False):
        for c in names:
            a = self.df[c].values.astype(float)
            if np.any(np.isinf(a)) or (not allow_nan and np.any(np.isnan(a))):
                raise Refuse(f"not finite {c}")

    def xcols(self, act):
        return self.r["x"] + ([c for c in self.r["d"] if c != act] if self.other else [])

    def activate(self, act):
        if act not in self.r["d"]:
            raise Refuse("no treatment")
        self.fin([act])
        if self.force:
            self.fin(self.xcols(act), allow_nan=self.force == "allow-nan")
        self.act = act

    def fin_y(self):
        for k in ("y", "z", "t", "s"):
            v = self.r[k]
            if v is not None:
                self.fin([v] if isinstance(v, str) else v)

    def build(self, kw):
        for k in "yd" + ("c" if self.cluster else "") + "zts":
            self.r[k] = self.norm(k, kw.get(k))
        x = self.norm("x", kw.get("x"))
        self.r["x"] = self.default_x() if x is None else x
        self.other, self.force = kw["other"], kw["force"]
        if not isinstance(self.other, bool) or not (isinstance(self.force, bool) or self.force == "allow-nan"):
            raise Refuse("option")
        self.disjoint()
        self.fin(self.r["d"])
        self.fin_y()
        if self.cluster:
            self.fin(self.r["c"])
        self.activate(self.r["d"][0])

    def set(self, role, v):
        if role in ("other", "force"):
            if not (isinstance(v, bool) or (role == "force" and v == "allow-nan")):
                raise Refuse("option")
            setattr(self, role, v)
            self.activate(self.r["d"][0])
            return
        if role == "act":
            if not isinstance(v, str):
                raise Refuse("type")
            self.activate(v)
            return
        v = self.norm(role, v)
        self.r[role] = self.default_x() if role == "x" and v is None else v
        self.disjoint()
        if role == "c":
            self.fin(v)
        elif role in "yzts":
            self.fin_y()
        else:
            if role == "d":
                self.fin(self.r["d"])
            self.activate(self.r["d"][0])


ATTR = dict(y="y_col", d="d_cols", x="x_cols", z="z_cols", t="t_col", s="s_col", c="cluster_cols", other="use_other_treat_as_covariate", force="force_all_x_finite")


def binary(a):
    a = np.asarray(a, dtype=float)
    return bool(np.all((a == 0) | (a == 1)))


def compare(mon, obj, m, where):
    df = m.df
    ok = True
    for k, a in ATTR.items():
        if k == "c" and not m.cluster:
            continue
        want = getattr(m, k) if k in ("other", "force") else m.r[k]
        ok &= mon.check(getattr(obj, a) == want, "roles", f"{where}: {a} is {getattr(obj, a)!r} instead of {want!r}")

    def eq(got, want, what):
        if want is None:
            return mon.check(got is None, "arrays", f"{where}: {what} is not None")
        got = np.asarray(got)
        w = np.asarray(want, dtype=float)
        return mon.check(got.shape == w.shape and np.array_equal(got.astype(float), w, equal_nan=True), "arrays", f"{where}: {what} does not hold the user's columns")

    def F(names):
        return np.column_stack([df[c].values.astype(float) for c in names]) if len(names) else np.zeros((len(df), 0))

    eq(obj.y, df[m.r["y"]].values, "y")
    eq(obj.d, df[m.act].values, "d")
    eq(obj.x, F(m.xcols(m.act)), "x")
    eq(obj.z, None if m.r["z"] is None else F(m.r["z"]), "z")
    eq(obj.t, None if m.r["t"] is None else df[m.r["t"]].values, "t")
    eq(obj.s, None if m.r["s"] is None else df[m.r["s"]].values, "s")
    if m.cluster:
        eq(obj.cluster_vars, F(m.r["c"]), "cluster_vars")
        mon.check(obj.n_cluster_vars == len(m.r["c"]), "counts")
    mon.check(obj.n_obs == len(df) and obj.n_treat == len(m.r["d"]) and obj.n_coefs == len(m.r["d"]) and obj.n_instr == (0 if m.r["z"] is None else len(m.r["z"])), "counts", where)
    b = obj.binary_treats
    mon.check(list(b.index) == m.r["d"] and [bool(x) for x in b] == [binary(df[c].values) for c in m.r["d"]], "binary", f"{where}: binary_treats {dict(b)}")
    mon.check(bool(obj.binary_outcome) == binary(df[m.r["y"]].values), "binary", f"{where}: binary_outcome {obj.binary_outcome}")
    txt = str(obj)
    mon.check(str(m.r["y"]) in txt and str(m.r["d"]) in txt and f"No. Observations: {len(df)}" in txt and (m.r["t"] is None or f"Time variable: {m.r['t']}" in txt), "text", where)


def clean(rng, df, k):
    good = [c for c in df.columns if np.all(np.isfinite(df[c].values.astype(float)))]
    return [str(x) for x in rng.permutation(good)][:k]


def rnd(rng, df, role, m):
    """a random value for a role, mostly sensible, sometimes invalid"""
    cols = list(map(str, df.columns))
    q = rng.random()
    free = cols
    if m is not None and rng.random() < 0.75:
        used = set()
        for k, v in m.r.items():
            if k != role and v is not None:
                used |= {v} if isinstance(v, str) else set(v)
        free = [c for c in cols if c not in used] or cols
    if role in ("y", "t", "s"):
        if q < 0.06:
            return 5
        if q < 0.12:
            return "nope"
        if q < 0.3 and role != "y":
            return None
        return str(rng.choice(free))
    if role == "other":
        return 1 if q < 0.1 else bool(rng.random() < 0.5)
    if role == "force":
        return ["maybe", 1][int(rng.integers(2))] if q < 0.15 else [True, False, "allow-nan"][int(rng.integers(3))]
    if role == "act":
        return str(rng.choice(m.r["d"])) if q < 0.8 else (str(rng.choice(cols)) if q < 0.95 else ["c1"])
    if q < 0.05:
        return 5
    if q < 0.1:
        c = str(rng.choice(cols))
        return [c, c]
    if q < 0.14:
        return ["nope", str(rng.choice(cols))]
    if q < 0.18:
        return tuple(rng.choice(free, size=1))
    if q < 0.3 and role in "xz":
        return None
    if q < 0.42:
        return str(rng.choice(free))
    k = min(len(free), int(rng.integers(1, 4 if role != "x" else 6)))
    return [str(c) for c in rng.choice(free, size=k, replace=False)]


def run(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    df = frame(rng, spec)
    orig = df.copy(deep=True)
    cl = spec["cluster"]
    cls = dml.DoubleMLClusterData if cl else dml.DoubleMLData

    def construct(kw):
        a = dict(y_col=kw["y"], d_cols=kw["d"], x_cols=kw["x"], z_cols=kw["z"], t_col=kw["t"], s_col=kw["s"], use_other_treat_as_covariate=kw["other"], force_all_x_finite=kw["force"])
        if cl:
            a["cluster_cols"] = kw["c"]
        return cls(df, **a)

    # random, frequently refused, constructor calls
    for _ in range(3):
        kw = {k: (rnd(rng, df, k, None) if k not in "tsz" or rng.random() < 0.3 else None) for k in ("y", "d", "x", "z", "t", "s", "c", "other", "force")}
        m = Model(df, cl)
        try:
            m.build(kw)
            want = True
        except Refuse as e:
            want, why = False, str(e)
        if want:
            mon.check(True, "accepted")
            compare(mon, construct(kw), m, "constructor")
        else:
            mon.raises(lambda: construct(kw), "refused", f"constructor {kw} ({why})", exc=(ValueError, TypeError))
    # a valid object
    g = clean(rng, df, 99)
    if len(g) < 6:
        return
    kd = int(rng.integers(1, 4))
    kw = dict(y=g[0], d=g[1] if kd == 1 and rng.random() < 0.5 else g[1 : 1 + kd], z=None, t=None, s=None, c=None, other=bool(rng.random() < 0.6), force=True, x=None)
    rest = g[1 + kd :]
    for k in ("z", "t", "s"):
        if rng.random() < 0.4 and len(rest) > 2:
            kw[k] = rest.pop()
    if kw["z"] and rng.random() < 0.5 and len(rest) > 2:
        kw["z"] = [kw["z"], rest.pop()]
    if cl:
        kw["c"] = [rest.pop()] + ([rest.pop()] if len(rest) > 2 and rng.random() < 0.5 else [])
        if len(kw["c"]) == 1 and rng.random() < 0.5:
            kw["c"] = kw["c"][0]
    if rest and (rng.random() < 0.6 or spec["dirty"]):
        kw["x"] = rest[:3]
    dirty_x = [c for c in df.columns if c not in g]
    if dirty_x and rng.random() < 0.5:
        kw["force"] = [False, "allow-nan"][int(rng.integers(2))]
        kw["x"] = [str(dirty_x[0])] + (kw["x"] or [])
    m = Model(df, cl)
    try:
        m.build(kw)
    except Refuse as e:
        mon.raises(lambda: construct(kw), "refused", f"constructor {kw} ({e})", exc=(ValueError, TypeError))
        return
    mon.check(True, "accepted")
    given = copy.deepcopy(kw)
    obj = construct(kw)
    compare(mon, obj, m, "constructor")
    mon.sig(cl, len(m.r["d"]), 0 if m.r["z"] is None else len(m.r["z"]), m.r["t"] is not None, m.r["s"] is not None, m.other, m.force, spec["dirty"], spec["steps"])
    roles = ["y", "d", "x", "z", "t", "s", "other", "force", "act", "act"] + (["c"] if cl else [])
    for i in range(spec["steps"]):
        role = str(rng.choice(roles))
        v = rnd(rng, df, role, m)
        m2 = m.copy()
        try:
            m2.set(role, copy.deepcopy(v))
            want, why = True, ""
        except Refuse as e:
            want, why = False, str(e)
        where = f"step {i}: {role}={v!r}"

        def go():
            if role == "act":
                obj.set_x_d(v)
            else:
                setattr(obj, ATTR[role], v)

        if want:
            mon.check(True, "accepted")
            go()
            m = m2
            compare(mon, obj, m, where)
        else:
            mon.raises(go, "refused", f"{where} ({why})", exc=(ValueError, TypeError))
            if role in ("force", "other"):
                m.force = obj.force_all_x_finite  # documented by the existing tests: the option itself is kept
            mon.check(True, "unchanged")
            compare(mon, obj, m, "after refused " + where)
    mon.check(df.equals(orig) and list(df.columns) == list(orig.columns) and df.index.equals(orig.index), "frame-untouched", "the user's frame was changed")
    mon.check(given == kw, "frame-untouched", "a role list of the user was changed")
    mon.check(obj.data is df or obj.data.equals(df), "frame-untouched", "the published frame differs")
    mon.raises(lambda: cls(df.values, g[0], g[1], **({"cluster_cols": g[2]} if cl else {})), "refused", "no frame", exc=TypeError)
    dup = pd.concat([df, df[[g[0]]]], axis=1)
    mon.raises(lambda: cls(dup, g[0], g[1], **({"cluster_cols": g[2]} if cl else {})), "refused", "duplicate columns", exc=ValueError)
    if spec["arrays"]:
        A = {k: (None if m.r[k] is None else df[m.r[k]].values) for k in "dzts"}
        if m.r["x"]:
            x, y = df[m.r["x"]].values.astype(float), df[m.r["y"]].values
            B = {k: (None if v is None else np.array(v, dtype=float)) for k, v in A.items()}
            if len(m.r["d"]) == 1 and rng.random() < 0.5:
                B["d"] = B["d"][:, 0]
            if B["z"] is not None and B["z"].shape[1] == 1 and rng.random() < 0.5:
                B["z"] = B["z"][:, 0]
            kws = dict(z=B["z"], t=B["t"], s=B["s"], use_other_treat_as_covariate=m.other, force_all_x_finite=m.force)
            args = [x, y, B["d"]]
            if cl:
                args.append(df[m.r["c"]].values.astype(float))
            keep = [None if a is None else np.array(a) for a in args + [kws["z"], kws["t"], kws["s"]]]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    o2 = cls.from_arrays(*args, **kws)
                except ValueError:
                    try:  # the option may have been refused on this data
                        m.copy().activate(m.r["d"][0])
                        raise
                    except Refuse:
                        mon.count("from-arrays-refused")
                        return
            obj.set_x_d(m.r["d"][0])
            for q in ("x", "y", "d", "z", "t", "s") + (("cluster_vars",) if cl else ()):
                a, b = getattr(o2, q), getattr(obj, q)
                mon.check((a is None and b is None) or (a is not None and b is not None and np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)), "from-arrays", f"from_arrays: {q} differs")
            mon.check(list(o2.binary_treats) == list(obj.binary_treats) and o2.n_instr == obj.n_instr and o2.n_treat == obj.n_treat, "from-arrays", "indicators differ")
            for a, b in zip(keep, args + [kws["z"], kws["t"], kws["s"]]):
                mon.check((a is None and b is None) or np.array_equal(a, b, equal_nan=True), "arrays-untouched", "from_arrays changed its input")
            bad = [a.copy() for a in args[:3]]
            bad[1] = bad[1].astype(float)
            bad[1][0] = np.nan
            mon.raises(lambda: cls.from_arrays(*bad, *args[3:], **kws), "refused", "missing outcome", exc=ValueError)
            mon.raises(lambda: cls.from_arrays(x[:-1], *args[1:], **kws), "refused", "lengths", exc=ValueError)
