"""Deep snapshots of user-supplied objects and a library of public operations on fitted models."""
import warnings

import numpy as np
import pandas as pd

from . import zoo

from doubleml import DoubleMLData


def snap(x, depth=0):
    """a comparable deep copy of the observable content of an object"""
    if depth > 12:
        return repr(type(x))
    if isinstance(x, DoubleMLData):
        roles = {a: snap(getattr(x, a, None), depth + 1) for a in ("y_col", "d_cols", "x_cols", "z_cols", "t_col", "s_col", "cluster_cols", "use_other_treat_as_covariate", "force_all_x_finite")}
        return ("data", roles, snap(x.data, depth + 1), snap(list(x.binary_treats)), bool(x.binary_outcome))
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return ("frame", [str(c) for c in x.columns] if isinstance(x, pd.DataFrame) else x.name, [str(t) for t in np.atleast_1d(x.dtypes)], list(x.index), x.to_numpy().copy())
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.copy())
    if isinstance(x, dict):
        return ("dict", {k: snap(v, depth + 1) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    if hasattr(x, "get_params") and hasattr(x, "fit") and not isinstance(x, type):
        return ("learner", type(x).__name__, {k: snap(v, depth + 1) for k, v in vars(x).items()})
    if isinstance(x, (str, int, float, bool, np.generic)) or x is None:
        return x
    return repr(type(x))


def diff(a, b, path="", rtol=None):
    """first difference of two snapshots, or None"""
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: shape or dtype"
        if a.dtype == object:
            return None if all(x is y or x == y or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel())) else f"{path}: values"
        if a.dtype.kind in "fc":
            if rtol is not None:
                return None if np.allclose(a, b, rtol=rtol, atol=rtol, equal_nan=True) else f"{path}: values differ by {np.nanmax(np.abs(a - b)) if a.size else 0:.3g}"
            return None if np.array_equal(a, b, equal_nan=True) else f"{path}: values"
        return None if np.array_equal(a, b) else f"{path}: values"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} became {list(b)}"
        for k in a:
            r = diff(a[k], b[k], f"{path}.{k}", rtol)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            r = diff(u, v, f"{path}[{i}]", rtol)
            if r:
                return r
        return None
    if isinstance(a, float) and a != a and b != b:
        return None
    if rtol is not None and isinstance(a, (float, np.floating)) and np.isclose(a, b, rtol=rtol, atol=rtol):
        return None
    return None if a == b else f"{path}: {a!r} became {b!r}"


class Watch:
    """user-supplied objects under observation"""

    def __init__(self, mon):
        self.mon = mon
        self.objs = {}

    def add(self, name, obj):
        if obj is not None:
            self.objs[name] = (obj, snap(obj))
        return obj

    def verify(self, after, mech="unchanged"):
        for name, (obj, s) in self.objs.items():
            r = diff(s, snap(obj), name)
            self.mon.check(r is None, mech + ":" + name.split(":")[0], f"after {after}: {r}")


RESULT_ATTRS = ["coef", "se", "all_coef", "all_se", "psi", "psi_deriv"]


def own_predictions(model, roles, learners=None):
    """the model's stored predictions in the external-prediction format"""
    out = {}
    for k, d in enumerate(roles["d_cols"]):
        out[d] = {key: model.predictions[key][:, :, k].copy() for key in (learners or model.params_names)}
    return out


def grids(model, rng):
    g = {}
    for name in model.learner_names:
        g[name] = {"alpha": [float(a) for a in rng.choice([0.1, 0.5, 1.0, 2.0, 5.0, 20.0], size=2, replace=False)]}
    return g


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def x_no_uid(roles):
    return [c for c in roles["x_cols"] if c != "uid"]


def group_frame(rng, df, kind):
    n = len(df)
    k = int(rng.integers(2, 4))
    g = rng.integers(0, k, size=n)
    if kind == "str":
        return pd.DataFrame({"grp": np.array([f"g{q}" for q in g])}, index=df.index)
    if kind == "bool":
        return pd.DataFrame({f"g{q}": g == q for q in range(k)}, index=df.index)
    return pd.DataFrame({f"g{q}": (g == q).astype(int) for q in range(k)}, index=df.index)


def basis_frame(rng, df, k=None):
    n = len(df)
    k = k or int(rng.integers(1, 4))
    B = pd.DataFrame(rng.normal(size=(n, k)), columns=[f"b{j}" for j in range(k)], index=df.index)
    B.insert(0, "const", 1.0)
    return B


__all__ = [k for k in list(globals()) if not k.startswith("_")] + ["zoo"]
