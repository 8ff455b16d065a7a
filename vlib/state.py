"""All public properties of an object, as a comparable snapshot."""
import warnings

import numpy as np
import pandas as pd

from doubleml import DoubleMLData
from doubleml.double_ml_framework import DoubleMLFramework

from .ops import diff, snap

SKIP = {"summary", "sensitivity_summary"}


def public(obj, depth=0, skip=()):
    out = {}
    for nm in sorted(a for a in dir(type(obj)) if not a.startswith("_") and isinstance(getattr(type(obj), a, None), property)):
        if nm in skip:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = getattr(obj, nm)
        except Exception as e:
            out[nm] = ("raises", type(e).__name__)
            continue
        out[nm] = value(v, depth)
    return out


def value(v, depth):
    if isinstance(v, DoubleMLData):
        return snap(v)
    if isinstance(v, DoubleMLFramework) or type(v).__module__.startswith("doubleml") and not isinstance(v, type):
        return public(v, depth + 1) if depth < 3 else repr(type(v))
    if isinstance(v, (list, tuple)) and len(v) and not isinstance(v[0], (str, int, float)) and type(v[0]).__module__.startswith("doubleml"):
        return [public(x, depth + 1) for x in v] if depth < 2 else len(v)
    if isinstance(v, (pd.DataFrame, np.ndarray, dict, list, tuple, str, int, float, bool, np.generic)) or v is None:
        return snap(v)
    return snap(v)


__all__ = ["public", "diff", "snap"]
