"""Synthetic inference objects built through the public constructor."""
import numpy as np

from . import env  # noqa: F401
from .oracle import ref_aggregate

from doubleml import DoubleMLFramework, concat  # noqa: E402,F401


def parts(rng, n, K, R, sens=None, noise=0.3):
    """raw arrays of one framework with psi correlated across parameters and repetitions"""
    base = rng.normal(size=(n, K, 1)) @ np.ones((1, 1, R)).reshape(1, 1, R) if False else rng.normal(size=(n, K))[:, :, None]
    mix = np.linalg.qr(rng.normal(size=(K, K)))[0] * rng.uniform(0.5, 3.0, size=K)
    psi = np.einsum("nkr,kj->njr", np.repeat(base, R, axis=2) + noise * rng.normal(size=(n, K, R)), mix)
    psi = psi - psi.mean(axis=0, keepdims=True)
    all_ses = np.sqrt(np.mean(psi**2, axis=0) / n)
    centre = rng.normal(size=K) * rng.choice([0.0, 1.0, 3.0], size=K) * all_ses.mean(axis=1) * 1.5
    all_thetas = centre[:, None] + rng.normal(size=(K, R)) * all_ses * rng.choice([0.2, 1.0, 3.0])
    th, se = ref_aggregate(all_thetas, all_ses, np.full((K, 1), float(n)))
    d = dict(thetas=th, ses=se, all_thetas=all_thetas, all_ses=all_ses, var_scaling_factors=np.full(K, float(n)), scaled_psi=psi)
    if sens:
        sigma2 = rng.uniform(0.5, 2.0, size=(1, K, R))
        nu2 = rng.uniform(0.5, 2.0, size=(1, K, R))
        d["sensitivity_elements"] = dict(max_bias=np.sqrt(sigma2 * nu2), psi_max_bias=rng.normal(size=(n, K, R)) * 0.5)
        if sens == "full":
            d["sensitivity_elements"].update(sigma2=sigma2, nu2=nu2)
    return d


def copy_parts(d):
    return {k: ({a: (b.copy() if isinstance(b, np.ndarray) else b) for a, b in v.items()} if isinstance(v, dict) else (v.copy() if isinstance(v, np.ndarray) else v)) for k, v in d.items()}


def make(d):
    return DoubleMLFramework(copy_parts(d))


def snapshot(f):
    out = dict(thetas=f.thetas.copy(), ses=f.ses.copy(), all_thetas=f.all_thetas.copy(), all_ses=f.all_ses.copy(), psi=f.scaled_psi.copy(),
               vsf=f.var_scaling_factors.copy())
    if f.sensitivity_elements is not None:
        for k, v in f.sensitivity_elements.items():
            out["s_" + k] = v.copy()
    return out


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)
