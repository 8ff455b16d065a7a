"""Valid user-supplied sample splits (uneven folds, shuffled index order, training sets smaller than the complement)."""
import numpy as np


def user_splits(rng, strata, n_rep, n_folds, drop=0.0, kind="list"):
    """strata: integer labels kept present in all folds"""
    n = len(strata)
    out = []
    for _ in range(n_rep):
        fold = np.empty(n, int)
        for v in np.unique(strata):
            idx = rng.permutation(np.where(strata == v)[0])
            w = rng.uniform(0.6, 1.4, size=n_folds)
            cuts = np.round(np.cumsum(w) / w.sum() * len(idx)).astype(int)
            fold[idx] = np.searchsorted(cuts, np.arange(len(idx)), side="right").clip(0, n_folds - 1)
        rep = []
        for k in range(n_folds):
            te = rng.permutation(np.where(fold == k)[0])
            tr = rng.permutation(np.where(fold != k)[0])
            if drop > 0:
                tr = tr[rng.random(len(tr)) >= drop]
            if kind == "list":
                rep.append((tr.tolist(), te.tolist()))
            else:
                rep.append((tr, te))
        out.append(rep)
    return out
