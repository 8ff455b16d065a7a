"""Recording learners.

A spy learner is an ordinary scikit-learn estimator (clone-able, get_params/set_params) whose fit / predict /
predict_proba calls are appended to a process-wide trace.  Rows are recognised through one feature column holding a
unique row id (values UID0 + i); the column is found by value, so the monitors do not depend on the column order the
library uses.  The id column is never used for the fit itself.
"""
import threading
import time

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

UID0 = 1.0e7

_lock = threading.Lock()


class Trace:
    def __init__(self):
        self.events = []

    def clear(self):
        with _lock:
            self.events = []

    def add(self, ev):
        with _lock:
            ev["seq"] = len(self.events)
            self.events.append(ev)
            return ev["seq"]

    def fits(self):
        return [e for e in self.events if e["op"] == "fit"]

    def preds(self):
        return [e for e in self.events if e["op"] == "predict"]


TRACE = Trace()
_fit_counter = [0]


class InjectedFault(Exception):
    pass


class FaultPlan:
    """Counts fit/predict calls and raises (or corrupts) at a chosen call index."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.fit_calls = 0
        self.predict_calls = 0
        self.fail_fit_at = None
        self.fail_predict_at = None
        self.nan_predict_at = None
        self.inf_predict_at = None
        self.shape_predict_at = None
        self.shape = "short"
        self.row = 0.5
        self.delay = 0.0
        self.fired = 0


FAULTS = FaultPlan()


def split_uid(X):
    """returns (uids int array, X without the uid column)"""
    X = np.asarray(X, dtype=float)
    is_uid = np.all((X >= UID0) & (X < UID0 + 1e6), axis=0)
    cols = np.where(is_uid)[0]
    if len(cols) == 0:
        return None, X
    j = cols[0]
    uids = np.rint(X[:, j] - UID0).astype(int)
    return uids, np.delete(X, j, axis=1)


def _ridge(X, y, alpha, w=None):
    # order-insensitive deterministic ridge with intercept
    n = X.shape[0]
    if w is None:
        w = np.ones(n)
    sw = np.sum(w)
    mx = (w @ X) / sw
    my = float(w @ y) / sw
    Xc = X - mx
    A = (Xc * w[:, None]).T @ Xc + alpha * np.eye(X.shape[1])
    b = Xc.T @ (w * (y - my))
    beta = np.linalg.solve(A, b)
    return beta, my - mx @ beta


class _SpyBase(BaseEstimator):
    def _record_fit(self, X, y, sample_weight=None):
        with _lock:
            _fit_counter[0] += 1
            self.fit_id_ = _fit_counter[0]
            FAULTS.fit_calls += 1
            k = FAULTS.fit_calls
        if FAULTS.delay:  # a different duration per call, so that parallel folds finish out of order
            time.sleep(FAULTS.delay * ((k * 7919) % 13) / 13.0)
        if FAULTS.fail_fit_at is not None and k == FAULTS.fail_fit_at:
            FAULTS.fired += 1
            raise InjectedFault(f"injected fit failure at call {k}")
        uids, Xr = split_uid(X)
        if self.record:
            TRACE.add(
                dict(
                    op="fit", fit_id=self.fit_id_, uids=None if uids is None else uids.copy(), y=np.array(y, dtype=float).copy(),
                    X=Xr.copy(), params=dict(self.get_params()), kind=type(self).__name__,
                    w=None if sample_weight is None else np.array(sample_weight, dtype=float).copy(),
                )
            )
        return uids, Xr

    def _record_pred(self, X, out, method):
        with _lock:
            FAULTS.predict_calls += 1
            k = FAULTS.predict_calls
        if FAULTS.fail_predict_at is not None and k == FAULTS.fail_predict_at:
            FAULTS.fired += 1
            raise InjectedFault(f"injected predict failure at call {k}")
        single = method == "predict_proba" and np.ndim(out) == 2 and np.shape(out)[1] == 1  # one class only: nobody uses these numbers
        if not single and FAULTS.nan_predict_at is not None and k == FAULTS.nan_predict_at:
            FAULTS.fired += 1
            out = np.array(out, dtype=float)
            out[min(int(FAULTS.row * len(out)), len(out) - 1)] = np.nan
        if not single and FAULTS.inf_predict_at is not None and k == FAULTS.inf_predict_at:
            FAULTS.fired += 1
            out = np.array(out, dtype=float)
            out[min(int(FAULTS.row * len(out)), len(out) - 1)] = np.inf
        uids, Xr = split_uid(X)
        if self.record:
            val = out[:, 1] if (method == "predict_proba" and out.ndim == 2 and out.shape[1] > 1) else np.asarray(out, dtype=float).ravel()
            TRACE.add(
                dict(
                    op="predict", fit_id=self.fit_id_, uids=None if uids is None else uids.copy(), out=np.array(val, dtype=float).copy(),
                    method=method, X=Xr.copy(), kind=type(self).__name__,
                )
            )
        if FAULTS.shape_predict_at is not None and k == FAULTS.shape_predict_at:
            FAULTS.fired += 1
            out = {"short": lambda: out[:-1], "long": lambda: np.concatenate([out, out[:1]]), "one": lambda: out[:1], "col": lambda: np.asarray(out).reshape(len(out), -1), "row": lambda: np.asarray(out)[None]}[FAULTS.shape]()
        return out


class SpyReg(RegressorMixin, _SpyBase):
    """ridge + a training-set fingerprint: predictions identify the rows the model was trained on"""

    def __init__(self, alpha=1.0, scale=1.0, tag="r", record=True, fingerprint=0.05):
        self.alpha = alpha
        self.scale = scale
        self.tag = tag
        self.record = record
        self.fingerprint = fingerprint

    def fit(self, X, y, sample_weight=None):
        y = np.asarray(y, dtype=float).ravel()
        uids, Xr = self._record_fit(X, y, sample_weight)
        w = None if sample_weight is None else np.asarray(sample_weight, dtype=float)
        self.beta_, self.icpt_ = _ridge(Xr, y, self.alpha, w)
        self.off_ = 0.0
        if uids is not None and self.fingerprint:
            self.off_ = self.fingerprint * np.sin(float(np.sum(uids)) * 0.7310585)
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def predict(self, X):
        _, Xr = split_uid(X)
        out = self.scale * (Xr @ self.beta_ + self.icpt_) + self.off_
        return self._record_pred(X, out, "predict")


class SpyClf(ClassifierMixin, _SpyBase):
    """ridge on the 0/1 label squashed into (lo, hi); predict_proba also carries a training-set fingerprint"""

    def __init__(self, alpha=1.0, slope=1.0, tag="c", record=True, fingerprint=0.05):
        self.alpha = alpha
        self.slope = slope
        self.tag = tag
        self.record = record
        self.fingerprint = fingerprint

    def fit(self, X, y, sample_weight=None):
        y = np.asarray(y).ravel()
        self.classes_ = np.unique(y)
        yy = (y == self.classes_[-1]).astype(float)
        uids, Xr = self._record_fit(X, np.asarray(y, dtype=float), sample_weight)
        w = None if sample_weight is None else np.asarray(sample_weight, dtype=float)
        self.beta_, self.icpt_ = _ridge(Xr, 2 * yy - 1, self.alpha, w)
        self.off_ = 0.0
        if uids is not None and self.fingerprint:
            self.off_ = self.fingerprint * np.sin(float(np.sum(uids)) * 0.7310585)
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def _p(self, X):
        _, Xr = split_uid(X)
        eta = self.slope * (1.2 * (Xr @ self.beta_ + self.icpt_)) + self.off_
        return 1.0 / (1.0 + np.exp(-eta))

    def predict_proba(self, X):
        p = self._p(X)
        if len(self.classes_) == 1:
            out = np.ones((len(p), 1))
        else:
            out = np.column_stack((1 - p, p))
        return self._record_pred(X, out, "predict_proba")

    def predict(self, X):
        p = self._p(X)
        if len(self.classes_) == 1:
            out = np.full(len(p), self.classes_[0])
        else:
            out = self.classes_[(p > 0.5).astype(int)]
        return self._record_pred(X, out, "predict")


def table_values(seed, thr, size=4096):
    """prescribed propensities: a third extreme or at the trimming boundary, the others moderate"""
    rng = np.random.default_rng(seed)
    ext = np.array([0.0, 1e-14, 1e-6, thr * 0.5, np.nextafter(thr, 0), thr, np.nextafter(thr, 1), thr + 1e-6])
    ext = np.concatenate([ext, 1 - ext])
    p = rng.uniform(0.15, 0.85, size=size)
    hit = rng.random(size) < 0.3
    p[hit] = rng.choice(ext, size=int(hit.sum()))
    return p


class TableClf(SpyClf):
    """a classifier whose class-one probability is a fixed function of the row id"""

    def __init__(self, seed=0, thr=0.01, tag="m", record=True):
        self.seed = seed
        self.thr = thr
        self.tag = tag
        self.record = record

    def fit(self, X, y, sample_weight=None):
        y = np.asarray(y).ravel()
        self.classes_ = np.unique(y)
        self._record_fit(X, np.asarray(y, dtype=float), sample_weight)
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def _p(self, X):
        uids, _ = split_uid(X)
        return table_values(self.seed, self.thr)[uids]
