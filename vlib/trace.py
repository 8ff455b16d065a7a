"""What each nuisance function is documented to be: training rows, target and features; and matching of stored
predictions to recorded predict / fit events."""
import numpy as np

from .oracle import cols, f64


def keys_of(s, roles):
    m = s["model"]
    if m == "PLR":
        ks = ["ml_l", "ml_m"]
        if s["callable"] or s["score"] == "IV-type":
            ks.append("ml_g")
        return ks
    if m == "PLIV":
        if s["kind"] == "partialZ":
            return ["ml_r"]
        if s["kind"] == "partialXZ":
            return ["ml_l", "ml_m", "ml_r"]
        zs = roles["z_cols"]
        ks = ["ml_l", "ml_r"] + (["ml_m"] if len(zs) == 1 else ["ml_m_" + z for z in zs])
        if s["kind"] == "std" and (s["callable"] or s["score"] == "IV-type"):
            ks.append("ml_g")
        return ks
    return {
        "IRM": ["ml_g0", "ml_g1", "ml_m"],
        "APO": ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"],
        "IIVM": ["ml_g0", "ml_g1", "ml_m", "ml_r0", "ml_r1"],
        "DID": ["ml_g0", "ml_g1"] + (["ml_m"] if s.get("score") == "observational" else []),
        "DIDCS": ["ml_g_d0_t0", "ml_g_d0_t1", "ml_g_d1_t0", "ml_g_d1_t1"] + (["ml_m"] if s.get("score") == "observational" else []),
        "SSM": ["ml_g_d0", "ml_g_d1", "ml_pi", "ml_m"],
        "CVAR": ["ml_g", "ml_m"],
        "PQ": ["ml_g", "ml_m"],
        "LPQ": ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"],
    }[m]


def nuisance(s, df, roles, key, k):
    """dict(mask: rows the nuisance is conditional on, exact: trained on *all* such rows of the training fold,
    target: array or None (unknown), trimmed: prediction is clipped, const: constant by design,
    feats: expected feature matrix without the row id, or None)"""
    m = s["model"]
    n = len(df)
    dcol = roles["d_cols"][k]
    y, d = f64(df[roles["y_col"]]), f64(df[dcol])
    xc = [c for c in roles["x_cols"] if c != "uid"]
    if s.get("n_treat", 1) > 1 and s.get("other_treat_cov", True):
        xc = xc + [c for c in roles["d_cols"] if c != dcol]
    X = cols(df, xc)
    full = np.ones(n, bool)
    out = dict(mask=full, exact=True, target=None, trimmed=False, const=False, feats=X)
    if m == "PLR":
        out["target"] = {"ml_l": y, "ml_m": d}.get(key)
    elif m == "PLIV":
        Z = cols(df, roles["z_cols"])
        if s["kind"] == "partialZ":
            out["target"] = d
            out["feats"] = np.column_stack([X, Z])
        elif s["kind"] == "partialXZ":
            out["target"] = {"ml_l": y, "ml_m": d}.get(key)
            if key == "ml_m":
                out["feats"] = np.column_stack([X, Z])
        else:
            if key == "ml_l":
                out["target"] = y
            elif key == "ml_r":
                out["target"] = d
            elif key == "ml_m":
                out["target"] = Z[:, 0]
            elif key.startswith("ml_m_"):
                out["target"] = Z[:, roles["z_cols"].index(key[5:])]
    elif m in ("IRM", "DID"):
        if key == "ml_m":
            out.update(target=d, trimmed=True)
        else:
            out.update(target=y, mask=d == int(key[-1]))
    elif m == "APO":
        tr = (d == s["level"]).astype(float)
        if key == "ml_m":
            out.update(target=tr, trimmed=True)
        else:
            out.update(target=y, mask=tr == int(key[-1]))
            if key.endswith("lvl0"):
                out["feats"] = np.column_stack([d, X])
    elif m == "IIVM":
        z = f64(df[roles["z_cols"][0]])
        if key == "ml_m":
            out.update(target=z, trimmed=True)
        else:
            out.update(target=y if key.startswith("ml_g") else d, mask=z == int(key[-1]))
            if key == "ml_r0" and not s["always"] or key == "ml_r1" and not s["never"]:
                out["const"] = True
    elif m == "DIDCS":
        t = f64(df[roles["t_col"]])
        if key == "ml_m":
            out.update(target=d, trimmed=True)
        else:
            a, b = int(key[6]), int(key[9])
            out.update(target=y, mask=(d == a) & (t == b))
    elif m == "SSM":
        sel = f64(df[roles["s_col"]])
        non = s["score"] == "nonignorable"
        if key == "ml_pi":
            out.update(target=sel, exact=not non)
            out["feats"] = np.column_stack([X, d] + ([cols(df, roles["z_cols"])] if non else []))
        elif key == "ml_m":
            out.update(target=d, trimmed=True, exact=not non)
            if non:
                out["feats"] = None
        else:
            out.update(target=y, mask=(d == int(key[-1])) & (sel == 1), exact=not non)
            if non:
                out["feats"] = None
    elif m in ("CVAR", "PQ"):
        if key == "ml_m":
            out.update(target=d, trimmed=True)
        else:
            out.update(mask=d == s["treatment"], exact=False)
    elif m == "LPQ":
        z = f64(df[roles["z_cols"][0]])
        if key == "ml_m_z":
            out.update(target=z)
        elif key.startswith("ml_m_d"):
            out.update(target=d, mask=z == int(key[-1]))
        else:
            out.update(mask=z == int(key[-1]), exact=False)
    if s.get("trimming_rule", "truncate") != "truncate":
        out["trimmed"] = False
    return out


class TraceIndex:
    def __init__(self, events):
        self.fits = {e["fit_id"]: e for e in events if e["op"] == "fit"}
        self.preds = [e for e in events if e["op"] == "predict" and e["uids"] is not None]
        self.pos = []
        for e in self.preds:
            mx = int(e["uids"].max()) + 1 if len(e["uids"]) else 0
            p = np.full(mx, -1)
            p[e["uids"]] = np.arange(len(e["uids"]))
            self.pos.append(p)

    def candidates(self, rows, vals, trim=None, trim_ok=True):
        """predict events that produced exactly these values for these rows"""
        out = []
        mx = int(np.max(rows))
        for e, p in zip(self.preds, self.pos):
            if len(p) <= mx:
                continue
            q = p[rows]
            if np.any(q < 0):
                continue
            v = e["out"][q]
            if trim is not None:
                v = np.clip(v, trim, 1 - trim)
            if np.allclose(v, vals, rtol=0, atol=1e-12):
                out.append(e)
        return out


def same_columns(A, B):
    """equal as a set of columns (any order)"""
    if A.shape != B.shape:
        return False
    a = A[:, np.lexsort(A[::-1])] if A.shape[0] else A
    b = B[:, np.lexsort(B[::-1])] if B.shape[0] else B
    return bool(np.allclose(a, b, rtol=0, atol=1e-12))
