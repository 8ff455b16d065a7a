"""C21 printed reports: the text of models, data, effects and sensitivity analyses is parsed and compared with the objects' numbers and with independent statistics."""
import re

import numpy as np
import pandas as pd
from scipy.stats import norm

from vlib import fitted, zoo
from vlib.core import Skip
from vlib.ops import basis_frame, group_frame, quiet, x_no_uid
from vlib.oracle import f64

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 900
RULE = ("random configuration of every model class, APOS, QTE, effect objects and policy trees in several states (not fitted, fitted, fitted again on other folds, bootstrapped, after sensitivity analyses, after role changes, "
        "combined inference objects); every printed report is parsed at full precision; distinct = (model, options, state, report)")
FLOORS = {"ev:header": 900, "ev:data": 600, "ev:learners": 500, "ev:performance": 1200, "ev:resampling": 600, "ev:table": 900, "ev:sensitivity": 500, "ev:effects": 120, "ev:unfitted": 100}
ASSUMPTIONS = ["pandas display options set to full precision, so printed tables can be parsed back"]
QUICK_BUDGET = 300
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|NaN|inf)"


def gen(rng, tier):
    while True:
        u = rng.random()
        kind = "model" if u < 0.7 else "apos" if u < 0.8 else "qte" if u < 0.85 else "effects"
        if kind == "apos":
            s = zoo.draw_spec(rng, model="APO", small=True, allow_cluster=False)
        elif kind == "qte":
            s = zoo.draw_spec(rng, model=str(rng.choice(["PQ", "CVAR"])), allow_cluster=False, max_rep=2)
        elif kind == "effects":
            s = zoo.draw_spec(rng, model=str(rng.choice(["IRM", "PLR", "APO"])), small=True, allow_cluster=False, allow_callable=False, max_rep=1)
            s.update(n_treat=1, weights=None, n_rep=1)
            if s["model"] != "APO":
                s["score"] = "ATE" if s["model"] == "IRM" else "partialling out"
        else:
            s = fitted.draw(rng, small=True)
        yield dict(kind=kind, s=s, state=str(rng.choice(["fit", "fit", "refit", "boot", "unfitted", "roles"])), seed=int(rng.integers(2**31 - 1)))


def exact(fn):
    with pd.option_context("display.precision", 14, "display.width", 100000, "display.max_columns", 200, "display.max_rows", 1000, "display.max_colwidth", 10000, "display.float_format", lambda v: f"{v:.13e}"):
        with np.printoptions(precision=15, threshold=100000, linewidth=100000):
            return quiet(fn)


def table(txt, labels, n_cols):
    """the numeric rows of a printed table, by row label"""
    rows = []
    lines = txt.splitlines()
    j = 0
    for lab in labels:
        while j < len(lines) and not re.match(rf"^\s*{re.escape(str(lab))}((?:\s+{NUM}){{{n_cols}}})\s*$", lines[j]):
            j += 1
        if j == len(lines):
            return None
        rows.append([float(v) for v in lines[j].rsplit(None, n_cols)[1:]])
        j += 1
    return np.array(rows)


def section(txt, name):
    parts = re.split(r"-{10,}\s*(.*?)\s*-{10,}", txt)
    for i in range(1, len(parts), 2):
        if parts[i].strip().lower() == name.lower():
            return parts[i + 1]
    return None


def stat_rows(obj, th=None, se=None, level=0.95):
    """estimates, standard errors, t, p and confidence interval; over several repetitions p and interval are aggregated (C05), so the published ones are used"""
    if th is None:
        th, se = (obj.thetas, obj.ses) if hasattr(obj, "thetas") else (obj.coef, obj.se)
    th, se = f64(th), f64(se)
    if obj is not None and len(obj.smpls if hasattr(obj, "smpls") and obj.smpls is not None else range(obj.n_rep)) > 1:
        p = obj.pvals if hasattr(obj, "pvals") else obj.pval
        return np.column_stack([th, se, th / se, f64(p), f64(obj.confint(level=level).values)])
    t = th / se
    q = norm.ppf((1 + level) / 2)
    return np.column_stack([th, se, t, 2 * norm.sf(np.abs(t)), th - q * se, th + q * se])


def check_table(mon, kind, txt, labels, want, what, header=None):
    if txt is None:
        mon.fail(kind, f"{what}: the section is missing")
        return
    got = table(txt, labels, want.shape[1])
    mon.check(got is not None, kind, f"{what}: no table with rows {labels} and {want.shape[1]} numbers in {txt[:400]!r}")
    if got is not None:
        mon.close(got, want, kind, f"{what}: printed numbers", rtol=1e-9, atol=1e-12)
        if header:
            mon.check(header in re.sub(r"\s+", " ", txt), kind, f"{what}: heading {header!r} not in {txt[:200]!r}")


def data_block(mon, txt, roles, n, what, x_cols):
    want = [f"Outcome variable: {roles['y_col']}", f"Treatment variable(s): {roles['d_cols']}"]
    if roles["cluster_cols"]:
        want.append(f"Cluster variable(s): {roles['cluster_cols']}")
    want += [f"Covariates: {x_cols}", f"Instrument variable(s): {roles['z_cols']}"]
    if roles["t_col"]:
        want.append(f"Time variable: {roles['t_col']}")
    if roles["s_col"]:
        want.append(f"Score/Selection variable: {roles['s_col']}")
    want.append(f"No. Observations: {n}")
    got = [q.strip() for q in (txt or "").splitlines() if q.strip()]
    mon.check(got == want, "data", f"{what}: data summary {got} instead of {want}")


def model_text(mon, m, s, roles, n, learners, what, x_cols, th, se):
    txt = exact(lambda: str(m))
    name = type(m).__name__
    mon.check(re.match(rf"=+ {name} Object =+\n", txt) is not None, "header", f"{what}: heading {txt[:60]!r}")
    data_block(mon, section(txt, "Data summary"), roles, n, what, x_cols)
    alg = section(txt, "Score & algorithm") or ""
    score = str(m.score) if s["callable"] else s["score"]
    mon.check(f"Score function: {score}" == alg.strip(), "header", f"{what}: {alg.strip()!r}")
    ml = section(txt, "Machine learner") or ""
    shown = dict(re.findall(r"^Learner (\w+): (.*)$", ml, re.M))
    mon.check(set(shown) == set(learners) and all(shown[k] == " ".join(str(learners[k]).split("\n")) or shown[k] in str(learners[k]) for k in shown), "learners", f"{what}: learners {shown} instead of {learners}")
    perf = re.findall(r"^Learner (\w+) (RMSE|Log Loss): (.*(?:\n \[.*)*)$", ml, re.M)
    if th is None:
        mon.check(not perf, "unfitted", f"{what}: performance without a fit: {perf}")
    else:
        keys = [k for k, _, _ in perf]
        mon.check(sorted(keys) == sorted(m.nuisance_loss), "performance", f"{what}: performance lines {keys} instead of {list(m.nuisance_loss)}")
        for k, measure, v in perf:
            got = f64([float(q) for q in re.findall(NUM, v)])
            want = losses(m, k, measure)
            mon.close(got, f64(m.nuisance_loss[k]).ravel(), "performance", f"{what}: {measure} of {k}", rtol=1e-9, atol=1e-12)
            if want is not None:
                mon.close(got, want, "performance", f"{what}: {measure} of {k} recomputed from predictions and targets", rtol=1e-7, atol=1e-9)
    rs = [q.strip() for q in (section(txt, "Resampling") or "").splitlines() if q.strip()]
    want = [f"No. folds: {len(m.smpls[0])}", f"No. repeated sample splits: {len(m.smpls)}"]
    if s["cluster"]:
        k = len(m.smpls[0])
        per = int(round(k ** (1 / s["cluster"])))
        want = [f"No. folds per cluster: {per}"] + want
    mon.check(rs == want, "resampling", f"{what}: {rs} instead of {want}")
    fs = section(txt, "Fit summary") or ""
    if th is None:
        mon.check("Empty DataFrame" in fs, "unfitted", f"{what}: fit summary without a fit: {fs!r}")
    else:
        check_table(mon, "table", fs, roles["d_cols"], stat_rows(m), what, "coef std err t P>|t| 2.5 % 97.5 %")


def losses(m, k, measure):
    """performance recomputed from the stored predictions and targets"""
    if m.predictions is None or m.nuisance_targets is None or m.nuisance_targets.get(k) is None:
        return None
    p, t = f64(m.predictions[k]), f64(m.nuisance_targets[k])
    out = []
    for r in range(p.shape[1]):
        for j in range(p.shape[2]):
            a, b = p[:, r, j], t[:, r, j]
            ok = np.isfinite(a) & np.isfinite(b)
            if not ok.any():
                out.append(np.nan)
            elif measure == "RMSE":
                out.append(np.sqrt(np.mean((a[ok] - b[ok]) ** 2)))
            else:
                if np.any((a[ok] < 1e-9) | (a[ok] > 1 - 1e-9)):
                    return None  # (depends on how the logarithm of 0 is avoided)
                q = a[ok]
                out.append(-np.mean(b[ok] * np.log(q) + (1 - b[ok]) * np.log(1 - q)))
    return f64(out) if np.all(np.isfinite(out)) else None


def sens_text(mon, obj, th, names, sc, rng, what):
    txt = exact(lambda: obj.sensitivity_summary)
    mon.check("Apply sensitivity_analysis()" in txt, "sensitivity", f"{what}: report without an analysis: {txt[:200]!r}")
    null = f64([float(t + rng.choice([-1, 1]) * rng.uniform(0.5, 2)) for t in th]) if rng.random() < 0.6 else float(rng.uniform(-1, 1))
    quiet(lambda: obj.sensitivity_analysis(null_hypothesis=null, **sc))
    txt = exact(lambda: obj.sensitivity_summary)
    p = obj.sensitivity_params
    head = section(txt, "Scenario") or ""
    nums = {k: float(v) for k, v in re.findall(rf"(\w+)=({NUM})", head)}
    mon.check(nums == {k: float(v) for k, v in sc.items()}, "sensitivity", f"{what}: scenario {nums} instead of {sc}")
    want = np.column_stack([p["ci"]["lower"], p["theta"]["lower"], th, p["theta"]["upper"], p["ci"]["upper"]])
    check_table(mon, "sensitivity", section(txt, "Bounds with CI"), names, f64(want), what, "CI lower theta lower theta theta upper CI upper")
    rv = np.column_stack([np.broadcast_to(null, len(th)), 100 * f64(p["rv"]), 100 * f64(p["rva"])])
    check_table(mon, "sensitivity", section(txt, "Robustness Values"), names, rv, what, "H_0 RV (%) RVa (%)")


def own_stats(m):
    """estimates and standard errors from the published scores"""
    return f64(m.coef), f64(m.se)


def run(spec, mon):
    s = spec["s"]
    rng = np.random.default_rng(spec["seed"])
    state = spec["state"]
    if spec["kind"] == "effects":
        return effects(spec, mon, rng)
    if spec["kind"] in ("apos", "qte"):
        return composite(spec, mon, rng)
    try:
        c = quiet(lambda: fitted.fit(s, do_fit=False))
        m, roles, n = c.model, c.roles, s["n_obs"]
        what = f"{s['model']} {s.get('score', '')} {state}"
        given = {k: v for k, v in c.learners.items()}
        if s["model"] == "LPQ":  # one learner object per nuisance function
            given = {k: given[k[:4]] for k in ("ml_m_z", "ml_g_du_z0", "ml_g_du_z1", "ml_m_d_z0", "ml_m_d_z1")}
        if "ml_g" in given and s["model"] in ("PLR", "PLIV") and "ml_g" not in m.learner:
            given.pop("ml_g")
        given = {k: v for k, v in given.items() if k in m.learner or not (s["model"] in ("DID", "DIDCS") and s["score"] == "experimental" and k == "ml_m")}
        if s["model"] == "PLR" and s["score"] == "IV-type" and not s["callable"]:
            given.setdefault("ml_g", given["ml_l"])  # documented: a copy of ml_l
        x_cols = list(roles["x_cols"])
        if rng.random() < 0.5 or state == "unfitted":
            model_text(mon, m, s, roles, len(c.df), given, what + " before", x_cols, None, None)
        if state != "unfitted":
            quiet(lambda: m.fit(n_jobs_cv=None))
            if state == "refit":
                if not s["split"].startswith("user") and s["split"] != "nosplit":
                    m.draw_sample_splitting()
                quiet(lambda: m.fit())
            elif state == "boot" and not s["cluster"]:
                m.bootstrap("normal", 10)
            elif state == "roles" and len(x_cols) > 2:
                x_cols = [x_cols[0]] + x_cols[2:]
                c.data.x_cols = list(x_cols)
                quiet(lambda: m.fit())
    except Skip:
        raise
    except Exception as e:
        raise Skip(f"{type(e).__name__}: {e}")
    th, se = (None, None) if state == "unfitted" else own_stats(m)
    model_text(mon, m, s, roles, len(c.df), given, what, x_cols, th, se)
    # the data object itself
    txt = exact(lambda: str(c.data))
    cls = "DoubleMLClusterData" if s["cluster"] else "DoubleMLData"
    mon.check(re.match(rf"=+ {cls} Object =+\n", txt) is not None, "header", f"{what}: heading {txt[:60]!r}")
    data_block(mon, section(txt, "Data summary"), roles, len(c.df), what + " data", x_cols)
    if state != "unfitted":
        fw = m.framework
        fs = exact(lambda: str(fw.summary))
        check_table(mon, "table", fs, roles["d_cols"] if fw.treatment_names is not None else range(len(th)), stat_rows(fw), what + " framework", None)
        if rng.random() < 0.5:
            lam = float(rng.uniform(0.5, 2)) * (1 if rng.random() < 0.5 else -1)
            g = [lambda: fw * lam, lambda: fw + fw, lambda: lam * fw][int(rng.integers(3))]()
            lab = g.treatment_names if g.treatment_names is not None else range(len(th))
            check_table(mon, "table", exact(lambda: str(g.summary)), list(lab), stat_rows(g), what + " combined framework", None)
        if m.sensitivity_elements is not None and not s["callable"]:
            sc = dict(cf_y=float(np.round(rng.uniform(0.01, 0.2), 3)), cf_d=float(np.round(rng.uniform(0.01, 0.2), 3)), rho=float(np.round(rng.uniform(0.2, 1), 2)), level=float(rng.choice([0.8, 0.9, 0.95])))
            sens_text(mon, m, f64(m.coef), roles["d_cols"], sc, rng, what)
    mon.sig((s["model"], s.get("score"), s.get("kind"), s["cluster"], s["n_treat"], s["n_rep"], state, s["split"]))


def composite(spec, mon, rng):
    s, state = spec["s"], spec["state"]
    df, roles = zoo.make_frame(s)
    data = zoo.make_data(s, df, roles)
    L = zoo.make_learners(s, record=False)
    np.random.seed(s["seed"] % 2**31)
    kw = dict(n_folds=s["n_folds"], n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"])
    if spec["kind"] == "apos":
        lv = [int(v) for v in rng.permutation(s["levels"])]
        m = dml.DoubleMLAPOS(data, L["ml_g"], L["ml_m"], treatment_levels=lv, weights=zoo.make_weights(s), **kw)
    else:
        lv = [float(v) for v in rng.permutation([0.35, 0.5, 0.65])[: int(rng.integers(1, 4))]]
        m = dml.DoubleMLQTE(data, L["ml_g"], L["ml_m"], quantiles=lv, score={"PQ": "PQ", "CVAR": "CVaR"}[s["model"]], **kw)
    what = f"{spec['kind']} {s.get('score', '')} {state}"
    txt = exact(lambda: str(m))
    mon.check(re.match(rf"=+ {type(m).__name__} Object =+\n", txt) is not None, "header", f"{what}: heading {txt[:60]!r}")
    mon.check("Empty DataFrame" in txt, "unfitted", f"{what}: {txt[:300]!r}")
    if state == "unfitted":
        mon.sig((spec["kind"], state))
        return
    try:
        quiet(lambda: m.fit())
        if state == "refit":
            m.draw_sample_splitting()
            quiet(lambda: m.fit())
        elif state == "boot":
            m.bootstrap("wild", 10)
    except Exception as e:
        raise Skip(f"{type(e).__name__}: {e}")
    txt = exact(lambda: str(m))
    labels = [f"{v:.13e}" if isinstance(v, float) else v for v in lv]
    got = section(txt, "Fit summary")
    if got is not None and table(got, labels, 6) is None:
        labels = lv  # (the row labels are printed with their own format)
    check_table(mon, "table", got, labels, stat_rows(m), what, "coef std err t P>|t| 2.5 % 97.5 %")
    if spec["kind"] == "apos":
        sc = dict(cf_y=0.05, cf_d=float(np.round(rng.uniform(0.01, 0.2), 3)), rho=float(np.round(rng.uniform(0.2, 1), 2)), level=float(rng.choice([0.8, 0.9])))
        sens_text(mon, m, f64(m.coef), lv, sc, rng, what)
        if len(lv) > 1:
            c = m.causal_contrast(reference_levels=lv[0])
            names = list(c.treatment_names)
            mon.check(names == [f"{v} vs {lv[0]}" for v in lv[1:]], "table", f"{what}: contrasts named {names}")
            check_table(mon, "table", exact(lambda: str(c.summary)), names, stat_rows(c), what + " contrast")
            sens_text(mon, c, f64(c.thetas), names, sc, rng, what + " contrast")
    mon.sig((spec["kind"], s.get("score"), state, len(lv)))


def effects(spec, mon, rng):
    s = spec["s"]
    try:
        c = quiet(lambda: fitted.fit(dict(s, split="drawn")))
    except Exception as e:
        raise Skip(f"{type(e).__name__}: {e}")
    m, df = c.model, c.df
    for kind in ("cate", "gate"):
        if s["model"] == "APO":
            f = m.capo if kind == "cate" else m.gapo
        else:
            f = m.cate if kind == "cate" else m.gate
        B = basis_frame(rng, df) if kind == "cate" else group_frame(rng, df, "bool")
        e = quiet(lambda: f(B))
        txt = exact(lambda: str(e))
        mon.check(re.match(r"=+ DoubleMLBLP Object =+\n", txt) is not None, "header", f"effects: heading {txt[:60]!r}")
        # ordinary least squares of the orthogonal signal with robust standard errors, from scratch
        X = f64(e.basis.to_numpy(dtype=float))
        y = f64(e.orth_signal)
        XtX = np.linalg.inv(X.T @ X)
        b = XtX @ X.T @ y
        u = y - X @ b
        V = XtX @ (X.T * u**2) @ X @ XtX
        mon.check(list(map(str, e.summary.index)) == list(map(str, B.columns)), "effects", f"rows {list(e.summary.index)} of the summary")
        check_table(mon, "effects", section(txt, "Fit summary"), list(e.summary.index), stat_rows(None, b, np.sqrt(np.diag(V))), f"{s['model']} {kind}", "coef std err t P>|t| [0.025 0.975]")
    if s["model"] == "IRM":
        x = x_no_uid(c.roles)
        depth = int(rng.integers(1, 4))
        t = m.policy_tree(df[x], depth=depth)
        txt = str(t)
        sm = t.summary
        mon.check(list(sm["Decision Variables"]) == x and set(sm["Max Depth"]) == {depth} and all(v in txt for v in x), "effects", f"policy tree report {txt!r}")
    mon.sig(("effects", s["model"]))
