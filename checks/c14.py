"""C14 sensitivity analysis: elements, bounds, confidence bounds, robustness values, benchmarks and plots against own formulas."""
import numpy as np
from scipy.stats import norm

from vlib import fitted, fw, zoo
from vlib.ops import quiet, x_no_uid
from vlib.oracle import f64, hajek, pred, ref_aggregate, ref_se

import doubleml as dml

LEVEL = "exploration"
N_QUICK = 700
RULE = ("fitted models of every class with sensitivity support (all scores, weights, normalisation, clusters, several treatments and repetitions, extreme propensities that make the norm re-estimation necessary), average-potential-outcome "
        "contrasts, and synthetic inference objects and their combinations; random confounding scenarios, levels, null hypotheses; distinct = (kind, model, options)")
FLOORS = {"ev:elements": 300, "ev:bounds": 400, "ev:se": 400, "ev:ci": 400, "ev:rv": 400, "ev:rva": 200, "ev:shape": 1000, "ev:benchmark": 60, "ev:plot": 100, "fallback": 5, "ev:contrast": 30, "ev:neutral": 200}


def gen(rng, tier):
    while True:
        u = rng.random()
        if u < 0.35:
            yield dict(kind="synth", seed=int(rng.integers(2**31)), n=int(rng.integers(30, 200)), K=int(rng.integers(1, 4)), R=int(rng.integers(1, 4)), expr=bool(rng.random() < 0.4))
        elif u < 0.9:
            s = fitted.draw(rng, model=str(rng.choice(zoo.SENS_OK)), small=True, allow_callable=False)
            if rng.random() < 0.25:
                s["slope"] = 8.0
                s["trimming_threshold"] = 0.01
            if s["split"] == "nosplit":
                s["split"] = "user"
            yield dict(kind="model", s=s, seed=int(rng.integers(2**31)), bench=bool(rng.random() < 0.5))
        else:
            s = zoo.draw_spec(rng, model="APO", small=True, allow_cluster=False, allow_callable=False)
            s["binary_y"] = s["g_clf"] = False
            s["levels"] = int(rng.integers(2, 4))
            yield dict(kind="apos", s=s, seed=int(rng.integers(2**31)))


def ref_sens(s, df, roles, model, r, k, weights):
    m = s["model"]
    y, d = f64(df[roles["y_col"]]), f64(df[roles["d_cols"][k]])
    n = len(y)
    P = lambda key: pred(model, key, r, k)  # noqa: E731
    thr = s.get("trimming_threshold", 1e-2)
    clip = lambda a: np.clip(a, thr, 1 - thr)  # noqa: E731
    theta = model.all_coef[k, r]
    if m == "PLR":
        v = d - P("ml_m")
        e = y - P("ml_l") - theta * v if s["score"] == "partialling out" else y - P("ml_g") - theta * d
        nu2 = 1 / np.mean(v**2)
        return dict(e2=e**2, nu2=nu2, psi_nu2=nu2 - v**2 * nu2**2, rr=v * nu2)
    w = np.ones(n) if weights is None else (weights["weights"] if isinstance(weights, dict) else weights)
    wb = weights["weights_bar"][:, r] if isinstance(weights, dict) else w
    if m == "IRM":
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            mh = hajek(mh, d)
        e = y - np.where(d == 1, P("ml_g1"), P("ml_g0"))
        if s["score"] == "ATTE":
            p = np.mean(w * d)
            w, wb = w * d / p, mh * w / p
        ma = w * wb * (1 / mh + 1 / (1 - mh))
        rr = wb * np.where(d == 1, 1 / mh, -1 / (1 - mh))
    elif m == "APO":
        tr = (d == s["level"]).astype(float)
        mh = clip(P("ml_m"))
        if s.get("normalize_ipw"):
            mh = hajek(mh, tr)
        e = y - np.where(tr == 1, P("ml_g_d_lvl1"), P("ml_g_d_lvl0"))
        ma = w * wb / mh
        rr = wb * tr / mh
    elif m == "DID":
        e = y - np.where(d == 1, P("ml_g1"), P("ml_g0"))
        p = np.mean(d)
        if s["score"] == "experimental":
            ma = np.full(n, 1 / p + 1 / (1 - p))
            rr = np.where(d == 1, 1 / p, -1 / (1 - p))
        else:
            mh = clip(P("ml_m"))
            o = mh / (1 - mh)
            c = np.mean((1 - d) * o) if s["in_sample_normalization"] else p
            ma = d / p * (1 / p + o / c)
            rr = np.where(d == 1, 1 / p, -o / c)
    elif m == "DIDCS":
        t = f64(df[roles["t_col"]])
        g = np.zeros(n)
        for a in (0, 1):
            for b in (0, 1):
                i = (d == a) & (t == b)
                g[i] = P(f"ml_g_d{a}_t{b}")[i]
        e = y - g
        p, lam = np.mean(d), np.mean(t)
        ind = {(a, b): ((d == a) & (t == b)).astype(float) for a in (0, 1) for b in (0, 1)}
        obs, isn = s["score"] == "observational", s["in_sample_normalization"]
        o = np.ones(n)
        if obs:
            mh = clip(P("ml_m"))
            o = mh / (1 - mh)
        den = {}
        for (a, b), v in ind.items():
            if isn:
                den[a, b] = np.mean(v * (o if a == 0 else 1.0))
            else:
                den[a, b] = (p if (a == 1 or obs) else 1 - p) * (lam if b == 1 else 1 - lam)
        rr = np.zeros(n)
        for (a, b), v in ind.items():
            rr += (1 if a == b else -1) * v * (o if a == 0 else 1.0) / den[a, b]
        base = d / p if obs else np.ones(n)
        ma = base * (1 / den[1, 1] + 1 / den[1, 0] + o / den[0, 1] + o / den[0, 0])
    sc = 2 * ma - rr**2
    nu2 = np.mean(sc)
    return dict(e2=e**2, nu2=nu2, psi_nu2=sc - nu2, rr=rr)


def strength(cf_y, cf_d, rho):
    return abs(rho) * np.sqrt(cf_y * cf_d / (1 - cf_d))


def analysis(f, ses, cf_y, cf_d, rho, level, N):
    """own bounds from the object's scores; ses(psi) -> (n_theta, n_rep)"""
    st = strength(cf_y, cf_d, rho)
    B, pB = f.sensitivity_elements["max_bias"][0], f.sensitivity_elements["psi_max_bias"]
    q = norm.ppf(level)
    out = {}
    for side, sg in (("lower", -1), ("upper", 1)):
        th = f.all_thetas + sg * st * B
        se = ses(f.scaled_psi + sg * st * pB)
        a, b = ref_aggregate(th, se, N)
        out[side] = dict(theta=a, se=b, ci=np.median(th + sg * q * se, axis=1))
    return out


def plain_ses(n):
    return lambda psi: np.sqrt(np.mean(psi**2, axis=0) / n)


def cluster_ses(df, roles, model):
    def fn(psi):
        one = np.ones(len(df))
        return np.array([[ref_se(psi[:, k, r], one, df, roles, model.smpls[r])[0] for r in range(psi.shape[2])] for k in range(psi.shape[1])])

    return fn


def r_of_strength(st):
    """r with r / sqrt(1 - r) = st"""
    return (-(st**2) + np.sqrt(st**4 + 4 * st**2)) / 2


def robustness(mon, f, ses, N, level, rho, null, rv, rva):
    for k in range(f.n_thetas):
        if abs(rho) < 0.05:
            continue
        side = "upper" if null[k] > f.thetas[k] else "lower"
        sg = 1 if side == "upper" else -1

        def gap(r, what):
            return sg * (analysis(f, ses, r, r, rho, level, N)[side][what][k] - null[k])

        for what, got in (("theta", rv[k]), ("ci", rva[k])):
            grid = np.concatenate([[0.0], np.geomspace(1e-4, 0.03, 12), np.linspace(0.04, 0.98, 24), [0.99, 0.999, 0.9999]])
            g = np.array([gap(x, what) for x in grid])
            if np.any(np.diff(g) <= 0) or not np.all(np.isfinite(g)):
                mon.count("non-monotone")  # the touching point is not unique
                continue
            if g[0] >= 0:
                ref = 0.0
            elif g[-1] <= 0:
                ref = 0.9999
            else:
                i = int(np.argmax(g > 0))
                lo, hi = grid[i - 1], grid[i]
                for _ in range(30):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if gap(mid, what) < 0 else (lo, mid)
                ref = (lo + hi) / 2
            mech = "rv" if what == "theta" else "rva"
            mon.check(abs(got - ref) < 5e-4, mech, f"robustness value ({what}) of parameter {k}: {got} instead of {ref} (null {null[k]}, estimate {f.thetas[k]}, rho {rho})")


def scenario(rng):
    return dict(cf_y=float(rng.choice([0.0, 0.01, 0.03, 0.1, 0.3, 0.7])), cf_d=float(rng.choice([0.0, 0.01, 0.04, 0.2, 0.6])), rho=float(rng.choice([1.0, -1.0, 0.5, -0.3, 0.0])),
                level=float(rng.choice([0.5, 0.8, 0.9, 0.95, 0.99])))


def run_analysis(mon, f, rng, ses, N, target=None, what="", rvs=True):
    """target: the object whose sensitivity_analysis is called (a model or the framework itself)"""
    target = target or f
    sc = scenario(rng)
    span = np.maximum(np.abs(f.sensitivity_elements["max_bias"][0].mean(axis=1)) * 0.1, f.ses)
    null = f.thetas + rng.choice([-3.0, -1.0, -0.2, 0.3, 1.0, 5.0], size=f.n_thetas) * span
    scalar = rng.random() < 0.5
    arg = float(null[0]) if scalar else null.copy()
    if scalar:
        null = np.full(f.n_thetas, null[0])
    quiet(lambda: target.sensitivity_analysis(null_hypothesis=arg, **sc))
    p = target.sensitivity_params
    ref = analysis(f, ses, N=N, **sc)
    for side in ("lower", "upper"):
        mon.close(p["theta"][side], ref[side]["theta"], "bounds", f"{what} {side} bound under {sc}")
        mon.close(p["se"][side], ref[side]["se"], "se", f"{what} standard error of the {side} bound under {sc}")
        mon.close(p["ci"][side], ref[side]["ci"], "ci", f"{what} {side} confidence bound under {sc}")
    for a in sc:
        mon.check(p["input"][a] == sc[a], "input", f"{what} recorded input {a}: {p['input'][a]} instead of {sc[a]}")
    mon.close(p["input"]["null_hypothesis"], null, "input", f"{what} recorded null hypothesis")
    # shape of the bounds
    th = f.thetas
    mon.check(np.all(p["theta"]["lower"] <= th + 1e-9 * (1 + np.abs(th))) and np.all(th <= p["theta"]["upper"] + 1e-9 * (1 + np.abs(th))), "shape", f"{what} bounds do not contain the estimate under {sc}")
    if f.n_rep == 1:
        mon.close(p["theta"]["upper"] - th, th - p["theta"]["lower"], "shape", f"{what} bounds are not symmetric", rtol=1e-6)
    if sc["level"] >= 0.5:
        mon.check(np.all(p["ci"]["lower"] <= p["theta"]["lower"] + 1e-9) and np.all(p["ci"]["upper"] >= p["theta"]["upper"] - 1e-9), "shape", f"{what} confidence bounds do not contain the bounds under {sc}")
    summary = target.sensitivity_summary
    mon.check(f"{sc['cf_y']}" in summary and f"{sc['level']}" in summary and all(str(t) in summary for t in np.atleast_1d(f.treatment_names if f.treatment_names is not None else [])), "summary", f"{what} summary does not show the scenario: {summary[:300]}")
    if rvs:
        robustness(mon, f, ses, N, sc["level"], sc["rho"], null, p["rv"], p["rva"])
    first = {side: p["theta"][side].copy() for side in ("lower", "upper")}
    ci1 = {side: p["ci"][side].copy() for side in ("lower", "upper")}
    # growth and neutrality
    up = dict(sc)
    up[str(rng.choice(["cf_y", "cf_d"]))] = min(0.95, max(sc["cf_y"], sc["cf_d"]) * 1.2 + 0.02)
    if up["cf_y"] >= sc["cf_y"] and up["cf_d"] >= sc["cf_d"]:
        quiet(lambda: target.sensitivity_analysis(**up))
        q = target.sensitivity_params
        mon.check(np.all(q["theta"]["lower"] <= first["lower"] + 1e-9) and np.all(q["theta"]["upper"] >= first["upper"] - 1e-9), "shape", f"{what} bounds shrink from {sc} to {up}")
    hi = dict(sc, level=0.995)
    quiet(lambda: target.sensitivity_analysis(**hi))
    q = target.sensitivity_params
    mon.check(np.all(q["ci"]["lower"] <= ci1["lower"] + 1e-9) and np.all(q["ci"]["upper"] >= ci1["upper"] - 1e-9), "shape", f"{what} confidence bounds shrink with the level")
    zero = dict(sc)
    zero[str(rng.choice(["cf_y", "cf_d", "rho"]))] = 0.0
    quiet(lambda: target.sensitivity_analysis(**zero))
    q = target.sensitivity_params
    for side in ("lower", "upper"):
        mon.close(q["theta"][side], f.thetas, "neutral", f"{what} {side} bound without confounding {zero}")
        mon.close(q["se"][side], f.ses, "neutral", f"{what} standard error of the {side} bound without confounding {zero}", rtol=1e-6)
    lev = 2 * sc["level"] - 1
    if 0 < lev < 1:
        ci = f.confint(level=lev).values
        mon.close(np.column_stack([q["ci"]["lower"], q["ci"]["upper"]]), ci, "neutral", f"{what} confidence bounds without confounding vs the two-sided interval of level {lev}", rtol=1e-6, atol=1e-8)
    return sc, null


def check_plot(mon, f, rng, ses, N, target, what):
    a = scenario(rng)
    quiet(lambda: target.sensitivity_analysis(null_hypothesis=float(f.thetas[0] - 1.0), **a))
    k = int(rng.integers(f.n_thetas))
    value = str(rng.choice(["theta", "ci"]))
    p = dict(rho=float(rng.choice([1.0, 0.4, -0.7])), level=float(rng.choice([0.8, 0.9, 0.99])))
    null = float(f.thetas[k] + rng.choice([-1.0, 1.0]) * (0.5 + f.ses[k]))
    side = "upper" if null > f.thetas[k] else "lower"
    bounds = (float(rng.choice([0.1, 0.3])), float(rng.choice([0.05, 0.2])))
    inc = bool(rng.random() < 0.6)
    nb = int(rng.integers(0, 3))
    bench = dict(cf_y=[float(x) for x in rng.uniform(0.01, 0.3, nb)], cf_d=[float(x) for x in rng.uniform(0.01, 0.3, nb)], name=[f"b{j}" for j in range(nb)]) if nb else None
    size = 10
    fig = quiet(lambda: target.sensitivity_plot(idx_treatment=k, value=value, null_hypothesis=null, include_scenario=inc, benchmarks=bench, fill=bool(rng.random() < 0.5), grid_bounds=bounds, grid_size=size, **p))
    tr = {t.name: t for t in fig.data}
    c = tr["Contour"]
    x, y, z = f64(c.x), f64(c.y), f64(c.z)
    mon.close(x, np.linspace(0, bounds[0], size), "plot", f"{what} grid of the x axis")
    mon.close(y, np.linspace(0, bounds[1], size), "plot", f"{what} grid of the y axis")
    mon.check("cf_d" in fig.layout.xaxis.title.text and "cf_y" in fig.layout.yaxis.title.text, "plot", f"{what} axis titles")
    for _ in range(6):
        i, j = int(rng.integers(size)), int(rng.integers(size))
        ref = analysis(f, ses, y[i], x[j], p["rho"], p["level"], N)[side][value][k]
        mon.close(z[i, j], ref, "plot", f"{what} contour value at cf_d={x[j]:.3f}, cf_y={y[i]:.3f} ({value}, {side})")
    mon.check(("Scenario" in tr) == inc, "plot", f"{what} scenario shown: {'Scenario' in tr}, requested {inc}")

    def hover(t):
        return float(t.hovertemplate.split("Bound: ")[1].split("<")[0])

    if inc and "Scenario" in tr:
        t = tr["Scenario"]
        mon.close([t.x[0], t.y[0]], [a["cf_d"], a["cf_y"]], "plot", f"{what} scenario position")
        ref = analysis(f, ses, N=N, **a)[side][value][k]
        mon.check(abs(hover(t) - ref) <= 6e-4, "plot", f"{what} scenario value {hover(t)} instead of {ref}")
    t = tr["Unadjusted"]
    mon.close([t.x[0], t.y[0]], [0, 0], "plot", f"{what} unadjusted position")
    if value == "theta":
        ok = [f.thetas[k]]
    else:
        j = 1 if side == "upper" else 0
        ok = [f.confint(level=p["level"]).values[k, j], analysis(f, ses, 0.0, 0.0, 1.0, p["level"], N)[side]["ci"][k]]
    mon.check(min(abs(hover(t) - v) for v in ok) <= 6e-4, "plot", f"{what} unadjusted value {hover(t)} instead of {ok}")
    if bench:
        t = tr["Benchmarks"]
        mon.close(t.x, bench["cf_d"], "plot", f"{what} benchmark x")
        mon.close(t.y, bench["cf_y"], "plot", f"{what} benchmark y")
        ref = [analysis(f, ses, cy, cd, p["rho"], p["level"], N)[side][value][k] for cy, cd in zip(bench["cf_y"], bench["cf_d"])]
        mon.close(f64(t.customdata)[:, 0], ref, "plot", f"{what} benchmark values")


def ref_benchmark(mlong, mshort, y):
    v = np.var(y)
    fl, fs = mlong.framework, mshort.framework
    sl, ss = fl.sensitivity_elements["sigma2"][0], fs.sensitivity_elements["sigma2"][0]
    nl, ns = fl.sensitivity_elements["nu2"][0], fs.sensitivity_elements["nu2"][0]
    cf_y = np.clip((ss - sl) / v / (sl / v), 0, 1)
    cf_d = np.clip((nl - ns) / ns, 0, 1)
    delta = fs.all_thetas - fl.all_thetas
    vg, vr = ss - sl, nl - ns
    ok = (vg > 0) & (vr > 0)
    den = np.where(ok, np.sqrt(np.abs(vg * vr)), 0.0)
    rho = np.where(den > 0, np.clip(np.abs(delta) / np.where(den > 0, den, 1.0), 0, 1), 1.0) * np.sign(delta)
    return {"cf_y": np.median(cf_y, axis=1), "cf_d": np.median(cf_d, axis=1), "rho": np.median(rho, axis=1), "delta_theta": np.median(delta, axis=1)}


def run_model(spec, mon):
    s = spec["s"]
    rng = np.random.default_rng(spec["seed"])
    c = fitted.fit(s)
    m, df, roles = c.model, c.df, c.roles
    f = m.framework
    mon.sig("model", *fitted.signature(s))
    el = m.sensitivity_elements
    n_t, n_r = len(roles["d_cols"]), s["n_rep"]
    for k in range(n_t):
        refs = [ref_sens(s, df, roles, m, r, k, c.weights) for r in range(n_r)]
        fallback = any(x["nu2"] <= 0 for x in refs)
        if fallback:
            mon.count("fallback")
            mon.check(any("not positive" in w for w in c.warn), "fallback-warning", "no warning about the re-estimated norm")
        for r, x in enumerate(refs):
            if fallback:
                nu2, psi_nu2 = np.mean(x["rr"] ** 2), x["rr"] ** 2 - np.mean(x["rr"] ** 2)
            else:
                nu2, psi_nu2 = x["nu2"], x["psi_nu2"]
            s2 = np.mean(x["e2"])
            what = f"treatment {k}, repetition {r}"
            mon.close(el["sigma2"][0, r, k], s2, "elements", f"sigma2 of {what}")
            mon.close(el["nu2"][0, r, k], nu2, "elements", f"nu2 of {what}", rtol=1e-6)
            mon.close(el["psi_sigma2"][:, r, k], x["e2"] - s2, "elements", f"psi_sigma2 of {what}")
            mon.close(el["psi_nu2"][:, r, k], psi_nu2, "elements", f"psi_nu2 of {what}", rtol=1e-6)
            mon.close(el["riesz_rep"][:, r, k] ** 2, x["rr"] ** 2, "elements", f"squared Riesz representer of {what}", rtol=1e-6)
            B = np.sqrt(s2 * nu2)
            mon.close(f.sensitivity_elements["max_bias"][0, k, r], B, "elements", f"bias bound of {what}", rtol=1e-6)
            mon.close(f.sensitivity_elements["psi_max_bias"][:, k, r], (s2 * psi_nu2 + nu2 * (x["e2"] - s2)) / (2 * B), "elements", f"influence function of the bias bound of {what}", rtol=1e-6)
    N = f.var_scaling_factors.reshape(-1, 1)
    if s["cluster"]:
        ses = cluster_ses(df, roles, m)
    else:
        ses = plain_ses(len(df))
    run_analysis(mon, f, rng, ses, N, target=m if rng.random() < 0.7 else f, rvs=not s["cluster"] or rng.random() < 0.1)
    if rng.random() < 0.5 and not s["cluster"]:
        check_plot(mon, f, rng, ses, N, m if rng.random() < 0.5 else f, "")
    if spec["bench"]:
        xs = x_no_uid(roles)
        B = [str(v) for v in rng.choice(xs, size=int(rng.integers(1, len(xs))), replace=False)]
        before = {k: v.copy() for k, v in el.items()}
        tab = quiet(lambda: m.sensitivity_benchmark(benchmarking_set=B, fit_args=None if rng.random() < 0.7 else {"store_predictions": True}))
        roles2 = dict(roles, x_cols=[v for v in roles["x_cols"] if v not in B])
        m2 = zoo.build_model(s, zoo.make_data(s, df, roles2), zoo.make_learners(s, record=False), c.weights)
        if s["cluster"]:
            m2.set_sample_splitting(m.smpls, all_smpls_cluster=m.smpls_cluster)
        else:
            m2.set_sample_splitting(m.smpls)
        quiet(m2.fit)
        ref = ref_benchmark(m, m2, f64(df[roles["y_col"]]))
        mon.check(list(tab.index) == roles["d_cols"], "benchmark", f"benchmark rows {list(tab.index)}")
        for key in ref:
            mon.close(tab[key].values, ref[key], "benchmark", f"benchmark {key} of {B}", rtol=1e-6, atol=1e-8)
        for k, v in before.items():
            mon.close(m.sensitivity_elements[k], v, "benchmark-pure", f"element {k} after the benchmark", rtol=0, atol=0)
        mon.check(list(m._dml_data.x_cols) == list(c.data.x_cols), "benchmark-pure", "covariates changed by the benchmark")
        g = dml.utils.gain_statistics(m, m2)
        for key in ref:
            mon.close(g[key], ref[key], "benchmark", f"gain statistics {key}", rtol=1e-6, atol=1e-8)


def run_synth(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    n, K, R = spec["n"], spec["K"], spec["R"]
    d = fw.parts(rng, n, K, R, sens=str(rng.choice(["yes", "full"])))
    f = fw.make(d)
    expr = "single"
    if spec["expr"]:
        g = fw.make(fw.parts(rng, n, K, R, sens="yes"))
        c = float(rng.choice([-2.0, 0.5, -1.0, 3.0]))
        expr = str(rng.choice(["sum", "diff", "scale", "concat"]))
        Bf, Bg = f.sensitivity_elements["max_bias"], g.sensitivity_elements["max_bias"]
        h = {"sum": lambda: f + g, "diff": lambda: f - g, "scale": lambda: c * f, "concat": lambda: fw.concat([f, g])}[expr]()
        ref = {"sum": Bf + Bg, "diff": Bf + Bg, "scale": abs(c) * Bf, "concat": np.concatenate([Bf, Bg], axis=1)}[expr]
        mon.close(h.sensitivity_elements["max_bias"], ref, "algebra", f"bias bound of {expr}")
        f = h
    f.treatment_names = [f"par{j}" for j in range(f.n_thetas)]
    mon.sig("synth", expr, K, R, n // 40)
    ses = plain_ses(n)
    N = f.var_scaling_factors.reshape(-1, 1)
    run_analysis(mon, f, rng, ses, N)
    if rng.random() < 0.3:
        check_plot(mon, f, rng, ses, N, f, expr)


def run_apos(spec, mon):
    s = spec["s"]
    rng = np.random.default_rng(spec["seed"])
    df, roles = zoo.make_frame(s)
    L = zoo.make_learners(s, record=False)
    w = zoo.make_weights(s)
    levels = [int(v) for v in rng.permutation(s["levels"])]
    np.random.seed(s["seed"] % 2**31)
    kw = {} if w is None else dict(weights=w)
    m = dml.DoubleMLAPOS(zoo.make_data(s, df, roles), L["ml_g"], L["ml_m"], treatment_levels=levels, n_folds=s["n_folds"], n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"], **kw)
    quiet(m.fit)
    mon.sig("apos", s["levels"], s["n_rep"], s["normalize_ipw"], s["weights"])
    els = []
    for i, lv in enumerate(levels):
        sub = m.modellist[i]
        rows = [ref_sens(dict(s, level=lv), df, roles, sub, r, 0, w) for r in range(s["n_rep"])]
        if any(x["nu2"] <= 0 for x in rows):
            for x in rows:
                x["nu2"] = np.mean(x["rr"] ** 2)
                x["psi_nu2"] = x["rr"] ** 2 - x["nu2"]
        els.append(rows)
        for r, x in enumerate(rows):
            mon.close(m.framework.sensitivity_elements["max_bias"][0, i, r], np.sqrt(np.mean(x["e2"]) * x["nu2"]), "elements", f"bias bound of level {lv}, repetition {r}", rtol=1e-6)
    n = len(df)
    ses = plain_ses(n)
    f = m.framework
    run_analysis(mon, f, rng, ses, f.var_scaling_factors.reshape(-1, 1), target=m if rng.random() < 0.6 else f)
    ref_lv = int(rng.choice(levels))
    acc = m.causal_contrast(reference_levels=ref_lv if rng.random() < 0.5 else [ref_lv])
    j0 = levels.index(ref_lv)
    others = [i for i in range(len(levels)) if i != j0]
    mon.check(acc.n_thetas == len(others), "contrast", "number of contrasts")
    for q, i in enumerate(others):
        for r in range(s["n_rep"]):
            a, b = els[i][r], els[j0][r]
            s2 = (np.mean(a["e2"]) + np.mean(b["e2"])) / 2
            nu2 = a["nu2"] + b["nu2"]
            B = np.sqrt(s2 * nu2)
            ps = ((a["e2"] - np.mean(a["e2"])) + (b["e2"] - np.mean(b["e2"]))) / 2
            mon.close(acc.sensitivity_elements["max_bias"][0, q, r], B, "contrast", f"bias bound of {levels[i]} vs {ref_lv}, repetition {r}", rtol=1e-6)
            mon.close(acc.sensitivity_elements["psi_max_bias"][:, q, r], (s2 * (a["psi_nu2"] + b["psi_nu2"]) + nu2 * ps) / (2 * B), "contrast", f"influence function of the bias bound of {levels[i]} vs {ref_lv}", rtol=1e-6)
    run_analysis(mon, acc, rng, ses, acc.var_scaling_factors.reshape(-1, 1), what="contrast")
    if rng.random() < 0.4:
        check_plot(mon, f, rng, ses, f.var_scaling_factors.reshape(-1, 1), m, "apos")
    if rng.random() < 0.5:
        xs = x_no_uid(roles)
        B = [str(rng.choice(xs))]
        tab = quiet(lambda: m.sensitivity_benchmark(benchmarking_set=B))
        roles2 = dict(roles, x_cols=[v for v in roles["x_cols"] if v not in B])
        m2 = dml.DoubleMLAPOS(zoo.make_data(s, df, roles2), L["ml_g"], L["ml_m"], treatment_levels=levels, n_folds=s["n_folds"], n_rep=s["n_rep"], normalize_ipw=s["normalize_ipw"], trimming_threshold=s["trimming_threshold"], **kw)
        m2.set_sample_splitting(m.smpls)
        quiet(m2.fit)
        ref = ref_benchmark(m, m2, f64(df["y"]))
        mon.check([float(v) for v in tab.index] == [float(v) for v in levels], "benchmark", f"benchmark rows {list(tab.index)}")
        for key in ref:
            mon.close(tab[key].values, ref[key], "benchmark", f"apos benchmark {key} of {B}", rtol=1e-6, atol=1e-8)


def run(spec, mon):
    {"model": run_model, "synth": run_synth, "apos": run_apos}[spec["kind"]](spec, mon)


