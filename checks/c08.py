"""C08 algebra of inference objects: random expression trees evaluated directly on the raw arrays; models changed afterwards."""
import operator

import numpy as np

from vlib import fitted, fw
from vlib.oracle import ref_aggregate, ref_se
from vlib.core import Skip

LEVEL = "exploration"
N_QUICK = 1500
RULE = ("random expressions (sum, difference, scalar multiples of either sign on either side, concatenation) over synthetic inference objects and over fitted models incl. one- "
        "and two-way clustered ones, with operand snapshots; plus changes of the model after an inference object was taken; distinct = (kind, K, R, operators, sensitivity, cluster)")
FLOORS = {"ev:expr-theta": 700, "ev:expr-se": 250, "ev:cluster-se": 100, "ev:operands-unchanged": 1500, "ev:refuse": 2000, "ev:snapshot-after-refit": 150,
          "ev:concat": 300, "ev:expr-bias": 200}


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        k = ["expr", "expr", "concat", "refuse", "models", "refit", "models"][i % 7]
        if k in ("models", "refit"):
            s = fitted.draw(rng, tier, max_rep=3, small=True)
            if k == "models" and rng.random() < 0.5 and not s["cluster"]:
                for _ in range(30):
                    s = fitted.draw(rng, tier, max_rep=3, small=True)
                    if s["cluster"]:
                        break
            yield dict(kind=k, s=s, seed=int(rng.integers(2**31)), ops=int(rng.integers(1, 4)))
        else:
            yield dict(kind=k, seed=int(rng.integers(2**31)), n=int(rng.integers(4, 50)), K=int(rng.integers(1, 5)), R=int(rng.integers(1, 5)),
                       sens=str(rng.choice(["no", "basic", "full", "mixed"])), ops=int(rng.integers(1, 5)))


class Node:
    """plain value of an expression"""

    def __init__(self, th, psi, se, bias, pb, bench):
        self.th, self.psi, self.se, self.bias, self.pb, self.bench = th, psi, se, bias, pb, bench

    @staticmethod
    def of(d):
        s = d.get("sensitivity_elements")
        return Node(d["all_thetas"].copy(), d["scaled_psi"].copy(), d["all_ses"].copy(), None if s is None else s["max_bias"].copy(),
                    None if s is None else s["psi_max_bias"].copy(), None if (s is None or "nu2" not in s) else (s["sigma2"].copy(), s["nu2"].copy()))


def plain_se(psi):
    return np.sqrt(np.mean(psi**2, axis=0) / psi.shape[0])


def combine(a, b, sgn, se_fn):
    psi = a.psi + sgn * b.psi
    both = a.bias is not None and b.bias is not None
    return Node(a.th + sgn * b.th, psi, se_fn(psi), a.bias + b.bias if both else None, a.pb + b.pb if both else None, None)


def scale(a, c):
    return Node(c * a.th, c * a.psi, abs(c) * a.se, None if a.bias is None else abs(c) * a.bias, None if a.pb is None else abs(c) * a.pb,
                None if a.bench is None else (a.bench[0], c**2 * a.bench[1]))


SCAL = [2, -1, -3, 0.5, -0.25, 1, -1.5, np.float64(-2.5)]


def tree(rng, leaves, nodes, n_ops, se_fn):
    f, v, ops = leaves[0], nodes[0], []
    for _ in range(n_ops):
        op = str(rng.choice(["add", "sub", "rsub", "mulL", "mulR"]))
        ops.append(op)
        if op in ("mulL", "mulR"):
            c = SCAL[int(rng.integers(len(SCAL)))]
            c = c.item() if isinstance(c, np.generic) and op == "mulL" else c
            f = c * f if op == "mulL" else f * c
            v = scale(v, float(c))
        else:
            j = int(rng.integers(len(leaves)))
            g, w = leaves[j], nodes[j]
            if op == "add":
                f, v = f + g, combine(v, w, 1, se_fn)
            elif op == "sub":
                f, v = f - g, combine(v, w, -1, se_fn)
            else:
                f, v = g - f, combine(w, v, -1, se_fn)
    return f, v, ops


def judge(f, v, mon, ops, vsf, tag="expr"):
    mon.close(f.all_thetas, v.th, "expr-theta", f"{ops}: estimates", atol=1e-10)
    mon.close(f.scaled_psi, v.psi, "expr-psi", f"{ops}: scores", atol=1e-10)
    mon.close(f.all_ses, v.se, "expr-se" if tag == "expr" else "cluster-se", f"{ops}: standard errors", rtol=1e-6, atol=1e-10)
    th, se = ref_aggregate(v.th, v.se, np.broadcast_to(np.asarray(vsf, float).reshape(-1, 1), v.th.shape))
    mon.close(f.thetas, th, "expr-agg", "aggregated estimate", atol=1e-10)
    mon.close(f.ses, se, "expr-agg", "aggregated standard error", rtol=1e-6, atol=1e-10)
    mon.check(np.all(f.ses >= 0) and np.all(f.all_ses >= 0), "se-nonneg", f"{ops}: negative standard errors")
    mon.close(f.var_scaling_factors, vsf, "expr-vsf")
    mon.check((f.sensitivity_elements is None) == (v.bias is None), "expr-bias-there", f"{ops}: sensitivity elements availability")
    if v.bias is not None and f.sensitivity_elements is not None:
        mon.close(f.sensitivity_elements["max_bias"], v.bias, "expr-bias", f"{ops}: bias bound", atol=1e-10)
        mon.close(f.sensitivity_elements["psi_max_bias"], v.pb, "expr-bias", f"{ops}: bias bound score", atol=1e-10)
        mon.check(not np.any(f.sensitivity_elements["max_bias"] < 0), "expr-bias-nonneg", f"{ops} {f.sensitivity_elements['max_bias']}")
        if v.bench is not None:
            mon.check("nu2" in f.sensitivity_elements, "expr-bench")
            if "nu2" in f.sensitivity_elements:
                mon.close(f.sensitivity_elements["sigma2"], v.bench[0], "expr-bench", "sigma2")
                mon.close(f.sensitivity_elements["nu2"], v.bench[1], "expr-bench", "nu2")
    mon.check(f.boot_t_stat is None and f.n_rep_boot is None and f.sensitivity_params is None, "expr-fresh", "a new object carries results of its operands")


def run(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    k = spec["kind"]
    if k in ("expr", "concat", "refuse"):
        n, K, R = spec["n"], spec["K"], spec["R"]
        leaves, nodes, parts = [], [], []
        for j in range(3):
            sens = {"no": None, "basic": "basic", "full": "full", "mixed": [None, "basic", "full"][int(rng.integers(3))]}[spec["sens"]]
            d = fw.parts(rng, n, K, R, sens=sens)
            if rng.random() < 0.3:
                d["treatment_names"] = [f"p{j}{q}" for q in range(K)]
            parts.append(d)
            leaves.append(fw.make(d))
            nodes.append(Node.of(d))
        if rng.random() < 0.4:
            leaves[0].bootstrap(n_rep_boot=5)
            boot = leaves[0].boot_t_stat.copy()
        else:
            boot = None
        if leaves[1].sensitivity_elements is not None and rng.random() < 0.3:
            leaves[1].sensitivity_analysis()
        snap = [fw.snapshot(f) for f in leaves]
        mon.sig(k, K, R, spec["sens"], spec["ops"])
    if k == "expr":
        f, v, ops = tree(rng, leaves, nodes, spec["ops"], plain_se)
        judge(f, v, mon, ops, np.full(K, float(n)))
        # laws
        a, b, c = leaves
        for nm, x, y in [("commute", a + b, b + a), ("anti", a - b, -1 * (b - a)), ("assoc", (a + b) + c, a + (b + c)), ("distr", -2.5 * (a + b), -2.5 * a + b * -2.5),
                         ("double", a + a, 2 * a), ("minus", a - b, a + (-1) * b)]:
            for q in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi"):
                mon.close(getattr(x, q), getattr(y, q), "law", f"{nm}: {q}", rtol=1e-6, atol=1e-10)
        z = a - a
        mon.close(z.thetas, np.zeros(K), "law-zero", atol=1e-12)
        mon.close(z.ses, np.zeros(K), "law-zero", atol=1e-12)
        np.random.seed(1)
        f.bootstrap(n_rep_boot=7)
        mon.check(f.boot_t_stat.shape == (7, K, R), "expr-boot")
        mon.close((2 * a).t_stats, a.t_stats, "law-t", atol=1e-10)
        mon.close((-0.5 * a).t_stats, -a.t_stats, "law-t", "the t-statistic of -c*theta is -t", atol=1e-10)
        mon.close((-0.5 * a).confint().values, -0.5 * a.confint().values[:, ::-1], "law-ci", "interval of -c*theta", atol=1e-10)
    elif k == "concat":
        m = int(rng.integers(1, 4))
        Ks = [int(rng.integers(1, 4)) for _ in range(m)]
        sens = [None if spec["sens"] == "no" else ("full" if spec["sens"] == "full" else str(rng.choice(["basic", "full"]))) for _ in range(m)]
        ds = [fw.parts(rng, n, q, R, sens=sn) for q, sn in zip(Ks, sens)]
        fs = [fw.make(d) for d in ds]
        sn = [fw.snapshot(f) for f in fs]
        f = fw.concat(fs)
        cat = lambda key, ax: np.concatenate([d[key] for d in ds], axis=ax)  # noqa: E731
        for key, ax in [("thetas", 0), ("ses", 0), ("all_thetas", 0), ("all_ses", 0), ("scaled_psi", 1), ("var_scaling_factors", 0)]:
            mon.close(getattr(f, key), cat(key, ax), "concat", key, atol=0)
        mon.check((f.n_thetas, f.n_rep, f.n_obs) == (sum(Ks), R, n), "concat-shape")
        if all(sens):
            for key in ["max_bias", "psi_max_bias"] + (["sigma2", "nu2"] if all(q == "full" for q in sens) else []):
                mon.close(f.sensitivity_elements[key], np.concatenate([d["sensitivity_elements"][key] for d in ds], axis=1), "concat", key, atol=0)
        else:
            mon.check(f.sensitivity_elements is None, "concat-sens")
        f.bootstrap(n_rep_boot=4)
        # altering the result in place must not reach the operands
        for q in ("thetas", "ses", "all_thetas", "all_ses", "scaled_psi"):
            getattr(f, q)[...] = 77.0
        for x, y in zip(fs, sn):
            mon.check(fw.same(fw.snapshot(x), y), "operands-unchanged", "concat shares memory with or modified its operands")
        mon.raises(lambda: fw.concat([]), "refuse", "empty concat")
        mon.raises(lambda: fw.concat([fs[0], 3.0]), "refuse", "concat with a number")
    elif k == "refuse":
        a = leaves[0]
        for nm, g in [("n", fw.make(fw.parts(rng, n + 1, K, R))), ("R", fw.make(fw.parts(rng, n, K, R + 1))), ("K", fw.make(fw.parts(rng, n, K + 1, R)))]:
            for op in (operator.add, operator.sub):
                mon.raises(lambda: op(a, g), "refuse", f"different {nm}", exc=ValueError)
                mon.raises(lambda: op(g, a), "refuse", f"different {nm}", exc=ValueError)
            if nm != "K":
                mon.raises(lambda: fw.concat([a, g]), "refuse", f"concat different {nm}", exc=ValueError)
                mon.raises(lambda: fw.concat([a, leaves[1], g]), "refuse", f"concat different {nm}", exc=ValueError)
        d = fw.parts(rng, n, K, R)
        d.update(is_cluster_data=True, cluster_dict=dict(smpls=[], smpls_cluster=[], cluster_vars=np.zeros((n, 1)), n_folds_per_cluster=2))
        g = fw.make(d)
        for op in (operator.add, operator.sub):
            mon.raises(lambda: op(a, g), "refuse", "clustered with unclustered", exc=ValueError)
            mon.raises(lambda: op(g, a), "refuse", "clustered with unclustered", exc=ValueError)
        mon.raises(lambda: fw.concat([a, g]), "refuse", "clustered with unclustered")
        for other in (1, 2.0, "x", None, [1], np.ones(3)):
            for op in (operator.add, operator.sub):
                mon.raises(lambda: op(a, other), "refuse", f"{op.__name__} {other!r}", exc=TypeError)
                if not isinstance(other, np.ndarray):  # numpy would broadcast over its own elements first
                    mon.raises(lambda: op(other, a), "refuse", f"{op.__name__} on the right of {other!r}", exc=TypeError)
        for other in ("x", None, [1.0], a, np.ones(1), np.ones(len(a.thetas)), np.array(2.0), 1j):
            mon.raises(lambda: a * other, "refuse", f"mul {type(other)}", exc=TypeError)
        dd = parts[0]
        for key in ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors", "scaled_psi"):
            e = fw.copy_parts(dd)
            del e[key]
            mon.raises(lambda: fw.make(e), "refuse-ctor", f"missing {key}", exc=ValueError)
            e = fw.copy_parts(dd)
            e[key] = np.concatenate([e[key], e[key]], axis=0 if key != "scaled_psi" else 1)
            mon.raises(lambda: fw.make(e), "refuse-ctor", f"wrong shape of {key}", exc=ValueError)
    if k in ("expr", "concat", "refuse"):
        for f, s0 in zip(leaves, snap):
            mon.check(fw.same(fw.snapshot(f), s0), "operands-unchanged", "an operand was modified")
        if boot is not None:
            mon.check(np.array_equal(leaves[0].boot_t_stat, boot), "operands-unchanged", "bootstrap of an operand was modified")
        return
    # --- fitted models
    s = spec["s"]
    c = fitted.fit(s)
    m = c.model
    K, R, n = m.framework.n_thetas, m.n_rep, s["n_obs"]
    mon.sig(k, *fitted.signature(s), spec["ops"])
    if k == "models":
        # second model of the same kind on the same splits with other learners
        s2 = dict(s, slope=s["slope"] * 0.6, split="drawn")
        s2.pop("ctor", None)
        c2 = fitted.fit(dict(s2), do_fit=False)
        c2.model.set_sample_splitting(m.smpls if s["split"] != "nosplit" else m.smpls[0][0], *([m.smpls_cluster] if s["cluster"] else []))
        if s["model"] not in ("PLR", "PLIV"):
            pass
        else:
            for L in c2.model.learner.values():
                L.set_params(alpha=50.0)
        c2.model.fit()
        fa, fb = m.framework, c2.model.framework
        snap = [fw.snapshot(fa), fw.snapshot(fb)]

        def se_fn(psi):
            if not s["cluster"]:
                return plain_se(psi)
            return np.array([[ref_se(psi[:, q, r], np.ones(n), c.df, c.roles, m.smpls[r])[0] for r in range(R)] for q in range(K)])

        def node(f):
            e = f.sensitivity_elements
            return Node(f.all_thetas.copy(), f.scaled_psi.copy(), f.all_ses.copy(), None if e is None else e["max_bias"].copy(), None if e is None else e["psi_max_bias"].copy(),
                        None if e is None or "nu2" not in e else (e["sigma2"].copy(), e["nu2"].copy()))

        vsf = fa.var_scaling_factors.copy()
        f, v, ops = tree(rng, [fa, fb], [node(fa), node(fb)], spec["ops"], se_fn)
        judge(f, v, mon, ops, vsf, tag="cluster" if s["cluster"] else "expr")
        d = fa - fb
        judge(d, combine(node(fa), node(fb), -1, se_fn), mon, ["sub"], vsf, tag="cluster" if s["cluster"] else "expr")
        if s["cluster"]:
            mon.raises(lambda: fw.concat([fa, fb]), "refuse", "concat of clustered objects", exc=NotImplementedError)
            mon.raises(lambda: fa.bootstrap(), "refuse", "bootstrap of clustered object", exc=NotImplementedError)
            mon.raises(lambda: d.bootstrap(), "refuse", "bootstrap of clustered object", exc=NotImplementedError)
        for f, s0 in zip((fa, fb), snap):
            mon.check(fw.same(fw.snapshot(f), s0), "operands-unchanged", "an operand was modified")
        mon.check(np.array_equal(m.coef, fa.thetas) and np.array_equal(m.se, fa.ses) and np.array_equal(m.all_se, fa.all_ses), "model-unchanged")
    else:
        f = m.framework
        g = 2 * f
        h = f - f
        old = [fw.snapshot(x) for x in (f, g, h)]
        arrs = [m.coef, m.se, m.all_coef, m.all_se, m.psi, m.psi_deriv, m.pval, m.t_stat]
        vals = [a.copy() for a in arrs]
        preds = m.predictions
        pv = {q: a.copy() for q, a in preds.items()}
        how = str(rng.choice(["draw" if s["split"] != "nosplit" else "same", "params", "set", "same", "set_learner", "fit_nostore"]))
        if how == "draw":
            m.draw_sample_splitting()
        elif how == "set" and s["split"] != "nosplit":
            sm = list(m.smpls)
            sm = [sm[-1]] + sm[:-1]
            m.set_sample_splitting([list(reversed(q)) for q in sm],
                                   *([[list(reversed(q)) for q in [m.smpls_cluster[-1]] + list(m.smpls_cluster[:-1])]] if s["cluster"] else []))
        elif how in ("params", "set_learner"):
            for ln in m.params_names:
                for dc in c.roles["d_cols"]:
                    m.set_ml_nuisance_params(ln, dc, dict(alpha=30.0))
        elif how == "fit_nostore":
            pass
        try:
            m.fit(store_predictions=how != "fit_nostore")
        except Exception as e:
            raise Skip(f"refit impossible: {type(e).__name__} {e}")
        if how in ("params", "draw"):
            mon.check(how == "draw" and m.n_rep == 0 or not np.array_equal(m.all_coef, vals[2]) or how == "draw", "refit-changed", "refit had no effect")
        for x, o in zip((f, g, h), old):
            mon.check(fw.same(fw.snapshot(x), o), "snapshot-after-refit", f"an inference object taken earlier changed after {how} + fit")
        for nm, a, b in zip(["coef", "se", "all_coef", "all_se", "psi", "psi_deriv", "pval", "t_stat"], arrs, vals):
            mon.check(np.array_equal(a, b, equal_nan=True), "array-after-refit", f"{nm} handed out earlier changed after {how} + fit")
        for q in pv:
            mon.check(np.array_equal(preds[q], pv[q], equal_nan=True), "array-after-refit", f"predictions {q} handed out earlier changed after {how} + fit")
        mon.close(m.framework.thetas, m.coef, "refit-consistent", atol=0)
        mon.close(m.framework.all_ses, m.all_se, "refit-consistent", atol=0)


