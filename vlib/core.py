"""Case runner shared by all checks: generation, execution in worker processes, monitors, evidence, findings."""
import fnmatch
import gc
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

from . import env

import numpy as np  # noqa: E402

CASE_TIMEOUT = 200
MAXV = int(os.environ.get("VERIF_MAXV", "60"))
FINDINGS = os.path.join(env.VERIF, "known_findings.json")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(env.VERIF, "evidence")


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the generated case does not meet the property's preconditions (counted, never a verdict)"""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()][:50]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Mon:
    """what the monitors of one execution saw"""

    def __init__(self):
        self.viol = []
        self.counts = Counter()
        self.sigs = set()
        self.note = {}

    def count(self, key, n=1):
        self.counts[key] += int(n)

    def sig(self, *parts):
        self.sigs.add("|".join(str(p) for p in parts))

    def fail(self, mech, msg, **details):
        if len(self.viol) < 40:
            self.viol.append(dict(mech=mech, msg=str(msg)[:1500], details=jsonable(details)))

    def check(self, ok, mech, msg="", **details):
        self.counts["ev:" + mech] += 1
        if not bool(ok):
            self.fail(mech, msg, **details)
        return bool(ok)

    def close(self, got, ref, mech, msg="", rtol=1e-7, atol=1e-9, **details):
        self.counts["ev:" + mech] += 1
        try:
            g = np.asarray(got, dtype=float)
            r = np.asarray(ref, dtype=float)
        except Exception as e:  # not numeric
            self.fail(mech, f"{msg}: not numeric ({e})", got=got, ref=ref)
            return False
        if g.shape != r.shape:
            self.fail(mech, f"{msg}: shape {g.shape} instead of {r.shape}", **details)
            return False
        ok = np.isclose(g, r, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(bad[0]) if bad.size else ()
            self.fail(mech, f"{msg}: {len(bad) if g.ndim else 1} of {g.size} values differ; first at {i}: got {g[i]!r} expected {r[i]!r}",
                      **details)
            return False
        return True

    def raises(self, fn, mech, msg="", exc=Exception):
        """fn must refuse; returns the exception"""
        self.counts["ev:" + mech] += 1
        try:
            fn()
        except exc as e:
            return e
        except Exception as e:  # wrong type counts as refused with the wrong error
            self.fail(mech, f"{msg}: raised {type(e).__name__} ({e}) instead of {exc}")
            return e
        self.fail(mech, f"{msg}: accepted")
        return None


def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def _alarm(signum, frame):
    raise CaseTimeout()


_MOD = {}
_frozen = [False]


def run_one(prop, spec):
    from . import spy

    mod = _MOD.get(prop) or _MOD.setdefault(prop, load_check(prop))
    if not _frozen[0]:  # statsmodels calls gc.collect() often; keep the imported modules out of its way
        gc.collect()
        gc.freeze()
        _frozen[0] = True
    spy.TRACE.clear()
    spy.FAULTS.reset()
    seed = zlib.crc32(json.dumps(jsonable(spec), sort_keys=True).encode()) % (2**31)
    np.random.seed(seed)
    mon = Mon()
    t0 = time.time()
    skipped = None
    hung = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(spec, mon)
    except Skip as e:
        skipped = str(e)
    except CaseTimeout:
        hung = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(env.REPO)]
        site = f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else "outside"
        mon.fail(f"exception:{type(e).__name__}:{site}", f"{e}\n" + "".join(traceback.format_exception(e))[-1800:])
    finally:
        signal.alarm(0)
    spy.TRACE.clear()
    return dict(spec=jsonable(spec), viol=mon.viol, counts=dict(mon.counts), sigs=sorted(mon.sigs), note=jsonable(mon.note),
                skipped=skipped, hung=hung, t=time.time() - t0)


def load_findings(prop):
    try:
        with open(FINDINGS) as f:
            rows = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [r for r in rows if r.get("property") == prop and r.get("status") == "known"]


def matches(finding, v):
    return fnmatch.fnmatchcase(v["mech"], finding["mechanism"])


def main(prop, tier, seed, replay=None, n_override=None, jobs=None, budget=None):
    t0 = time.time()
    mod = _MOD.setdefault(prop, load_check(prop))
    findings = load_findings(prop)
    results, skips = [], 0
    broken = None
    if replay:
        with open(replay) as f:
            specs = [json.load(f)["spec"]]
        for s in specs:
            results.append(run_one(prop, s))
        tot_planned = len(specs)
    else:
        rng = np.random.default_rng([seed, zlib.crc32(prop.encode())])
        n = n_override or (mod.N_QUICK if tier == "quick" else getattr(mod, "N_THOROUGH", 10**9))
        budget = budget or (getattr(mod, "QUICK_BUDGET", 420) if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 600))
        jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
        gen = mod.gen(rng, tier)
        pinned = list(mod.pinned()) if hasattr(mod, "pinned") else []

        def stream():
            for s in pinned:
                yield s
            k = 0
            for s in gen:
                if k >= n:
                    return
                k += 1
                yield s

        it = stream()
        tot_planned = n + len(pinned)
        nviol = 0
        # warm the imports once before forking
        try:
            with ProcessPoolExecutor(max_workers=jobs) as ex:
                pend = set()
                exhausted = False
                while True:
                    while not exhausted and len(pend) < 3 * jobs and time.time() - t0 < budget and nviol < MAXV:
                        try:
                            s = next(it)
                        except StopIteration:
                            exhausted = True
                            break
                        pend.add(ex.submit(run_one, prop, s))
                    if not pend:
                        break
                    done, pend = wait(pend, return_when=FIRST_COMPLETED)
                    for d in done:
                        r = d.result()
                        results.append(r)
                        nviol += sum(1 for v in r["viol"] if not any(matches(f, v) for f in findings))
                    if not pend and (exhausted or time.time() - t0 >= budget or nviol >= 60):
                        break
        except BrokenProcessPool as e:
            broken = f"a worker process died: {e}"
    skips = sum(1 for r in results if r["skipped"])
    counts = Counter()
    sigs = set()
    for r in results:
        counts.update(r["counts"])
        sigs.update(r["sigs"])
    # verdicts
    new, known = {}, {}
    for r in results:
        for v in r["viol"]:
            hit = [f for f in findings if matches(f, v)]
            if hit:
                known.setdefault(hit[0]["id"], (hit[0], r, v))
            else:
                new.setdefault(v["mech"], []).append((r, v))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for k, (f, r, v) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    lines = []
    if not replay:
        for old in os.listdir(os.path.join(EVID, "replay")):
            if old.startswith(prop + "-"):
                os.unlink(os.path.join(EVID, "replay", old))
    for mech, rows in sorted(new.items(), key=lambda kv: -len(kv[1]))[:12]:
        r, v = min(rows, key=lambda rv: len(json.dumps(rv[0]["spec"])))
        h = hashlib.sha1((mech + json.dumps(r["spec"], sort_keys=True)).encode()).hexdigest()[:10]
        path = replay or os.path.join(EVID, "replay", f"{prop}-{h}.json")
        if not replay:
            with open(path, "w") as f:
                json.dump(dict(property=prop, mech=mech, msg=v["msg"], details=v["details"], spec=r["spec"], occurrences=len(rows)), f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"  [{mech}] x{len(rows)}: {v['msg'][:600]}")
    for ln in lines:
        print(ln)
    ok_results = [r for r in results if not r["skipped"]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(ok_results), distinct_nontrivial=len(sigs), rule=mod.RULE,
            samples=[dict(case=r["spec"], seen=r["counts"], note=r["note"]) for r in ok_results[:3]],
            monitor_events={k[3:]: v for k, v in sorted(counts.items()) if k.startswith("ev:")},
            observed={k: v for k, v in sorted(counts.items()) if not k.startswith("ev:")},
            skipped_preconditions=skips, planned=tot_planned if tot_planned < 10**8 else "time-bounded",
            slowest_case_s=round(max([r["t"] for r in results], default=0), 2),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for v in new.values()),
        known_findings_seen=sorted(known),
    )
    if not replay:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier} seed={seed}: {len(ok_results)} cases ({skips} skipped), {len(sigs)} distinct, "
          f"{sum(v for k, v in counts.items() if k.startswith('ev:'))} monitor events, {len(new)} violation kinds, {time.time()-t0:.1f}s")
    if new:
        return 1
    if replay:
        return 0
    hung = [r["spec"] for r in results if r["hung"]]
    if hung:
        broken = f"{len(hung)} cases did not finish within {CASE_TIMEOUT} s, e.g. {json.dumps(hung[0])[:500]}"
    if broken:
        print("INCONCLUSIVE:", broken)
        return 2
    if not n_override:
        floors = getattr(mod, "FLOORS", {})
        short = {k: (counts.get(k, 0), v) for k, v in floors.items() if counts.get(k, 0) < v}
        if short or skips > 0.5 * max(1, len(results)):
            print("INCONCLUSIVE: monitors saw too little:", short, "skips", skips)
            return 2
    return 0
