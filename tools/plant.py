"""Build a seeded bug from a definition file and confirm it:  plant.py DEF.py [--no-tests]

DEF.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source run with the tree on sys.path)."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", HOME="/root", LANG="C.UTF-8")

ns = {}
exec(open(sys.argv[1]).read(), ns)
bid = ns["ID"]
work = f"/tmp/pl/{bid}"
shutil.rmtree(work, ignore_errors=True)
os.makedirs("/tmp/pl", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", work], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work, check=True)
for f, old, new in ns["EDITS"]:
    p = os.path.join(work, f)
    t = open(p).read()
    if t.count(old) != 1:
        sys.exit(f"{bid}: {f}: {t.count(old)} matches for {old[:60]!r}")
    open(p, "w").write(t.replace(old, new))
final = os.path.join(ROOT, "seeded", bid)
out = f"/tmp/pl/{bid}.seed"
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True, check=True).stdout
open(os.path.join(out, "patch.diff"), "w").write(diff)
open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(out, "demo.sh"), 0o755)
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)


def demo(cwd):
    r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=280)
    return r.returncode, (r.stdout + r.stderr)[-600:]


a, b = demo("/repo"), demo(work)
print(bid, "clean", a[0], "patched", b[0], flush=True)
if a[0] != 0 or b[0] == 0:
    print(a, b)
    shutil.rmtree(out)
    sys.exit(1)
if "--no-tests" not in sys.argv:
    x = f"/tmp/pl/{bid}.xml"
    env = dict(ENV, PYTHONPATH=f"{work}:/opt/vp/plugins", MPLCONFIGDIR="/opt/vp/mplconfig")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_pytest_plugin", "-n", "8", "--timeout=300", "--continue-on-collection-errors",
                    "--ignore=doubleml/plm/tests/test_plr_classifier.py", "-o", "junit_family=xunit2", f"--junitxml={x}", "doubleml"], cwd=work, env=env, capture_output=True)
    subprocess.run([PY, "/opt/vp/results.py", x + ".json", "junit:" + x], check=True)
    res = json.load(open(x + ".json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(res["passed"])
    bad = sorted(stable - passed)
    print(bid, "TESTS", "ok" if not bad else f"FAIL {len(bad)} e.g. {bad[:3]}", flush=True)
    if not bad:
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(out, final)
    shutil.rmtree(out)
shutil.rmtree(work, ignore_errors=True)
