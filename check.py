#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--n N] [--seed S]"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--n", type=int)
ap.add_argument("--jobs", type=int)
ap.add_argument("--budget", type=float)
a = ap.parse_args()
sys.exit(core.main(a.prop.upper(), a.tier, a.seed, a.replay, a.n, a.jobs, a.budget))
