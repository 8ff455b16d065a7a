"""Assembles DESIGN.md:  python3 tools/design.py  (head + per-property notes + workload rules of the checks + findings + seeded bugs)"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(ROOT, *p)).read()  # noqa: E731
NOTES = {}
exec(rd("design", "notes.py"), NOTES)
NOTES = NOTES["NOTES"]


def consts(cid):
    out = {}
    for node in ast.parse(rd("checks", cid.lower() + ".py")).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("RULE", "N_QUICK", "FLOORS", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


txt = rd("design", "head.md").rstrip() + "\n\n## Properties\n"
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line)
    i = p["id"]
    c = consts(i)
    txt += f"\n### {i} {p['title']}\n"
    txt += f"* **Workload** ({c['N_QUICK']} seeded cases in the quick tier): {c['RULE']}.\n"
    for k, v in NOTES[i]:
        txt += f"* **{k}**: {v}\n"
    if c.get("FLOORS"):
        txt += "* **Floors** (fewer events: exit 2, inconclusive): " + ", ".join(f"{k.replace('ev:', '')} {v}" for k, v in c["FLOORS"].items()) + ".\n"
    if c.get("ASSUMPTIONS"):
        txt += "* **Assumes**: " + "; ".join(c["ASSUMPTIONS"]) + ".\n"
txt += "\n" + rd("design", "tail.md").rstrip() + "\n"
txt += "\n## Repaired defects (one `fix:` commit each)\n"
kf = json.loads(rd("known_findings.json"))["findings"]
for f in kf:
    if f["status"] == "fixed":
        txt += "* " + f["line"] + "\n"
txt += "\n## Known findings (reported as KNOWN-FINDING, exit 0)\n"
for f in kf:
    if f["status"] != "fixed":
        txt += f"* {f['property']} `{f['mechanism']}`: {f.get('what', '')}\n"
txt += "\n## Planted bugs (`seeded/`) and the checks that report them\n\n| bug | property | needs | reported by |\n|---|---|---|---|\n"
caught = json.loads(rd("design", "caught.json"))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    txt += f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(txt)
