#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (props_table.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_table import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")

checks = []
for p in PROPS:
    if p["id"] in [n["property"] for n in NOT_APPLICABLE]:
        continue
    if not os.path.exists(os.path.join(HERE, "mc", "checks", p["id"] + ".py")):
        continue
    checks.append(dict(property=p["id"],
                       quick_cmd=f"python3 run.py {p['id']} --tier quick",
                       thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique=p["technique"], level="model_checking", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 setup_check.py",
               hooks=dict(guard="QETMC_NONE", enable="none: the checks import /repo as it is, no hooks were added", source_commits=[]),
               checks=checks, not_applicable=NOT_APPLICABLE, notes=NOTES),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")

# ---- DESIGN.md: hand-written head and tail around the per-property facts taken from the check modules
import importlib  # noqa: E402
import glob  # noqa: E402


def consts(pid):
    import ast
    t = ast.parse(open(os.path.join(HERE, "mc", "checks", pid + ".py")).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


out = [open(os.path.join(HERE, "design_head.md")).read(), "## Properties and how each is decided\n"]
for p in PROPS:
    d = consts(p["id"])
    out.append(f"### {p['id']} {p['title']}\n\n*Specified:* {p['statement']}\n\n*Method:* {p['technique']}. {d['RULE']}.\n\n*Bounds:* {d['BOUNDS']}.\n\n"
               f"*Assumptions:* {'; '.join(d['ASSUMPTIONS']) or 'none'}.\n\n*Why tests cannot settle it:* {p['why']}\n\n*Limits:* {p['note']}\n")
out.append(open(os.path.join(HERE, "design_tail.md")).read())
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    name = os.path.basename(os.path.dirname(m))
    out.append(f"* `{name}` ({j['property']}) – {j['what_it_breaks']} Needs: {j['needs']} {j.get('caught', '')}\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
