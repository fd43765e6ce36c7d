#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real templates (symbolic scalar type) + z3"
P = []
def prop(pid, title, statement, over, q, why, files, mech, note, technique=TECH, level="other", claimed=True, reason=""):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": q}, why_tests_cant=why,
      anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, _note=note, _tech=technique, _level=level, _claimed=claimed, _reason=reason))
exec(open(os.path.join(R, "tools", "table.py")).read())
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks instantiate the unmodified headers with a symbolic scalar type", "source_commits": []}}
for p in P:
    if p["_claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3-vt checks/%s.py --tier quick" % p["id"], "thorough_cmd": "python3-vt checks/%s.py --tier thorough" % p["id"],
          "technique": p["_tech"], "level": p["_level"], "level_note": p["_note"]})
    else: m["not_applicable"].append({"property": p["id"], "reason": p["_reason"]})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
