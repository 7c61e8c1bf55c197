#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
CHECKS = {
 "C13": (T + "recorded rules judged by the moment equations of the specification",
         "model_checking",
         "Exhaustive over rules and sizes; moments are exact residues modulo a random prime near 2^15, so a wrong rule escapes with probability about 1/p per moment. Trusts the projection onto GF(p) and TLC."),
}
exec(open(os.path.join(here, "tools", "manifest_entries.py")).read()) if os.path.exists(os.path.join(here, "tools", "manifest_entries.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA_DEFAULT = "Not yet built in this revision; see DESIGN.md."
NA = globals().get("NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks are needed: every observation goes through the public API.", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, NA_DEFAULT)})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
