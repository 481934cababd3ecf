#!/usr/bin/env python3
"""Writes /verif/harness/inputs/jobs.json."""
import json
def J(**k):
    d = {"fn": "CheckUtility"}
    for o in ("setup", "tier"):
        if o in k:
            d[o] = k.pop(o)
    d["params"] = k
    d["covers"] = ["run"]
    return d
T = {"tier": "thorough"}
spec = {
    "property": "C03",
    "bounds": "Texts of 3 (quick) or 4 (thorough) arbitrary runes given to each of the utilities, as the head of an array with 2 more arbitrary runes; words of 4 (quick) or 6 (thorough) letters for the hyphenator, with a small dictionary.",
    "outside": "Longer texts.",
    "assumptions": [],
    "jobs": [J(kind=k, n=3) for k in (0, 1, 2, 3, 4, 5, 7)] + [J(kind=6, n=1, setup="SetupWidths"), J(kind=8, n=4, lo=65, hi=100), J(kind=8, n=5, lo=97, hi=99)] +
            [J(kind=k, n=4, **T) for k in (0, 1, 2, 3, 4, 5, 7)] + [J(kind=8, n=6, lo=97, hi=99, **T)],
}
with open("/verif/harness/inputs/jobs.json", "w") as f:
    json.dump([spec], f, indent=1)
    f.write("\n")
