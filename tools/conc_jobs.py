#!/usr/bin/env python3
"""Writes /verif/harness/conc/jobs.json."""
import json
def J(fn, **k):
    d = {"fn": fn, "race": True}
    for o in ("setup", "tier", "steps"):
        if o in k:
            d[o] = k.pop(o)
    d["params"] = k
    d["covers"] = ["run"]
    return d
T = {"tier": "thorough"}
spec = {
    "property": "C26", "lia": True,
    "bounds": "Two callers (three for making hyphenators) with every order of their synchronisations. Making a hyphenator for one of 3 languages, loaded before or not, and breaking a word of 3 letters among 4; "
              "sharing a hyphenator on words of 4 letters, the same or not; the word breakers, the escape sequence parser, the tokenizer and the splitters on the same text of 3 or 4 runes (thorough: 5); "
              "the width of the same rune, at the first use and later; two line breakers with arbitrary widths up to 3 and maximums up to 6; two states and writers. The dictionaries are small ones.",
    "outside": "More callers; options other than the language; a line breaker, a state, a reader or a writer shared by callers, which are not made for it; the memory model within a data race.",
    "assumptions": ["A caller is preempted only before it synchronises: this is enough as long as there is no data race, and data races are looked for on each of these runs.",
                    "A counterexample counts when the race detector of Go or the assertion confirms it on the compiled code."],
    "jobs": [
        J("CheckNew", callers=2, letters=1, langs=2), J("CheckNew", callers=3, letters=0, langs=3),
        J("CheckNew", callers=3, letters=1, langs=2, **T),
        J("CheckShared", letters=3), J("CheckShared", letters=4, **T),
        J("CheckWords", kind=0, n=1), J("CheckWords", kind=0, n=3, hi=126), J("CheckWords", kind=1, n=3),
        J("CheckWords", kind=2, n=4), J("CheckWords", kind=3, n=3),
        J("CheckWords", kind=0, n=2, **T), J("CheckWords", kind=1, n=4, **T), J("CheckWords", kind=2, n=6, **T), J("CheckWords", kind=3, n=4, **T),
        J("CheckWidths", n=1, setup="SetupWidths"), J("CheckWidths", n=1, first=1, steps=4000000000),
        J("CheckLines"), J("CheckLines", wmax=5, maxw=14, **T), J("CheckStates"),
    ],
}
with open("/verif/harness/conc/jobs.json", "w") as f:
    json.dump([spec], f, indent=1)
    f.write("\n")
