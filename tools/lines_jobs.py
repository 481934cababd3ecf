#!/usr/bin/env python3
"""Writes /verif/harness/lines/jobs.json: many jobs with small bounds each."""
import json

def P(**k):
    return k

# kinds of tokens: 0 word, 1 word with a hyphenation point, 2 word and mark, 3 word with a hyphen,
# 4 word with two hyphenation points, 5 mark and word, 6 all of it, 7 empty
base = [
    P(n=1, kinds=8, wmax=9, maxw=30),
    P(n=2, kinds=4, wmax=4, maxw=12),
    P(n=2, kind0=4, kind1=0, wmax=4, maxw=10),
    P(n=2, kind0=5, kind1=1, wmax=4, maxw=12),
    P(n=2, kind0=6, kind1=0, wmax=4, maxw=12),
    P(n=2, kind0=0, kind1=6, wmax=3, maxw=10),
    P(n=3, kind0=0, kind1=7, kind2=1, wmax=4, maxw=12),
    P(n=4, kinds=1, wmax=3, maxw=9),
    P(n=5, kinds=1, wmin=1, wmax=2, maxw=9),
    P(n=6, kinds=1, wmin=1, wmax=2, maxw=9),
    P(n=3, kinds=1, wmax=60, maxw=70),
    P(n=2, kind0=0, kind1=1, wmax=60, maxw=70),
    P(n=2, kind0=1, kind1=0, wmax=60, maxw=70),
    P(n=2, kinds=2, wmax=5, maxw=12, dash=0),
    P(n=2, kinds=2, wmax=5, maxw=12, hmin=0, hmax=3),
    P(n=2, kind0=2, kind1=2, wmax=4, maxw=12, mmin=0, mmax=3),
    P(n=2, kind0=3, kind1=2, wmax=4, maxw=12, hmin=0, hmax=2),
]
opts = [
    P(n=2, kinds=4, wmax=3, maxw=9, whole=1),
    P(n=2, kind0=3, kind1=2, wmax=4, maxw=12, mute=1),
    P(n=2, kinds=3, wmax=3, maxw=9, whole=1, mute=1),
]
base += opts
units = [
    P(n=2, kind0=1, kind1=0, wmax=3, maxw=9, unit=2, scale=10),
    P(n=2, kind0=2, kind1=1, wmax=3, maxw=9, unit=2, scale=10, frac=30),
    P(n=2, kinds=2, wmax=4, maxw=12, frac=60),
    P(n=3, kinds=1, wmax=3, maxw=12, scale=3, frac=50),
    P(n=2, kinds=2, wmax=3, maxw=12, smin=1, smax=3),
    P(n=3, kinds=1, wmax=4, maxw=14, smin=2, smax=2),
]
base += units
# stretches of one cell: all the classes of fitness in a few cells
loose = [
    P(n=3, kinds=1, wmin=1, wmax=4, minw=3, maxw=7, scale=6),
    P(n=4, kinds=1, wmin=1, wmax=3, minw=3, maxw=6, scale=6),
    P(n=5, kinds=1, wmin=1, wmax=3, minw=3, maxw=7, scale=6),
    P(n=2, kind0=6, kind1=6, wmin=1, wmax=2, minw=3, maxw=6, scale=6),
    P(n=3, kind0=4, kind1=2, kind2=4, wmin=1, wmax=2, minw=3, maxw=6, scale=6),
    P(n=3, kind0=3, kind1=1, kind2=2, wmin=1, wmax=2, minw=3, maxw=6, scale=6),
    P(n=4, kinds=1, wmin=0, wmax=8, minw=3, maxw=16, scale=3),
]
looser = [
    P(n=6, kinds=1, wmin=1, wmax=3, minw=4, maxw=6, scale=6),
    P(n=5, kinds=1, wmin=1, wmax=4, minw=4, maxw=8, scale=6),
    P(n=3, kinds=4, wmin=1, wmax=2, minw=3, maxw=6, scale=6),
    P(n=4, kinds=2, wmin=1, wmax=2, minw=3, maxw=6, scale=6),
    P(n=7, kinds=1, wmin=1, wmax=2, minw=3, maxw=5, scale=6),
]
# long paragraphs of fixed widths, but for the maximum and the width of one box
longer = [
    P(n=20, mix=1, lo=3, hi=4, wmax=6, minw=6, maxw=30, enum=1),
    P(n=24, mix=3, lo=20, hi=21, wmax=6, minw=3, maxw=12, scale=6, enum=1),
    P(n=40, mix=1, lo=30, hi=31, wmax=6, minw=30, maxw=80, enum=1),
    P(n=30, kinds=1, lo=3, hi=4, wmax=6, minw=6, maxw=60, enum=1),
    P(n=20, mix=2, lo=9, hi=10, wmax=6, minw=8, maxw=30, dash=0, enum=1),
]
longest = [
    P(n=60, mix=4, lo=30, hi=31, wmax=6, minw=10, maxw=120, enum=1),
    P(n=100, mix=5, lo=70, hi=71, wmax=3, minw=60, maxw=90, enum=1),
    P(n=24, mix=3, lo=10, hi=12, wmax=4, minw=5, maxw=40, enum=1),
]
pens = [P(n=2, kind0=1, kind1=1, wmax=4, maxw=12, hp=h) for h in (0, 40, 1000)] + [P(n=2, kind0=4, kind1=0, wmax=4, maxw=10, hp=0)]
tols = [P(n=2, kinds=2, wmax=6, maxw=20, tol=t) for t in (1, 2, 3, 4)] + [P(n=2, kinds=2, wmax=4, maxw=12, scale=3)]
deep = [
    P(n=3, kinds=2, wmax=3, maxw=9),
    P(n=4, kinds=1, wmax=30, maxw=70),
    P(n=2, kinds=2, wmax=60, maxw=70),
    P(n=2, kind0=2, kind1=0, wmax=60, maxw=70),
    P(n=2, kind0=4, kind1=2, wmax=3, maxw=9),
    P(n=2, kind0=5, kind1=4, wmax=3, maxw=9),
    P(n=3, kind0=1, kind1=2, kind2=3, wmax=2, maxw=9),
    P(n=7, kinds=1, wmin=1, wmax=2, maxw=9),
    P(n=6, kinds=1, wmin=1, wmax=3, maxw=12),
    P(n=5, kinds=1, wmin=1, wmax=10, minw=8, maxw=30),
]

def jobs(fn, lists, covers=(), tier=None, **extra):
    out = []
    for x in lists:
        j = {"fn": fn, "params": dict(x, **extra)}
        if tier:
            j["tier"] = tier
        out.append(j)
    for i, cv in covers:
        out[i]["covers"] = cv
    return out

PARA = ("Paragraphs of up to 2 tokens of any of the kinds: word, word with one or two hyphenation points, word with a mark before or after, word with a hyphen, "
        "word with all of these, empty token; of up to 6 plain words; the width of each part of a word any whole number up to 4 (up to 60 in some of the jobs), "
        "the maximum any whole number up to 12 (up to 70), the width of hyphens and of marks any whole number up to 3; hyphens rendered or not; words broken or not, marks breaking words or not; spaces measuring up to 3; "
        "measures in halves with a scale factor of 10, maximums 0.3, 0.5 or 0.6 above a whole number. Thorough: 3 tokens, 7 plain words. Paragraphs of 20 to 40 (quick) or 100 (thorough) tokens of all kinds with given widths, but for the width of one box (thorough: two) up to 6 and the maximum up to 80 (120), which are split in cases by the solver before the call.")
OUT = ("Longer paragraphs, or more arbitrary widths in long ones; measures that the scale factor does not make whole; a space that measures nothing; tolerances above 10000; the texts of the words are fixed, "
       "their widths are arbitrary.")
FLOATS = ("Sums of demerits are computed as exact fixed-point numbers with a bound of the rounding error: when two floats are too near to tell, both outcomes are explored and "
          "a counterexample counts once the compiled code confirms it.")
MEAS = "The measurer and the hyphenator are given as options: the width of a text is the sum of the widths of its runes."
specs = []

def spec(prop, bounds, outside, assumptions, js):
    specs.append({"property": prop, "lia": True, "bounds": bounds, "outside": outside, "assumptions": assumptions, "jobs": js})

ANY = " Two tokens of 1 arbitrary ASCII rune each (thorough: 2 and 1), any maximum up to 8."
DEF = " Nine texts with the default settings, any maximum up to 40."
spec("C20", PARA + ANY + DEF, OUT, [FLOATS, MEAS],
     jobs("CheckText", base, [(1, ["broken", "hyphen"])]) +
     jobs("CheckAny", [P(sizes=11)], [(0, ["broken", "refused"])]) +
     jobs("CheckText", longer) + jobs("CheckText", deep + longest, tier="thorough") + jobs("CheckAny", [P(sizes=21), P(sizes=12)], tier="thorough") +
     [{"fn": "CheckTextDefault", "setup": "SetupDefaults", "covers": ["broken"]}])
spec("C21", PARA + ANY + DEF, OUT, [FLOATS, MEAS],
     jobs("CheckWidth", base, [(1, ["broken"])]) +
     jobs("CheckAny", [P(sizes=11)], [(0, ["broken"])]) +
     jobs("CheckWidth", longer) + jobs("CheckWidth", deep + longest, tier="thorough") + jobs("CheckAny", [P(sizes=21), P(sizes=12)], tier="thorough") +
     [{"fn": "CheckWidthDefault", "setup": "SetupDefaults", "covers": ["broken"]}])
spec("C22", "Paragraphs as for C20, with smaller bounds: 2 tokens with widths up to 3. The call is repeated on the same line breaker, at once or after another call that succeeds with open attributes, "
     "is refused, is empty, or is made on a line breaker with other options, and on a new line breaker; the same for paragraphs of 2 tokens with escape sequences; any order of iteration over maps. Paragraphs of 20 and 40 tokens with given widths, but for one and the maximum.", OUT, [FLOATS, MEAS],
     jobs("CheckRepeat", [
         P(n=1, kinds=8, wmax=6, maxw=20),
         P(n=2, kinds=3, wmax=3, maxw=9),
         P(n=2, kind0=3, kind1=0, wmax=3, maxw=9),
         P(n=3, kinds=1, wmax=20, maxw=70),
         P(n=4, kinds=1, wmax=3, maxw=9),
         P(n=5, kinds=1, wmin=1, wmax=2, maxw=9),
         P(n=2, kinds=2, wmax=3, maxw=9, order=1),
         P(n=4, kinds=1, wmax=3, maxw=9, order=1),
         P(n=2, kinds=2, wmax=3, maxw=9, dash=0),
         P(n=2, kinds=2, wmax=4, maxw=20, tol=1),
         P(n=20, mix=3, lo=3, hi=4, wmax=6, minw=6, maxw=30, enum=1, order=1),
         P(n=40, mix=1, lo=30, hi=31, wmax=1, minw=40, maxw=80, enum=1),
     ], [(1, ["broken", "between"])]) +
     jobs("CheckRepeatSequences", [P(n=1, wmax=6, maxw=20), P(n=2, kinds=7, wmax=3, maxw=9), P(n=2, kind0=2, kind1=3, wmax=3, maxw=9, order=1)]) +
     jobs("CheckRepeatSequences", [P(n=2, wmax=3, maxw=9)], tier="thorough") +
     jobs("CheckRepeat", [P(n=2, kinds=4, wmax=4, maxw=12), P(n=2, kind0=4, kind1=0, wmax=4, maxw=10), P(n=6, kinds=1, wmin=1, wmax=2, maxw=9),
                          P(n=2, kinds=3, wmax=4, maxw=10, order=1)], tier="thorough"))
spec("C23", PARA + " Tolerances 8.6, 1, 2.5, 0.5, 20; scale factors 1 and 3." + DEF, OUT, [FLOATS, MEAS],
     jobs("CheckRefusal", base + tols + loose[:2] + loose[3:6], [(1, ["set", "refused"])]) +
     jobs("CheckEmpty", [P(n=1, kinds=8, wmax=6, maxw=20), P(n=2, kinds=2, wmax=3, maxw=9)]) +
     jobs("CheckRefusal", longer) + jobs("CheckRefusal", deep + longest, tier="thorough") +
     [{"fn": "CheckRefusalDefault", "setup": "SetupDefaults", "covers": ["refused"]}])
spec("C24", PARA + " Up to 5 (quick) or 7 (thorough) plain words, or 3 words of several kinds, with a scale factor of 6. Tolerances 8.6, 1, 2.5, 0.5, 20; scale factors 1 and 3; hyphen penalties 300, 0, 40, 1000.", OUT + " Choices whose demerits differ by less than 0.5 count as equal.", [FLOATS, MEAS,
     "The penalties are those of the default settings; a hyphenation point, an explicit hyphen, a mark and the end of the paragraph are flagged."],
     jobs("CheckDemerits", base + tols + pens + loose, [(1, ["broken"])]) + jobs("CheckDemerits", longer) + jobs("CheckDemerits", deep + looser + longest, tier="thorough"))
spec("C25", "Two tokens, each one of 11 kinds: sequences around, before, after or inside the token, nested, left open until the next token, closing before a mark, around words that can be broken and words with a hyphen; "
     "widths of the parts of words up to 6, maximum up to 16; hyphens rendered or not. Three tokens of these kinds with widths 1 or 2 and maximums up to 6, some triples with widths up to 4, 2 tokens with widths up to 60. 19 and 38 tokens of all kinds with given widths, but for one and the maximum. Thorough: all triples of kinds with widths up to 3, up to the time limit.",
     OUT + " Sequences inside a word that can be hyphenated: they split the word for the hyphenator. A stop that closes nothing.", [FLOATS, MEAS, "One stop closes one start."],
     jobs("CheckSequences", [
         P(n=1, wmax=9, maxw=30),
         P(n=2, wmax=6, maxw=16),
         P(n=3, wmin=1, wmax=2, maxw=6),
         P(n=2, wmax=3, maxw=9, dash=0),
         P(n=3, kind0=2, kind1=0, kind2=3, wmax=4, maxw=12),
         P(n=3, kind0=2, kind1=9, kind2=3, wmax=4, maxw=12),
         P(n=3, kind0=6, kind1=1, kind2=0, wmax=4, maxw=12),
         P(n=3, kind0=2, kind1=1, kind2=3, wmax=4, maxw=12),
         P(n=3, kind0=8, kind1=4, kind2=3, wmax=3, maxw=9),
         P(n=2, kind0=1, kind1=1, wmax=60, maxw=70),
         P(n=4, kind0=2, kind1=2, kind2=3, kind3=3, wmax=3, maxw=9),
         P(n=19, mix=1, lo=3, hi=4, wmax=6, minw=6, maxw=30, enum=1),
         P(n=38, mix=1, lo=30, hi=31, wmax=2, minw=20, maxw=60, enum=1),
     ], [(1, ["broken"])]) +
     jobs("CheckSequences", [P(n=3, wmax=3, maxw=9)], tier="thorough"))
with open("/verif/harness/lines/jobs.json", "w") as f:
    json.dump(specs, f, indent=1)
    f.write("\n")
