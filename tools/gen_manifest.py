#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
HIST = {"C07", "C08", "C09", "C10", "C11", "C16", "C17", "C18", "C19", "C20", "C22", "C25", "C26"}
BOUND = {
 "C01": "all pairs over 8 (thorough 12) end points, every kind and relative position",
 "C02": "all pairs over 8 (thorough 12) end points",
 "C03": "all pairs of bounds over 8 (thorough 16) end points",
 "C04": "all raw intervals over user types of up to 24 (thorough 100) values, all 8-bit (thorough 16-bit) types, cells of every built-in integer",
 "C05": "all sequences up to 6 (thorough 7) raw intervals over 1 end point down to pairs over 6 (12)",
 "C06": "all raw intervals over 8-bit types and edge values of wider ones; all texts up to 6 (thorough 7) characters of the notation and all token sequences",
 "C07": "all histories of in-place operations, to a fixpoint, over up to 6 (thorough 8) end points; families of up to 300 (2050) intervals, every small content at one or two places of large trees",
 "C08": "all reachable trees and all their pairs over up to 5 (thorough 6) end points; families of hundreds of intervals, every pair of small contents at one or two places of them",
 "C09": "all reachable trees and all pairs over up to 5 (thorough 7) end points; families of hundreds of intervals, every small content at one or two places of them",
 "C10": "all reachable trees over up to 5 (thorough 7) end points; families of hundreds of intervals, every small content at one place of them",
 "C11": "all reachable trees over up to 5 (thorough 7) end points, every schedule of front and back calls; families of hundreds of intervals with periodic schedules, every small content at one place of them with every schedule around it",
 "C12": "all constructor arguments over user types and cells of every built-in integer, all pairs for equality; every pair of u8 (thorough also u16, i16)",
 "C13": "all pairs of intervals over user types and cells of every built-in integer (thorough: all pairs of intervals of the 8-bit types)",
 "C14": "all intervals over user types, all 8-bit (thorough 16-bit) types and cells of the others",
 "C15": "all intervals over user types, every schedule of front and back calls and of iterator adaptors; ends of every built-in type; periodic schedules over tens of thousands of values",
 "C16": "all histories of in-place operations, to a fixpoint, over up to 12 (thorough 16) values; families of hundreds of intervals, every small content at one or two places of them",
 "C17": "all reachable selections and all their pairs over up to 10 (thorough 13) values; families of hundreds of intervals, every small content at one or two places of them",
 "C18": "all reachable selections over up to 10 (thorough 14) values, each against four other ways of building it; families of hundreds of intervals, every small content at one or two places of them",
 "C19": "all reachable selections over up to 11 (thorough 15) values; families of hundreds of intervals, every small content at one place of them",
 "C20": "all reachable selections over up to 10 (thorough 13) values, every schedule of front and back calls for every iterator",
 "C21": "all sequences of up to 4 (thorough 5) intervals and 6 (8) values, every split into collect and extend",
 "C22": "every value of the 8-, 16- and 32-bit integers, windows at every power of two and all combinations of 7 16-bit segments for wider ones; all histories and pairs over cells of all 12 types",
 "C23": "all pairs of bounds over 10 (thorough 30) points",
 "C24": "all pairs of markers over 6 (thorough 12) points, all pairs of markers at one point",
 "C25": "all bounds, markers, raw intervals and intervals over small user types and edge values of integers, all trees over 4 (thorough 7) end points, all selections over 10 (15) values, histories in which writing and reading back is an operation; JSON, JSON values, RON and bincode",
 "C27": "every interval over 10 (thorough 14) end points, all pairs over 7 (9), all selections over 13 (16) cells, all in-place operations over 10 (13), all pairs over 8 (10), families of up to 260 (600) cells; each over cells of 5 and of 10^15 values; walks of 9000 (60000) steps",
 "C26": "all pairs over up to 9 (thorough 10) values and all triples over 5 (7) values; every interval pair for the agreement of the layers",
}
for i in "C01 C02 C07 C08 C09 C10 C11".split():
    BOUND[i] += "; a smaller scope over texts, reversed integers and large heap-allocating elements"
for i in ("C03", "C24"):
    BOUND[i] += "; 4 (thorough 8) points of texts, characters, reversed integers and large heap-allocating elements"
BOUND["C23"] += "; floating-point, character, text, tuple, optional and other bounds"
for i in "C12 C13 C14 C15 C16 C17 C18 C19 C20 C26".split():
    BOUND[i] += "; a smaller scope over a large heap-allocating type"
for i in "C07 C08 C09 C10 C11 C16 C17 C18 C19 C20 C21 C26".split():
    BOUND[i] += "; some objects of thousands of intervals, up to %s (thorough %s)" % ("4,105" if i in ("C09", "C18", "C21", "C26") else "11,000", "66,000" if i in ("C07", "C10", "C11") else "16,400")
checks = []
for p in P:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=("explicit-state breadth-first exploration of the real objects to a fixpoint, each transition compared with a bit-set model" if i in HIST
                   else "explicit enumeration of every case of a bounded space on the real code, each compared with a bit-set model"),
        level="model_checking",
        level_note="Exhaustive within: %s. Two builds (as shipped; with the library's debug assertions and overflow checks). Every model step is executed on the implementation. Trusts rustc, std and the harness; nothing is claimed beyond the bounds. On code so slow that the bounds cannot be explored within 270 s per build (5 h thorough), the check stops there and the evidence says what was left out." % BOUND[i]))
m = dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=[],
    notes="No hooks: everything is reached through the public API. The commits in /repo are fix: commits only, listed in known_findings.txt.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
