#!/usr/bin/env python3
"""Writes MANIFEST.json and bounds.json from the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "symbolic execution of the compiled LLVM IR with z3 (bounded, all paths)"
NOTE = ("Every feasible path of the real code within the stated bounds is executed with symbolic inputs and every assertion, panic and memory access on it "
        "is decided by z3; counterexamples are replayed on native builds. Nothing is claimed outside the bounds. Trusted: rustc, the rsym engine (validated each run by native replay of sampled paths), z3.")
C = {}


def c(id, bounds, outside, covers=None, assumptions=None):
    C[id] = {"bounds": bounds, "outside": outside, "covers": covers or {}, "assumptions": assumptions or []}


exec(open(os.path.join(V, "tools", "bounds.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
na_file = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
         "technique": TECH, "level": "model_checking", "level_note": "Bounds: " + C[i]["bounds"] + " " + NOTE}
        for i in ids if i in C
    ],
    "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in C],
    "notes": "See DESIGN.md. No hooks in /repo are needed: everything is observed through the public API.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(C, open(os.path.join(V, "bounds.json"), "w"), indent=1)
