#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the per-property table filled in from
properties.jsonl and bounds.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
bounds = json.load(open(os.path.join(V, "bounds.json")))
notes = {}
cur = None
body = []
for l in open(os.path.join(V, "tools/design.md")).read().splitlines():
    if l.startswith("@note "):
        cur = l.split()[1]
        notes[cur] = []
    elif l.startswith("@end"):
        cur = None
    elif cur:
        notes[cur].append(l)
    else:
        body.append(l)
out = []
for p in props:
    i = p["id"]
    out.append("### %s — %s\n" % (i, p["title"]))
    out.append("\n".join(notes.get(i, [])).strip() + "\n")
    b = bounds.get(i, {})
    out.append("*Bounds:* " + b.get("bounds", "") + " *Outside:* " + b.get("outside", "") + ".\n")
catches = json.load(open(os.path.join(V, "tools/catches.json")))
seeds = ["| id | property | breaks | needs | quick |", "|----|----|----|----|----|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    t = catches.get(i, "not run")
    seeds.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], t if isinstance(t, str) else "%d s" % t))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(body).replace("@properties@", "\n".join(out)).replace("@seeds@", "\n".join(seeds)) + "\n")
