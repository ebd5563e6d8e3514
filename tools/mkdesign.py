#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the evidence of quick runs, seeded/ and tools/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
from props import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(V + "/tools/design_head.md").read()]
for p in props:
    i = p["id"]
    try:
        e = json.load(open(f"{V}/evidence/{i}.json"))
    except OSError:
        e = None
    out.append(f"### {i} {p['title']}\n\n{PROPS[i]['what']}\n")
    if e:
        c = e["coverage"]
        out.append(f"{e['tier'].capitalize()}: {c['states']:,} states, {c['transitions']:,} transitions, {e['wall_s']:.0f} s.\n")
        for f in c["families"]:
            out.append(f"* `{f['name']}` ({f['items']:,} items): {f['bounds']}")
        out.append("")
out.append(open(V + "/tools/design_tail.md").read())
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
res = {}
try:
    for l in open(V + "/tools/seeded-results.txt"):
        k, _, v = l.strip().partition(" ")
        res[k] = v
except OSError:
    pass
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '')} |")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
