#!/usr/bin/env python3
"""Fills DESIGN.md.in into DESIGN.md from MANIFEST.json, properties.jsonl and tools/seed_results.txt."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p
m = json.load(open(R + "/MANIFEST.json"))
s = open(R + "/tools/DESIGN.in.md").read()
rules = "\n".join("### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Why tests cannot:* %s\n" % (c["property"], props[c["property"]]["title"], props[c["property"]]["statement"], c["level_note"], props[c["property"]]["why_tests_cant"]) for c in m["checks"])
na = "\n".join("* **%s** %s: %s" % (n["property"], props[n["property"]]["title"], n["reason"]) for n in m["not_applicable"])
f = R + "/tools/seed_results.txt"
seeds = "| planted change | property | result | needs |\n|---|---|---|---|\n"
res = {}
if os.path.exists(f):
    for l in open(f):
        a = l.split()
        if len(a) >= 3: res[a[0]] = (a[1], a[2])
for d in sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []:
    meta = json.load(open(R + "/seeded/%s/meta.json" % d))
    r = res.get(d, ("", "?"))
    seeds += "| %s | %s | %s | %s |\n" % (d, meta["property"], r[1], meta["needs"])
open(R + "/DESIGN.md", "w").write(s.replace("RULES\n", rules + "\n").replace("NOTAPPLICABLE\n", na + "\n").replace("SEEDS\n", seeds + "\n"))
