#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, properties.jsonl, explain.py and the registries."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from explain import E, COMMON
na = json.load(open(R + "/tools/not_applicable.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
rows = []
for p in props:
    i = p["id"]
    rows.append("### %s %s\n" % (i, p["title"]))
    if i in E:
        e = E[i]
        t = e["explain"].replace(COMMON, "")
        rows += ["- **Method:** %s." % e["technique"], "- **Analysed:** " + t, "- **Decided when:** %s." % e["rule"].rstrip("."),
                 "- **Bounds:** %s." % e["note"].rstrip("."),
                 "- **Why tests cannot:** %s" % p.get("why_tests_cant", "")]
    else:
        rows.append("Not applicable: " + na.get(i, "?"))
    rows.append("")
seeds = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught", "?")))
s = open(R + "/tools/design.in.md").read()
s = s.replace("@@PROPERTIES@@", "\n".join(rows))
s = s.replace("@@SEEDS@@", "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
s = s.replace("@@FIXES@@", "\n".join("- " + l[7:].strip() for l in open(R + "/known_findings.txt") if l.startswith("fixed:")))
open(R + "/DESIGN.md", "w").write(s)
