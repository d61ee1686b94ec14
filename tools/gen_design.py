#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in, known_findings.jsonl, seeded/ and tools/mutation.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.in").read()
fx = [json.loads(l) for l in open(V + "/known_findings.jsonl")]; fx = [x for x in fx if x["status"] == "fixed"]
by = {}
for x in fx: by.setdefault(x["property"], []).append(x)
lines = []
for p in sorted(by): lines += ["", f"**{p}** ({len(by[p])})", ""] + ["* `%s` %s" % (x["commit"], x["what"].split(" ", 3)[3]) for x in by[p]]
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |")
mut = open(V + "/tools/mutation.md").read().strip() if os.path.exists(V + "/tools/mutation.md") else ""
open(V + "/DESIGN.md", "w").write(t.replace("@NFIX@", str(len({x["commit"] for x in fx}))).replace("@FIXES@", "\n".join(lines)).replace("@PLANTS@", "\n".join(rows)).replace("@MUT@", mut))
