#!/usr/bin/env python3
"""Appends the fix: commits of /repo that known_findings.jsonl does not list yet.  record_fixes.py DEFAULT_PROP [hash=PROP...]"""
import sys, json, subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = H + "/known_findings.jsonl"
have = {json.loads(l).get("commit") for l in open(f)}
over = dict(a.split("=") for a in sys.argv[2:])
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or h in have: continue
    p = over.get(h, sys.argv[1])
    open(f, "a").write(json.dumps(dict(property=p, status="fixed", key="-", commit=h, what="fixed: property=%s %s %s" % (p, h, s[5:]))) + "\n"); print(p, h, s)
