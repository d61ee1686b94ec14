#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the property list."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
p = H + "/tools/not_applicable.json"
if os.path.exists(p): NA = json.load(open(p))
checks = []
for i in props:
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique=c.get("technique", "runtime monitoring: reference-model oracle over generated workloads under " + "/".join(sorted({dict(asan="ASan+UBSan", tsan="TSan", plain="valgrind").get(r["flavor"]) for r in c["runs"]}))),
        level="exploration", level_note=c.get("note", "Holds on every execution observed; executions are generated, not enumerated, so absence of violations is evidence, not proof. Trusts the harness's reference model and the sanitizers.")))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, "Check under construction in this session.")) for i in props if i not in CHECKS],
         notes="No hooks: the checks compile /repo's unmodified sources with sanitizers into /verif/build.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
