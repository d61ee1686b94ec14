#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and stores it under /verif/seeded/<id>/.
usage: plant.py SPEC.py [ID...]   where SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], demo=C++ text, needs, breaks)]
The scratch copy /tmp/plant is bound over /repo in a private mount namespace, so /repo itself is never changed."""
import os, sys, json, subprocess, shutil, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/plant"
DEMO = r'''#!/bin/bash
# cwd: /repo after build.sh; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 99; trap 'rm -rf "$d"' EXIT
g++ -std=c++11 -O1 -w -D__STDC_CONSTANT_MACROS %s -Isrc -I/usr/include/opencv4 "$here/demo.cpp" -o "$d/demo" -L_build -llivemediastreamer -Wl,-rpath,"$PWD/_build" -Wl,--allow-shlib-undefined \
  -lavcodec -lavformat -lavutil -lswresample -lswscale -llog4cplus -ltinyxml2 -lopencv_core -lopencv_imgproc -lpthread || exit 98
cd "$d" && timeout 120 ./demo
'''
def ns(cmd, **k): return subprocess.run(["unshare", "-Urmi", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (S, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def git(*a): return subprocess.run(["git", "-C", S] + list(a), check=True, stdout=subprocess.PIPE).stdout
def main():
    spec = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    subprocess.run("mkdir -p %s && rsync -a --delete ${SRC:-/repo}/ %s/ 2>/dev/null || { rm -rf /tmp/plant && cp -a ${SRC:-/repo} %s; }" % (S, S, S), shell=True, check=True)
    git("checkout", "-q", "--", ".")
    assert ns("bash /opt/vp/build.sh").returncode == 0
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in spec["BUGS"]:
        if only and b["id"] not in only: continue
        d = "/tmp/plant-demo/" + b["id"]; os.makedirs(d, exist_ok=True); shutil.rmtree(d); os.makedirs(d)
        open(d + "/demo.cpp", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(b.get("sh") or DEMO % b.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
        if b.get("cv"): shutil.copytree("/verif/include/opencv", d + "/opencv")
        for x in b.get("files", []): shutil.copy2(x, d)
        r0 = ns("bash %s/demo.sh" % d)
        if r0.returncode: print(b["id"], "DEMO FAILS ON CLEAN TREE", r0.returncode, r0.stdout[-1500:]); continue
        try:
            for f, old, new in b["edits"]:
                t = open(S + "/" + f, newline="").read(); assert t.count(old) == 1, (b["id"], f, t.count(old), old); open(S + "/" + f, "w", newline="").write(t.replace(old, new))
            diff = git("diff")
            r = ns("bash /opt/vp/test.sh /tmp/plant-x.json"); x = json.load(open("/tmp/plant-x.json")); miss = stable - set(x["passed"])
            if miss: print(b["id"], "STABLE TESTS FAIL", sorted(miss), r.stdout[-800:] if len(miss) > 20 else ""); continue
            r1 = ns("bash %s/demo.sh" % d)
            if r1.returncode == 0 or r1.returncode in (98, 99): print(b["id"], "DEMO DOES NOT FAIL", r1.returncode, r1.stdout[-800:]); continue
        finally:
            git("checkout", "-q", "--", "."); 
        o = H + "/seeded/" + b["id"]; os.makedirs(o, exist_ok=True)
        for n in ["demo.cpp", "demo.sh"] + [os.path.basename(x) for x in b.get("files", [])]: shutil.copy2(d + "/" + n, o)
        if b.get("cv"): shutil.copytree(d + "/opencv", o + "/opencv", dirs_exist_ok=True)
        open(o + "/patch.diff", "wb").write(diff); json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(b["id"], "OK: demo", r1.returncode, r1.stdout.strip()[-160:])
main()
