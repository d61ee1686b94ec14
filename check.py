#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree and runs it.

  check.py PROP [--tier quick|thorough] [--seed N] [--cases N] [--jobs N]
  check.py --replay FILE            re-executes the recorded case verbosely
  check.py --build [PROP...]        only builds
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check itself failed.
"""
import os, sys, re, json, time, shutil, subprocess, tempfile, threading, signal, struct, glob, argparse, resource
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
sys.path.insert(0, HERE)
from checks import CHECKS

class CheckError(Exception): pass

# ---------------------------------------------------------------- build
FLAVORS = {
    "asan": dict(cxx="clang++", cc="clang", flags="-O1 -gline-tables-only -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer"),
    "tsan": dict(cxx="clang++", cc="clang", flags="-O1 -gline-tables-only -fsanitize=thread -fno-omit-frame-pointer"),
    "plain": dict(cxx="clang++", cc="clang", flags="-O2 -DVF_PLAIN -gline-tables-only -fno-omit-frame-pointer"),
}
COMMON = "-w -D__STDC_CONSTANT_MACROS -DLMS_VERIF"
LIBS = ("-lavcodec -lavformat -lavutil -lswresample -lswscale -llog4cplus -ltinyxml2 -lopencv_core -lopencv_imgproc "
        "-lx264 -lx265 -lpthread")
SKIP = re.compile(r"^modules/(receiver|audioDecoder|audioEncoder|videoDecoder|headDemuxer)/|^modules/transmitter/[^/]*$|^PipelineManager\.cpp$")

def repo_sources():
    text = open(SRC + "/Makefile.am").read().replace("\\\n", " ")
    m = re.search(r"^liblivemediastreamer_la_SOURCES\s*=(.*)$", text, re.M)
    if not m: raise CheckError("no source list in Makefile.am")
    return [s for s in m.group(1).split() if re.search(r"\.(c|cpp)$", s) and not SKIP.search(s)]

def build(prop_harnesses):
    """prop_harnesses: list of (harness, flavor). Returns {(h,f): exe}."""
    exes = {}
    bdir = os.path.join(HERE, "build"); os.makedirs(bdir, exist_ok=True)
    lines = ["ninja_required_version = 1.5", "rule cc", "  command = $CC $FLAGS -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar crs $out $in", "rule ld", "  command = $CC $FLAGS $in $LINK -o $out"]
    srcs = repo_sources()
    inc = f"-I{HERE}/harness -I{SRC} -isystem {HERE}/include -isystem /usr/include/opencv4"
    targets = []
    for fl in sorted({f for _, f in prop_harnesses}):
        F = FLAVORS[fl]; objs = []
        def obj(src, tag, more=""):
            o = f"{bdir}/{fl}/{tag}.o"
            c = src.endswith(".c")
            lines.extend([f"build {o}: cc {src}", f"  CC = {F['cc'] if c else F['cxx']}",
                          f"  FLAGS = {'' if c else '-std=c++11'} {F['flags']} {COMMON} {inc} {more}"])
            return o
        for s in srcs: objs.append(obj(f"{SRC}/{s}", "repo/" + s.replace("/", "_")))
        for s in ("pmwrap", "vf"): objs.append(obj(f"{HERE}/harness/{s}.cpp", "h/" + s))
        lib = f"{bdir}/{fl}/liball.a"
        lines.append(f"build {lib}: ar {' '.join(objs)}")
        for h in sorted({h for h, f in prop_harnesses if f == fl}):
            text = open(f"{HERE}/harness/{h}.cpp").read(); more = ""; parts = []; exe = f"{bdir}/{fl}/{h}"
            m = re.search(r"//!libav (.*)", text)   # modules written for an older libav, which are compiled against it by way of a header
            if m:
                more = f"-include {HERE}/harness/libav_compat.h"
                for s in m.group(1).split(): parts.append(obj(f"{SRC}/modules/{s}", f"libav/{h}_" + s.replace("/", "_"), more))
            ho = obj(f"{HERE}/harness/{h}.cpp", "h/" + h, more)
            extra = ""
            if "//!wrap-mutex" in text:
                extra = "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock "
            m = re.search(r"//!link (.*)", text)
            if m: extra += m.group(1)
            lines.extend([f"build {exe}: ld {ho} {' '.join(parts)} {lib}", f"  CC = {F['cxx']}", f"  FLAGS = {F['flags']}", f"  LINK = {extra} {LIBS}"])
            exes[(h, fl)] = exe; targets.append(exe)
    nj = os.path.join(bdir, "build-%d.ninja" % os.getpid())
    open(nj, "w").write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "--quiet", "-f", nj, "-C", bdir] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    os.unlink(nj)
    if r.returncode: raise CheckError("build failed:\n" + (r.stdout if len(r.stdout) < 6000 else r.stdout[:3000] + "\n...\n" + r.stdout[-3000:]))
    return exes

# ---------------------------------------------------------------- sanitizer reports
def func_of(line):
    m = re.match(r"\s*#\d+\s+(?:0x[0-9a-f]+\s+)?(?:in\s+)?(.+?)\s+(/\S+?|\(\S+|<null>|\S+\.\w+)(:\d+(:\d+)?)?(\s|$)", line)
    return m
def clean_fn(f):
    f = re.sub(r"\(anonymous namespace\)::", "", f)
    d = 0; out = []
    for ch in f:
        if ch in "(<": d += 1
        if d == 0: out.append(ch)
        if ch in ")>": d -= 1
    f = "".join(out).replace(" const", "").strip().split(" ")[-1]
    return f
def first_repo_frame(lines):
    for l in lines:
        if re.match(r"\s*#\d+", l) and "/repo/src/" in l.replace(REPO + "/src/", "/repo/src/"):
            m = re.match(r"\s*#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.*?)\s+(/\S+)", l)
            if m: return clean_fn(m.group(1)), os.path.basename(re.sub(r":\d+.*", "", m.group(2)))
    return None
def parse_report(text, rc, tool):
    """-> list of (key, detail) for the sanitizer reports in a stderr text"""
    res = []
    ls = text.splitlines()
    for i, l in enumerate(ls):
        m = re.search(r"runtime error: (.*)", l)
        if m:
            msg = re.sub(r"0x[0-9a-f]+", "ADDR", m.group(1)); msg = re.sub(r"-?\d[\d.e+]*", "N", msg)
            fr = first_repo_frame(ls[i:i + 25])
            where = fr[0] if fr else os.path.basename(l.split(":")[0])
            res.append(("ubsan:%s:%s" % (where, msg[:60].strip()), "\n".join(ls[i:i + 20])))
            continue
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): (\S+)", l)
        if m and m.group(1) == "AddressSanitizer":
            fr = first_repo_frame(ls[i:i + 40])
            res.append(("asan:%s:%s" % (m.group(2).rstrip(":"), fr[0] if fr else "unknown"), "\n".join(ls[i:i + 40])))
        elif m:
            j = i + 1; block = []
            for k in range(i + 1, len(ls) + 1):
                if k == len(ls) or ls[k].startswith("Direct leak") or ls[k].startswith("Indirect leak") or ls[k].startswith("SUMMARY"):
                    if block and block[0].startswith("Direct leak"):
                        fr = first_repo_frame(block)
                        res.append(("leak:%s" % (fr[0] if fr else "unknown"), "\n".join(block[:20])))
                    block = []
                if k < len(ls): block.append(ls[k])
        m = re.search(r"WARNING: ThreadSanitizer: ([^(]*)", l)
        if m:
            blk = ls[i:i + 120]
            end = next((k for k, x in enumerate(blk) if x.startswith("SUMMARY")), len(blk)); blk = blk[:end]
            stacks = []; cur = None
            for x in blk:
                if re.match(r"\s+(Read|Write|Previous|Atomic|.*(read|write) of size)", x) or re.search(r"(Read|Write|read|write) of size", x):
                    cur = []; stacks.append(cur)
                elif re.match(r"\s+(Location|Thread|Mutex|As if|  Hint|Heap)", x): cur = None
                elif cur is not None: cur.append(x)
            fns = sorted({(first_repo_frame(s) or ("unknown",))[0] for s in stacks[:2]})
            res.append(("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), "|".join(fns)), "\n".join(blk[:70])))
        m = re.search(r"terminate called|libc\+\+abi: terminating", l)
        if m: res.append(("terminate:%s" % re.sub(r"\W+", "-", " ".join(ls[i:i + 2]))[:80], "\n".join(ls[i:i + 5])))
    return res

# ---------------------------------------------------------------- run
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=15:handle_abort=1:quarantine_size_mb=64",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77", "LSAN_OPTIONS": "exitcode=77",
       "TSAN_OPTIONS": "halt_on_error=0:exitcode=77:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1"}

class Job:
    pass

class Runner:
    def __init__(self, prop, spec, exes, tier, seed, keep):
        self.prop, self.spec, self.tier, self.seed = prop, spec, tier, seed
        self.exes = exes; self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.lock = threading.Lock(); self.fails = []; self.counters = {}; self.sigs = set(); self.samples = []; self.errors = []; self.crashes = 0; self.found = 0; self.t0 = time.time(); self.cut = False
        self.known = {x["key"] for x in known() if x["property"] == prop and x.get("status") == "known"}
        self.n = 0

    def one(self, run, a, b):
        """Runs cases [a,b) of a run; after a crash continues behind the crashing case."""
        while a < b:
            if self.crashes > 60 or self.stop(): return
            nxt = self.process(run, a, b)
            if nxt is None: return
            a = nxt

    def stop(self):
        """A violation that was found does not need the rest of the run, and a quick run on a slow machine ends in time."""
        if self.tier != "quick": return False
        t = time.time()
        if self.found and t - self.found > 15: return True
        if t - self.t0 > 600: self.cut = True; return True
        return False

    def cmd(self, run, a, b, out, prog, d):
        exe = self.exes[(run["harness"], run["flavor"])]
        c = [exe, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--tier", self.tier, "--out", out, "--progress", prog, "--dir", d]
        if run.get("valgrind"):
            c = ["valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--track-origins=no", "--num-callers=15"] + c
        return c

    def env(self, run):
        e = dict(os.environ); e.update(ENV)
        for k, v in run.get("env", {}).items(): e[k] = (e[k] + ":" + v) if k in ENV else v
        if run["flavor"] == "tsan":
            e["TSAN_OPTIONS"] += ":suppressions=%s/harness/tsan.supp" % HERE
        e["LSAN_OPTIONS"] += ":suppressions=%s/harness/lsan.supp" % HERE
        e.pop("LD_PRELOAD", None)
        e["LD_LIBRARY_PATH"] = ""
        return e

    def process(self, run, a, b, retry=False):
        with self.lock: self.n += 1; k = self.n
        d = os.path.join(self.scratch, "p%d" % k); os.makedirs(d)
        out, prog, err = d + "/out", d + "/progress", d + "/err"
        limit = run.get("hang_s", 25)
        with open(err, "w") as ef:
            p = subprocess.Popen(self.cmd(run, a, b, out, prog, d), stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=self.env(run), cwd=d, start_new_session=True)
        last = None; since = time.time(); hung = False
        while True:
            try: p.wait(0.05 if time.time() - since < 1 else 0.5); break
            except subprocess.TimeoutExpired: pass
            if self.stop():
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); self.collect(run, out); shutil.rmtree(d, ignore_errors=True); return None
            cur = self.progress(prog)
            if cur != last: last = cur; since = time.time()
            elif time.time() - since > limit * (2 if retry else 1):
                hung = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
        case = self.progress(prog)[0]
        text = open(err, errors="replace").read()
        done = self.collect(run, out)
        reports = parse_report(text, p.returncode, run["flavor"])
        seen = set()
        for key, det in reports:
            if key in seen: continue
            seen.add(key); self.add_fail(run, case if p.returncode else a, key, det)
        ret = None
        if hung:
            if retry: self.add_fail(run, case, "hang", "no progress in case %d within %d s, twice" % (case, limit)); ret = None
            else:
                with self.lock: nh = self.crashes; self.crashes += 1
                n0 = len(self.fails)
                if nh < 6: self.process(run, case, case + 1, retry=True)
                if not any(f["key"] == "hang" and f["case"] == case for f in self.fails[n0:]):
                    with self.lock: self.counters["unconfirmed stalls"] = self.counters.get("unconfirmed stalls", 0) + 1
            ret = case + 1
        elif p.returncode != 0 and not done:
            with self.lock: self.crashes += 1
            if not reports:
                if p.returncode < 0 and -p.returncode != signal.SIGKILL:
                    self.add_fail(run, case, "signal:%s" % signal.Signals(-p.returncode).name, text[-3000:])
                else:
                    self.errors.append("harness %s exited with %d in case %d: %s" % (run["harness"], p.returncode, case, text[-1500:]))
            ret = case + 1
        elif not done:
            self.errors.append("harness %s wrote no summary (rc %d): %s" % (run["harness"], p.returncode, text[-1500:]))
        shutil.rmtree(d, ignore_errors=True)
        return ret

    def progress(self, prog):
        try:
            with open(prog, "rb") as f: return struct.unpack("QQ", f.read(16))
        except Exception: return (0, 0)

    def collect(self, run, out):
        done = False
        if not os.path.exists(out): return False
        for l in open(out, errors="replace"):
            try: j = json.loads(l)
            except ValueError: continue
            if j["t"] == "fail": self.add_fail(run, j["case"], j["key"], j["detail"])
            else:
                done = True
                with self.lock:
                    for k, v in j["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
                    self.sigs.update(j["sigs"])
                    for s in j["samples"]:
                        if len(self.samples) < 6: self.samples.append(s)
        return done

    def add_fail(self, run, case, key, detail):
        with self.lock:
            if key not in self.known and not self.found: self.found = time.time()
            self.fails.append(dict(harness=run["harness"], flavor=run["flavor"], valgrind=bool(run.get("valgrind")), case=case, key=key, detail=detail))

    def go(self, jobs):
        tasks = []
        for run in self.spec["runs"]:
            n = run["cases"][0 if self.tier == "quick" else 1]
            if self.override: n = min(n, self.override) if self.override < n else self.override
            j = min(jobs, run.get("jobs", jobs)); chunks = min(n, j * run.get("split", 2)) or 0
            for i in range(chunks): tasks.append((run, n * i // chunks, n * (i + 1) // chunks, j))
        # runs with a smaller job limit are themselves threaded: serialise by weight
        with ThreadPoolExecutor(jobs) as ex:
            for grp in self.group(tasks):
                fs = [ex.submit(self.one, r, a, b) for r, a, b, j in grp[1]] if grp[0] >= jobs else None
                if fs is None:
                    with ThreadPoolExecutor(grp[0]) as ex2: fs = [ex2.submit(self.one, r, a, b) for r, a, b, j in grp[1]]
                for f in fs: f.result()
        shutil.rmtree(self.scratch, ignore_errors=True)
    def group(self, tasks):
        g = {}
        for t in tasks: g.setdefault(t[3], []).append(t)
        return sorted(g.items(), reverse=True)

def known():
    ks = []
    p = HERE + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"): ks.append(json.loads(l))
    return ks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--cases", type=int, default=0); ap.add_argument("--replay"); ap.add_argument("--build", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        j = json.load(open(a.replay)); run = dict(harness=j["harness"], flavor=j["flavor"], valgrind=j.get("valgrind"), env=CHECKS[j["property"]].get("env", {}))
        for r0 in CHECKS[j["property"]]["runs"]:
            if r0["harness"] == j["harness"] and r0["flavor"] == j["flavor"]: run["env"] = r0.get("env", {})
        exes = build([(run["harness"], run["flavor"])])
        r = Runner(j["property"], CHECKS[j["property"]], exes, j["tier"], j["seed"], True)
        d = tempfile.mkdtemp(prefix="vf-replay-")
        cmd = r.cmd(run, j["case"], j["case"] + 1, "/dev/stderr", d + "/p", d) + ["-v"]
        print(" ".join(cmd)); rc = subprocess.run(cmd, env=r.env(run), cwd=d).returncode; shutil.rmtree(d); shutil.rmtree(r.scratch); sys.exit(rc)
    props = a.prop or sorted(CHECKS)
    if a.build:
        build(sorted({(r["harness"], r["flavor"]) for p in props for r in CHECKS[p]["runs"]})); print("built"); return 0
    worst = 0
    for prop in props: worst = max(worst, check(prop, a))
    return worst

def check(prop, a):
    t0 = time.time(); spec = CHECKS[prop]
    os.makedirs(HERE + "/evidence", exist_ok=True); os.makedirs(HERE + "/replay", exist_ok=True)
    for x in glob.glob(HERE + "/replay/%s-*.json" % prop): os.unlink(x)
    ev = HERE + "/evidence/%s.json" % prop
    if os.path.exists(ev): os.unlink(ev)
    exes = build(sorted({(r["harness"], r["flavor"]) for r in spec["runs"] if r["cases"][0 if a.tier == "quick" else 1]}))
    tb = time.time() - t0
    r = Runner(prop, spec, exes, a.tier, a.seed, False); r.override = a.cases
    r.go(a.jobs)
    kn = [k for k in known() if k["property"] == prop and k.get("status") == "known"]
    byk = {}
    for f in r.fails: byk.setdefault(f["key"], []).append(f)
    new = {k: v for k, v in byk.items() if not any(k == x["key"] for x in kn)}
    for x in kn:
        print("KNOWN-FINDING: property=%s %s (key %s, seen %d times in this run)" % (prop, x["what"], x["key"], len(byk.get(x["key"], []))))
    viol = []
    for i, (k, v) in enumerate(sorted(new.items())):
        v.sort(key=lambda f: f["case"]); f = v[0]
        rp = "%s/replay/%s-%d.json" % (HERE, prop, i)
        json.dump(dict(property=prop, tier=a.tier, seed=a.seed, **f), open(rp, "w"), indent=1)
        viol.append(rp)
        if i < 8 or a.v:
            print("VIOLATION property=%s replay=%s" % (prop, rp)); print("  key: %s (%d times, first in case %d)" % (k, len(v), f["case"]))
            print("  " + "\n  ".join(x[:300] for x in f["detail"].split("\n")[:22 if not a.v else 400])[:1800 if not a.v else 20000])
    for e in r.errors[:5]: print("CHECK ERROR: " + e)
    cases = r.counters.get("cases", 0)
    cov = dict(evaluations=cases, distinct_nontrivial=len(r.sigs), rule=spec["rule"], samples=r.samples[:6],
               events={k: v for k, v in sorted(r.counters.items()) if k != "cases"})
    doc = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
               assumptions=spec.get("assumptions", []), build_s=round(tb, 2), known_findings=[x["key"] for x in kn], unconfirmed_stalls=r.counters.get("unconfirmed stalls", 0), cut_short=r.cut)
    json.dump(doc, open(ev, "w"), indent=1)
    print("%s: %d cases, %d distinct, %d new violation kinds, %.1f s (build %.1f)" % (prop, cases, len(r.sigs), len(new), time.time() - t0, tb))
    print("  " + ", ".join("%s=%d" % kv for kv in sorted(cov["events"].items())))
    if new: return 1
    if r.errors: return 2
    need = [k for k in spec.get("require", []) if not r.counters.get(k)]
    if need and not a.cases and r.cut: print("CHECK ERROR: the monitors observed no %s, but not all cases were executed" % ", ".join(need)); return 2
    if need and not a.cases:   # every case ran to its end, and what the property is about never came to pass
        rp = "%s/replay/%s-never.json" % (HERE, prop); f = spec["runs"][0]
        json.dump(dict(property=prop, tier=a.tier, seed=a.seed, harness=f["harness"], flavor=f["flavor"], case=0, key="never", detail=", ".join(need)), open(rp, "w"), indent=1)
        doc["violations"] = 1; json.dump(doc, open(ev, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp)); print("  key: never\n  in all %d cases there were no %s" % (cases, ", ".join(need))); return 1
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e: print("CHECK ERROR: %s" % e); sys.exit(2)
