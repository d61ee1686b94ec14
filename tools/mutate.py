#!/usr/bin/env python3
"""Mutation campaign over a copy of the repository: which small changes that build and pass the stable tests do the checks not see?
usage: mutate.py NAME N SEED   (NAME: group of files in GROUPS)   results appended to /tmp/mut/NAME.jsonl"""
import os, sys, re, json, random, subprocess, time
V = os.environ.get("MUT_VERIF", "/tmp/mut/verif"); S = os.environ.get("MUT_REPO", "/tmp/mut/repo")
M = "src/modules/"
GROUPS = {
 "queue": (["src/AVFramedQueue.cpp", "src/FrameQueue.hh", "src/VideoFrame.cpp", "src/AudioFrame.cpp", "src/Frame.cpp"], ["P01", "P14", "P09", "P05", "P17", "P10"]),
 "io": (["src/IOInterface.cpp"], ["P02", "P04", "P05", "P06", "P21", "P03"]),
 "filter": (["src/Filter.cpp", "src/Filter.hh"], ["P05", "P06", "P04", "P08", "P25", "P03", "P21", "P26"]),
 "pool": (["src/WorkersPool.cpp", "src/Runnable.cpp", "src/Runnable.hh"], ["P07", "P05", "P03", "P21"]),
 "event": (["src/Event.cpp", "src/Event.hh"], ["P08", "P25", "P26"]),
 "abuf": (["src/AudioCircularBuffer.cpp"], ["P09", "P10", "P25"]),
 "amix": ([M + "audioMixer/AudioMixer.cpp"], ["P10", "P26", "P25"]),
 "vmix": ([M + "videoMixer/VideoMixer.cpp"], ["P11", "P26", "P25"]),
 "split": ([M + "videoSplitter/VideoSplitter.cpp"], ["P12", "P26", "P25"]),
 "resamp": ([M + "videoResampler/VideoResampler.cpp"], ["P13", "P26", "P25"]),
 "slice": (["src/SlicedVideoFrameQueue.cpp"], ["P14", "P25"]),
 "enc": ([M + "videoEncoder/VideoEncoderX264or5.cpp", M + "videoEncoder/VideoEncoderX264.cpp", M + "videoEncoder/VideoEncoderX265.cpp"], ["P15", "P26", "P25"]),
 "shm": ([M + "sharedMemory/SharedMemory.cpp"], ["P16", "P25"]),
 "dashv": ([M + "dasher/DashVideoSegmenter.cpp", M + "dasher/DashVideoSegmenterAVC.cpp", M + "dasher/DashVideoSegmenterHEVC.cpp"], ["P17", "P19"]),
 "dasha": ([M + "dasher/DashAudioSegmenter.cpp"], ["P18", "P19"]),
 "dashl": ([M + "dasher/i2libdash.c", M + "dasher/i2libisoff.c"], ["P17", "P18"]),
 "dash": ([M + "dasher/Dasher.cpp"], ["P19", "P17", "P18", "P26", "P25"]),
 "mpd": ([M + "dasher/MpdManager.cpp"], ["P20", "P19"]),
 "pm": (["src/PipelineManager.cpp", "src/Path.cpp"], ["P21", "P22"]),
 "ctl": (["src/Controller.cpp"], ["P22", "P25"]),
 "json": (["src/Jzon.cpp"], ["P23", "P22"]),
 "sps": ([M + "transmitter/SPSparser/h264_stream.c", M + "transmitter/SPSparser/bs.h"], ["P24"]),
 "utils": (["src/Utils.cpp"], ["P26", "P21"]),
}
OPS = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>=!-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\breturn true\b", "return false"), (r"\breturn false\b", "return true"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[(&| ])!(?=[a-zA-Z(])", ""), (r"\+\+", ""), (r"\+=", "-="), (r"-=", "+="), (r"(?<=[ (=])0(?=[;,) ])", "1"), (r"(?<=[ (=])1(?=[;,) ])", "0"), (r"%", "/"), (r"<<", ">>"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue")]
def cands(f):
    out = []; comment = False; L = open(S + "/" + f).read().split("\n")
    for i, l in enumerate(L):
        s = l.strip()
        if "/*" in s and "*/" not in s: comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "/*", "case ", "default", "template", "class", "namespace", "using", "typedef", "printf")) or re.search(r"utils::\w+Msg|std::cerr|av_log|printf", s): continue
        if re.match(r"(static |const |virtual |inline )*[\w:<>*& ]+ [\w:~]+\([\w:<>*&, =.]*\)( const)?( *\{)?;?$", s) and not s.startswith(("return", "if", "else", "while", "delete")) and "=" not in s and not re.match(r"[\w.>-]+\(", s): continue
        for a, b in OPS:
            if "#include" in s or ("template" in s): continue
            for m in re.finditer(a, l):
                if a.startswith(("(?<![<>=!-])<", "(?<![>=!-])>")) and re.search(r"(vector|map|ptr|cast|pair|list|function|atomic|lock_guard|duration_cast|unique_lock|priority_queue|set|lock)\s*<", l): continue
                if l[:m.start()].count('"') % 2: continue
                out.append((f, i, l, l[:m.start()] + b + l[m.end():]))
        if re.match(r"^\s*(?!return|break|continue|throw|delete this|using|typedef|goto|const |static |extern )[\w:.>*\[\](-][^;{}]*;\s*$", l) and not re.match(r"^\s*(unsigned|int|bool|char|std::|uint\w+|size_t|float|double|auto|[A-Z]\w+\s*[*&]?\s+\*?\w+\s*[;=(])", l): out.append((f, i, l, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"^(\s*(?:\} else )?if )\((.*)\)( *\{?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out += [(f, i, l, m.group(1) + "(false && (" + m.group(2) + "))" + m.group(3)), (f, i, l, m.group(1) + "(true || (" + m.group(2) + "))" + m.group(3))]
    return [x for x in out if x[2] != x[3]]
def ns(cmd, t=240):
    try: return subprocess.run(["unshare", "-Urmi", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (S, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired: return None
def put(f, i, new):
    L = open(S + "/" + f).read().split("\n"); L[i] = new; open(S + "/" + f, "w").write("\n".join(L))
def clean(): subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
def main():
    name, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); files, checks = GROUPS[name]; rng = random.Random(seed); log = open("/tmp/mut/%s.jsonl" % name, "a")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); clean(); assert ns("bash /opt/vp/build.sh").returncode == 0
    C = [c for f in files for c in cands(f)]; rng.shuffle(C); done = 0; t0 = time.time(); seen = set(); tally = {}
    try:
        for f, i, old, new in C:
            if done >= n: break
            if (f, i) in seen: continue
            seen.add((f, i)); put(f, i, new); st = None; t = time.time(); r = ns("bash /opt/vp/build.sh")
            if r is None or r.returncode: st = "nobuild"
            else:
                x = "/tmp/mut/x-%s.json" % name
                try: os.unlink(x)
                except OSError: pass
                ns("bash /opt/vp/test.sh " + x)
                try: miss = stable - set(json.load(open(x))["passed"])
                except Exception: miss = stable
                if miss: st = "tests"
            if not st:
                done += 1; st = "SURVIVED"
                for p in checks:
                    r = subprocess.run(["python3", "check.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=S), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    if r.returncode == 1: st = "caught " + p; break
                    if r.returncode != 0: st = "error %s: %s" % (p, r.stdout[-300:]); break
            tally[st[:6]] = tally.get(st[:6], 0) + 1
            print(json.dumps(dict(f=f, line=i + 1, old=old.strip(), new=new.strip(), st=st, t=round(time.time() - t))), file=log, flush=True); clean()
    finally: clean()
    print(name, tally, round(time.time() - t0), flush=True)
main()
