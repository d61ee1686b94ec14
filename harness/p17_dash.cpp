// P17, P18, P19: the real Dasher fed with NAL units and AAC frames; everything it leaves in its
// folder is read back, parsed with a box parser of our own and compared with a model of the input.
#include "dash.hh"
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <signal.h>
using mod::us;
static std::string mode() { const char* e = getenv("VF_DASH"); return e ? e : "video"; }
// ---- crash points: in the plain flavour every file operation is a point at which somebody may look ----
static std::string crashDir, crashBase; static std::map<int, uint64_t> crashFrom; static thread_local bool inHook = false; static bool armed = false; static uint64_t points = 0, crashSegs = 0;
static void point(const char* op) { if (!armed || inHook) return; inHook = true; points++; std::string err; if (!clientView(crashDir, crashBase, err, crashFrom, &crashSegs)) vf::fail("crash-point", "seen at a file operation (%s): %s", op, err.c_str()); inHook = false; }
#ifdef VF_PLAIN
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE* fopen(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); point("before fopen"); FILE* r = f(p, m); point("after fopen"); return r; }
FILE* fopen64(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen64"); point("before fopen"); FILE* r = f(p, m); point("after fopen"); return r; }
int fclose(FILE* s) { static auto f = next<int (*)(FILE*)>("fclose"); point("before fclose"); int r = f(s); point("after fclose"); return r; }
ssize_t write(int fd, const void* b, size_t n) { static auto f = next<ssize_t (*)(int, const void*, size_t)>("write"); point("before write"); ssize_t r = f(fd, b, n); point("after write"); return r; }
ssize_t writev(int fd, const iovec* v, int n) { static auto f = next<ssize_t (*)(int, const iovec*, int)>("writev"); point("before write"); ssize_t r = f(fd, v, n); point("after write"); return r; }
int rename(const char* a, const char* b) { static auto f = next<int (*)(const char*, const char*)>("rename"); point("before rename"); int r = f(a, b); point("after rename"); return r; }
int remove(const char* a) { static auto f = next<int (*)(const char*)>("remove"); point("before remove"); int r = f(a); point("after remove"); return r; }
int unlink(const char* a) noexcept { static auto f = next<int (*)(const char*)>("unlink"); point("before unlink"); int r = f(a); point("after unlink"); return r; }
}
#endif

// ---- the model ----
struct S { Bytes b; int64_t pts, t; bool key; };           // t: decode time, or the presentation time where there is none
struct Done { std::vector<S> s; int64_t end; };
struct Video {
    int id; bool hevc; StreamInfo info; mod::Feed feed; VQ* q; Video(int i, bool h) : id(i), hevc(h), info(VIDEO), q(NULL) { info.video.codec = h ? H265 : H264; }
    S au; bool has = false, auParams = false; std::vector<Bytes> auSets, sets; int auW = 0, auH = 0, w = 0, h = 0, nw = 320, nh = 240; std::vector<S> cur; std::deque<Done> closed; bool initDone = false, initDirty = false; unsigned bitrate = 0, pubRate = 0; int pubW = 0, pubH = 0; int64_t lastSeq = -1; uint64_t from = 0; bool joined = false;
    // generator
    int64_t clock = 0, fd = 40000; int gop = 25, k = 0, bf = 0, delay = 0; int64_t gopBase = 0; bool noDts = false, aud = true; int slices = 1; std::deque<std::pair<Bytes, std::pair<int64_t, int64_t>>> out; size_t maxAu = 3000;
};
struct Audio {
    int id; StreamInfo info; mod::Feed feed; AQ* q; Audio(int i) : id(i), info(AUDIO), q(NULL) { info.audio.codec = AAC; info.audio.channels = 2; info.audio.sampleRate = 48000; }
    int rate = 48000, chan = 2, samples = 1024, profile = 1, sfi = 3; std::vector<S> cur; int64_t dur = 0; std::deque<std::vector<S>> closed; int64_t start = 0; uint64_t n = 0; unsigned bitrate = 0, pubRate = 0; int64_t lastSeq = -1; bool initDone = false; uint64_t from = 0; bool joined = false;
    int64_t next() const { return start + (int64_t)(n * samples * 1000000ull / rate); }
};
static const int RATES[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
struct World {
    vf::Ctx& c; vf::Rng& r; std::string dir, base; Probe* d; std::vector<std::unique_ptr<Video>> vs; std::vector<std::unique_ptr<Audio>> as; unsigned segDur, maxSeg; bool originSet = false; int64_t origin = 0; std::set<std::string> expected; std::set<std::string> orphans; bool mpd = false; Line vline, aline; std::map<std::string, uint64_t> sums; uint64_t cuts = 0, forced = 0, removedFiles = 0; bool wrote = false, lax = false; vf::Hash sig; int lastId = 10; bool anyId = false; std::set<int> usedIds;
    int newId() { int id; if (!anyId) return ++lastId; do id = (int)r.range(1, 90); while (!usedIds.insert(id).second); return id; }
    bool everA = false, everV = false; bool faulty = false;
    World(vf::Ctx& cc) : c(cc), r(cc.rng), d(NULL) {}
    int64_t tick(int64_t x, int64_t tb) const { __int128 v = (__int128)(x - origin) * tb; return (int64_t)(v / 1000000); }
    std::string path(const std::string& n) const { return dir + "/" + n; }
    std::string segName(int id, uint64_t t, bool v) const { return base + "_" + std::to_string(id) + "_" + std::to_string(t) + (v ? ".m4v" : ".m4a"); }
    std::string initName(int id, bool v) const { return base + "_" + std::to_string(id) + "_init" + (v ? ".m4v" : ".m4a"); }
    void open() { d = new Probe(); d->setId(1); VF_CHECK(!d->configure(dir, "", segDur, maxSeg, 4) && !d->configure(dir, base, 0, maxSeg, 4) && !d->configure(dir + "/none", base, segDur, maxSeg, 4), "configure", "an invalid configuration was accepted"); VF_CHECK(d->configure(dir, base, segDur, maxSeg, 4), "configure", "refused"); }
    Video* addVideo(bool hevc) { std::unique_ptr<Video> v(new Video(newId(), hevc)); Video* p = v.get(); p->feed.setId(100 + p->id); p->feed.mk = [this, p](ConnectionData cd) { return p->q = new VQ(cd, &p->info, 4, cap); }; if (!p->feed.connectOneToMany(d, p->id)) { vf::fail("connect", "video refused"); return NULL; } vs.push_back(std::move(v)); everV = true; return p; }
    Audio* addAudio() { std::unique_ptr<Audio> a(new Audio(newId())); Audio* p = a.get(); p->feed.setId(100 + p->id); p->feed.mk = [p](ConnectionData cd) { return p->q = new AQ(cd, &p->info, 4); }; if (!p->feed.connectOneToMany(d, p->id)) { vf::fail("connect", "audio refused"); return NULL; } as.push_back(std::move(a)); everA = true; return p; }
    unsigned cap = 20000;
    ~World() { delete d; }

    // ---- model of the video side ----
    void emit(Video& v) {          // the access unit collected in v.au is complete
        S a = v.au; v.has = false; if (a.b.empty()) return; v.au = S(); vf::count("access units"); v.w = v.auW; v.h = v.auH;
        if (v.auParams) { v.sets = v.auSets; v.initDirty = true; v.auParams = false; }
        if (a.key && !v.cur.empty()) { int64_t D = (int64_t)segDur * 12800, tot = tick(a.t, 12800) - tick(v.cur[0].t, 12800), last = tick(a.t, 12800) - tick(v.cur.back().t, 12800); bool close = tot + last >= D; if (close) { if (tot < D) vf::count("segments closed up to a picture early"); Done x; x.s.swap(v.cur); x.end = a.t; v.closed.push_back(x); v.pubRate = v.bitrate; v.pubW = v.w; v.pubH = v.h; sig.add(1).add(x.s.size()); } else vf::count("intra pictures inside segments"); }
        if (v.cur.empty() && !a.key) { vf::count("access units before the first intra"); return; }
        v.cur.push_back(a);
    }
    void nal(Video& v, const Bytes& n, int64_t pts, int64_t dts) {       // what one NAL unit means; n has no start code
        int64_t t = dts >= 0 && dts <= pts ? dts : pts; if (!originSet) { originSet = true; origin = t; } if (t < origin) { vf::count("units from before the session"); return; }
        if (n.empty()) return; int ty = v.hevc ? (n[0] >> 1) & 63 : n[0] & 31; bool slice, idr, set, other;
        if (v.hevc) { slice = ty <= 9 || (ty >= 16 && ty <= 21); idr = ty >= 16 && ty <= 21; set = ty >= 32 && ty <= 34; other = ty == 35 || ty == 39 || ty == 40; } else { slice = ty == 1 || ty == 5; idr = ty == 5; set = ty == 7 || ty == 8; other = ty == 6 || ty == 9; }
        if (!slice && !set && !other) return; bool audT = v.hevc ? ty == 35 : ty == 9;
        if (v.has && !v.au.b.empty() && (audT || t > v.au.t)) emit(v);
        if (set) { unsigned i = v.hevc ? ty - 32 : ty - 7; v.auSets.resize(v.hevc ? 3 : 2); v.auSets[i] = n; v.auParams = true; }
        if (slice && v.au.b.size() + 4 + n.size() > LENGTH_H264_FRAME) { vf::count("units that did not fit in a picture"); slice = false; }
        if (slice) { v.has = true; uint32_t L = (uint32_t)n.size(); uint8_t p[4] = { (uint8_t)(L >> 24), (uint8_t)(L >> 16), (uint8_t)(L >> 8), (uint8_t)L }; v.au.b.insert(v.au.b.end(), p, p + 4); v.au.b.insert(v.au.b.end(), n.begin(), n.end()); v.au.pts = pts; v.au.t = t; v.au.key = idr; v.auW = v.nw; v.auH = v.nh; }
    }
    void frame(Audio& a, const Bytes& payload, int64_t pts, bool valid) {
        if (!originSet) { originSet = true; origin = pts; } if (pts < origin) { vf::count("audio frames from before the session"); return; } if (!valid) return; a.initDone = true;
        if (vs.empty() && !a.cur.empty() && a.dur >= (int64_t)segDur * a.rate) { a.closed.push_back(a.cur); a.cur.clear(); a.dur = 0; a.pubRate = a.bitrate; }
        if (payload.empty()) return; S s; s.b = payload; s.pts = s.t = pts; s.key = true; a.cur.push_back(s); a.dur += a.samples; vf::count("audio frames");
    }
    void evict(Line& l, bool v) { while (l.size() >= std::max(2u, maxSeg)) { uint64_t t = l.front().first; l.erase(l.begin()); if (v) { for (auto& x : vs) { expected.erase(segName(x->id, t, true)); removedFiles++; } } else for (auto& x : as) { expected.erase(segName(x->id, t, false)); removedFiles++; } } }
    // after a processing step: what must be on disk now
    void settle() {
        wrote = false; for (auto& v : vs) if (v->initDirty && !v->initDone) { v->initDone = true; expected.insert(initName(v->id, true)); } for (auto& a : as) if (a->initDone) expected.insert(initName(a->id, false));
        bool all = !vs.empty(); for (auto& v : vs) if (v->closed.empty()) all = false;
        if (all) for (auto& a : as) if (!a->cur.empty()) { a->closed.push_back(a->cur); a->cur.clear(); a->dur = 0; a->pubRate = a->bitrate; forced++; }
        Mpd m; bool parsed = false; auto look = [&]() { if (parsed) return true; Bytes f; std::string err; if (!slurp(path(base + ".mpd"), f)) { vf::fail("manifest", "there is no manifest although a segment is due"); return false; } if (!parseMpd(f, m, err)) { vf::fail("manifest", "%s", err.c_str()); return false; } parsed = true; return true; };
        if (all && look()) { wrote = mpd = true; cut(m, true); }
        bool aall = !as.empty(); for (auto& a : as) if (a->closed.empty()) aall = false;
        if (aall && !vf::failed() && look()) { wrote = mpd = true; cut(m, false); }
        if (vf::failed()) return;
        if (mpd) expected.insert(base + ".mpd");
        std::set<std::string> got = list(dir); for (auto& e : expected) if (!got.count(e) && !orphans.count(e)) { vf::fail("missing", "%s is missing", e.c_str()); return; } for (auto& g : got) if (!expected.count(g) && !orphans.count(g)) { vf::fail("stale", "%s should not be there (%zu files, window of %u)", g.c_str(), got.size(), maxSeg); return; }
        if (wrote) manifest(m);
        for (auto& v : vs) if (v->initDirty && !vf::failed()) { v->initDirty = false; checkInit(*v); }
    }
    // ---- without a model of the contents: what must hold whatever the input is ----
    std::map<int, uint64_t> from; std::map<int, std::string> initSum; bool chaos = false, unordered = false; Line lastLine[2]; std::map<std::string, uint64_t> foreign; std::string sub; std::set<std::string> leftover;
    void loose() {
        std::string err; uint64_t n = 0; Bytes f; if (!slurp(path(base + ".mpd"), f)) { if (!lastLine[0].empty() || !lastLine[1].empty()) vf::fail("manifest", "the manifest is gone"); return; } Mpd m; if (!parseMpd(f, m, err)) { vf::fail("manifest", "%s", err.c_str()); return; }
        for (int k = 0; k < 2; k++) { Line l; if (m.sets.count(k ? "1" : "0")) { Set& s = m.sets[k ? "1" : "0"]; l = s.line; if (l != lastLine[k] && !l.empty()) { vf::count("timeline changes"); sig.add(l.size()).add(s.reps.size()); for (auto& r : s.reps) if (from.count(r.first) && from[r.first] == UINT64_MAX) { bool mine = false; for (auto& v : vs) if (v->id == r.first) mine = true; for (auto& a : as) if (a->id == r.first) mine = true; if (!mine) { vf::fail("manifest", "representation %d was removed", r.first); return; } Bytes b; if (slurp(path(segName(r.first, l.back().first, !k)), b)) from[r.first] = l.back().first; } for (size_t i = 1; i < l.size() && !unordered && !chaos; i++) if (l[i].first <= l[i - 1].first) { vf::fail("timeline", "start time %llu follows %llu", (unsigned long long)l[i].first, (unsigned long long)l[i - 1].first); return; } VF_CHECK(l.size() <= std::max(2u, maxSeg), "window", "%zu segments are listed in a window of %u", l.size(), maxSeg); }
            for (auto& r : s.reps) { bool mine = false; if (!k) { for (auto& v : vs) if (v->id == r.first) mine = true; } else for (auto& a : as) if (a->id == r.first) mine = true; if (!mine) { vf::fail("manifest", "representation %d was removed", r.first); return; } if (!faulty && !chaos) for (auto& g : list(dir)) { std::string pre = base + "_" + std::to_string(r.first) + "_", ext = k ? ".m4a" : ".m4v"; if (g.compare(0, pre.size(), pre) || g.find("_init") != std::string::npos || leftover.count(g)) continue; uint64_t t = strtoull(g.c_str() + pre.size(), NULL, 10); bool in = false; for (auto& e : l) if (e.first == t) in = true; VF_CHECK(in, "stale", "%s is not in the window any more", g.c_str()); } } }
            lastLine[k] = l; }
        if (!vf::failed() && !clientView(dir, base, err, from, &n)) vf::fail("client", "%s", err.c_str()); vf::count("listed segments read back", n); vf::count("looks from outside");
        for (auto& g : list(dir)) { if (g.size() > 4 && g.substr(g.size() - 4) == ".tmp") vf::fail("stale", "%s was left behind", g.c_str()); if (g.compare(0, base.size(), base) && !foreign.count(g)) vf::fail("foreign", "%s was created", g.c_str()); }
        for (auto& e : foreign) { Bytes b; if (!slurp(path(e.first), b) || vf::Hash().add(b.data(), b.size()).h != e.second) { vf::fail("foreign", "%s was changed or removed", e.first.c_str()); break; } }
    }
    void own() { foreign.clear(); for (auto& g : list(dir)) { Bytes b; if (slurp(path(g), b)) foreign[g] = vf::Hash().add(b.data(), b.size()).h; } }
    void cut(Mpd& m, bool video) {
        const char* sid = video ? "0" : "1"; Line& line = video ? vline : aline; if (!m.sets.count(sid)) { vf::fail("manifest", "the manifest has no %s set", video ? "video" : "audio"); return; } Set& s = m.sets[sid]; evict(line, video); cuts++;
        if (s.line.size() != line.size() + 1) { vf::fail("timeline", "the %s timeline lists %zu segments, %zu expected", video ? "video" : "audio", s.line.size(), line.size() + 1); return; } std::pair<uint64_t, uint64_t> now = s.line.back();
        if (!line.empty() && now.first <= line.back().first) vf::fail("timeline", "start time %llu follows %llu", (unsigned long long)now.first, (unsigned long long)line.back().first); line.push_back(now);
        bool first = true; if (video) for (auto& v : vs) { Done x = v->closed.front(); v->closed.pop_front(); segment(v->id, true, now, x.s, x.end, 12800, first, v->lastSeq, v->from, v->joined); first = false; } else for (auto& a : as) { std::vector<S> x = a->closed.front(); a->closed.pop_front(); segment(a->id, false, now, x, 0, a->rate, first, a->lastSeq, a->from, a->joined, a->samples); first = false; }
    }
    void segment(int id, bool video, std::pair<uint64_t, uint64_t> now, const std::vector<S>& s, int64_t end, int64_t tb, bool first, int64_t& lastSeq, uint64_t& from, bool& joined, int samples = 0) {
        if (!joined) { joined = true; from = now.first; } std::string name = segName(id, now.first, video), err; Bytes f; if (!slurp(path(name), f)) { vf::fail("missing", "segment %s is missing", name.c_str()); return; } expected.insert(name); sums[name] = vf::Hash().add(f.data(), f.size()).h; Seg g; if (!parseSeg(f, video, g, err)) { vf::fail("malformed", "%s: %s", name.c_str(), err.c_str()); return; }
        vf::count(video ? "video segments" : "audio segments"); vf::count(video ? "video samples" : "audio samples", g.s.size()); auto near = [](uint64_t a, int64_t b) { return a + 1 >= (uint64_t)b && a <= (uint64_t)b + 1; };
        if (!lax) { if (g.s.size() != s.size()) { vf::fail("samples", "%s has %zu samples, %zu went in", name.c_str(), g.s.size(), s.size()); return; } for (size_t i = 0; i < s.size(); i++) if (g.s[i].b != s[i].b) { vf::fail("samples", "sample %zu of %zu of %s has %zu bytes that are not the %zu that went in", i, s.size(), name.c_str(), g.s[i].b.size(), s[i].b.size()); return; } }
        else { size_t j = 0, kept = 0; for (auto& x : g.s) { while (j < s.size() && s[j].b != x.b) j++; if (j == s.size()) { vf::fail("samples", "a sample of %s is none of those that went in", name.c_str()); return; } j++; kept += x.b.size(); } size_t lost = s.size() - g.s.size(); if (lost) { vf::count("samples that did not fit", lost); VF_CHECK(kept > 5u * 1024 * 1024 || g.s.size() > 30000, "capacity", "%zu samples lost although only %zu bytes in %zu samples are stored", lost, kept, g.s.size()); } return; }
        VF_CHECK(g.scale == tb, "timescale", "%s: sidx timescale %u", name.c_str(), g.scale); uint64_t sum = 0; for (auto& x : g.s) sum += x.dur; VF_CHECK(g.subDur == sum && (!first || now.second == sum), "duration", "%s: samples last %llu, sidx says %u, the manifest %llu", name.c_str(), (unsigned long long)sum, g.subDur, (unsigned long long)now.second);
        VF_CHECK((int64_t)g.seq > lastSeq, "sequence", "%s: sequence number %u after %lld", name.c_str(), g.seq, (long long)lastSeq); lastSeq = g.seq; VF_CHECK(near(g.ept, tick(s[0].pts, tb)), "start", "%s: presentation starts at %llu, its first picture at %lld", name.c_str(), (unsigned long long)g.ept, (long long)tick(s[0].pts, tb)); VF_CHECK(near(g.tfdt, tick(s[0].t, tb)), "start", "%s: decoding starts at %llu, its first picture at %lld", name.c_str(), (unsigned long long)g.tfdt, (long long)tick(s[0].t, tb)); VF_CHECK(!first || now.first == g.ept, "start", "the manifest says %llu, %s starts at %llu", (unsigned long long)now.first, name.c_str(), (unsigned long long)g.ept);
        if (video) { uint64_t at = g.tfdt; for (size_t i = 0; i < s.size(); i++) { int64_t want = tick(i + 1 < s.size() ? s[i + 1].t : end, tb); VF_CHECK(near(at, tick(s[i].t, tb)) && near(at + g.s[i].cto, tick(s[i].pts, tb)), "times", "sample %zu of %s is decoded at %llu and shown at %llu, it went in with %lld and %lld", i, name.c_str(), (unsigned long long)at, (unsigned long long)(at + g.s[i].cto), (long long)tick(s[i].t, tb), (long long)tick(s[i].pts, tb)); at += g.s[i].dur; (void)want; if ((g.s[i].flags >> 16 & 1) == (unsigned)s[i].key) vf::fail("sync", "sample %zu of %s is %sintra but flagged %08x", i, name.c_str(), s[i].key ? "" : "not ", g.s[i].flags); if (vf::failed()) return; } VF_CHECK(near(at, tick(end, tb)), "duration", "%s ends at %llu, the next picture is at %lld", name.c_str(), (unsigned long long)at, (long long)tick(end, tb)); VF_CHECK(s[0].key, "intra", "%s does not start with an intra picture", name.c_str()); }
        else for (size_t i = 0; i < g.s.size(); i++) if ((int)g.s[i].dur != samples) { vf::fail("duration", "sample %zu of %s lasts %u of %d", i, name.c_str(), g.s[i].dur, samples); break; }
    }
    void manifest(Mpd& m) {
        auto cmp = [&](Set& s, Line& l, const char* what) { if (s.line != l) vf::fail("timeline", "the %s timeline lists other segments than were cut", what); };
        if (m.sets.count("0")) { Set& s = m.sets["0"]; cmp(s, vline, "video"); VF_CHECK(s.tmpl["timescale"] == "12800" && s.a["mimeType"] == "video/mp4" && s.tmpl["media"] == base + "_$RepresentationID$_$Time$.m4v" && s.tmpl["initialization"] == base + "_$RepresentationID$_init.m4v", "manifest", "video set attributes"); for (auto& x : s.reps) { Video* v = NULL; for (auto& y : vs) if (y->id == x.first) v = y.get(); if (!v) { vf::fail("manifest", "representation %d does not exist", x.first); return; } VF_CHECK(atoi(x.second.a["bandwidth"].c_str()) == (int)v->pubRate && x.second.a["codecs"] == (v->hevc ? "hev1" : "avc1.42c01e") && atoi(x.second.a["width"].c_str()) == v->pubW && atoi(x.second.a["height"].c_str()) == v->pubH, "manifest", "representation %d is described as %s %sx%s at %s, it is %s %dx%d at %u", x.first, x.second.a["codecs"].c_str(), x.second.a["width"].c_str(), x.second.a["height"].c_str(), x.second.a["bandwidth"].c_str(), v->hevc ? "hev1" : "avc1", v->pubW, v->pubH, v->pubRate); }
            for (auto& y : vs) VF_CHECK(s.reps.count(y->id) || !y->joined, "manifest", "representation %d is not listed", y->id); for (size_t i = 1; i < s.line.size(); i++) VF_CHECK(vs.size() != 1 || llabs((long long)(s.line[i - 1].first + s.line[i - 1].second - s.line[i].first)) <= 1 || jitter || changed, "timeline", "segment at %llu lasting %llu is followed by one at %llu", (unsigned long long)s.line[i - 1].first, (unsigned long long)s.line[i - 1].second, (unsigned long long)s.line[i].first); }
        if (m.sets.count("1") && !as.empty()) { Set& s = m.sets["1"]; cmp(s, aline, "audio"); VF_CHECK(s.tmpl["timescale"] == std::to_string(as.back()->rate) || as.size() > 1, "manifest", "audio timescale is %s, not %d", s.tmpl["timescale"].c_str(), as[0]->rate); for (auto& x : s.reps) { Audio* a = NULL; for (auto& y : as) if (y->id == x.first) a = y.get(); if (!a) { vf::fail("manifest", "representation %d does not exist", x.first); return; } VF_CHECK(atoi(x.second.a["audioSamplingRate"].c_str()) == a->rate && x.second.channels == a->chan && atoi(x.second.a["bandwidth"].c_str()) == (int)a->pubRate && x.second.a["codecs"] == "mp4a.40.2", "manifest", "audio representation %d is described as %s Hz, %d channels at %s, it has %d Hz, %d channels at %u", x.first, x.second.a["audioSamplingRate"].c_str(), x.second.channels, x.second.a["bandwidth"].c_str(), a->rate, a->chan, a->pubRate); }
            for (size_t i = 1; i < s.line.size(); i++) { int64_t e = (int64_t)(s.line[i - 1].first + s.line[i - 1].second) - (int64_t)s.line[i].first; VF_CHECK((e >= -1 && e <= 1) || gaps || changed, "timeline", "audio segment at %llu lasting %llu is followed by one at %llu", (unsigned long long)s.line[i - 1].first, (unsigned long long)s.line[i - 1].second, (unsigned long long)s.line[i].first); } }
    }
    bool jitter = false, gaps = false, changed = false;
    void checkInit(Video& v) {
        Bytes f; std::string err; Init in; if (!slurp(path(initName(v.id, true)), f) || !parseInit(f, in, err)) { vf::fail("init", "video init segment: %s", err.empty() ? "unreadable" : err.c_str()); return; } VF_CHECK(in.scale == 12800 && in.w == (unsigned)v.w && in.h == (unsigned)v.h && in.fourcc == (v.hevc ? "hev1" : "avc1"), "init", "init segment says %s %ux%u timescale %u, the stream is %dx%d", in.fourcc.c_str(), in.w, in.h, in.scale, v.w, v.h); vf::count("init segments");
        const Bytes& b = in.cfg; size_t at; std::vector<Bytes> found; if (!v.hevc) { VF_CHECK(b.size() > 6 && b[0] == 1 && (b[4] & 3) == 3 && (b[5] & 31) == 1, "init", "avcC header"); if (b.size() < 8) return; const Bytes& s = v.sets[0]; if (memcmp(&b[1], &s[1], 3) && (mode() == "video" || memcmp(&b[1], &s[0], 3))) { if (!memcmp(&b[1], &s[0], 3)) vf::finding("avcc-profile", "avcC announces profile %02x%02x%02x, the parameter set has %02x%02x%02x", b[1], b[2], b[3], s[1], s[2], s[3]); else vf::fail("init", "avcC announces profile %02x%02x%02x, the parameter set has %02x%02x%02x", b[1], b[2], b[3], s[1], s[2], s[3]); } at = 6; for (int i = 0; i < 2; i++) { if (i) { if (at >= b.size() || b[at] != 1) break; at++; } if (at + 2 > b.size()) break; size_t L = u16(&b[at]); at += 2; if (at + L > b.size()) break; found.push_back(Bytes(b.begin() + at, b.begin() + at + L)); at += L; } }
        else { VF_CHECK(b.size() > 23 && b[0] == 1 && (b[21] & 3) == 3 && b[22] == 3, "init", "hvcC header"); at = 23; for (int i = 0; i < 3 && at + 5 <= b.size(); i++) { VF_CHECK((b[at] & 63) == 32 + i && u16(&b[at + 1]) == 1, "init", "hvcC array %d", i); size_t L = u16(&b[at + 3]); at += 5; if (at + L > b.size()) break; found.push_back(Bytes(b.begin() + at, b.begin() + at + L)); at += L; } }
        VF_CHECK(found == v.sets && at == b.size(), "init", "the init segment does not carry the current parameter sets");
    }
    void checkInit(Audio& a) {
        Bytes f; std::string err; Init in; if (!slurp(path(initName(a.id, false)), f) || !parseInit(f, in, err)) { vf::fail("init", "audio init segment: %s", err.empty() ? "unreadable" : err.c_str()); return; } vf::count("init segments"); int cc = a.chan == 8 ? 7 : a.chan; uint8_t want[2] = { (uint8_t)((a.profile + 1) << 3 | a.sfi >> 1), (uint8_t)(a.sfi << 7 | cc << 3) }; VF_CHECK(in.scale == (uint32_t)a.rate && in.ch == (unsigned)a.chan, "init", "init segment says %u channels, timescale %u; the stream has %d at %d Hz", in.ch, in.scale, a.chan, a.rate); const Bytes& b = in.cfg; VF_CHECK(b.size() == 4 + 2 + 3 + 2 + 13 + 2 + 2 + 3 && b[4] == 3 && b[9] == 4 && b[11] == 0x40 && b[24] == 5 && b[25] == 2, "init", "esds layout"); if (b.size() >= 28) VF_CHECK(b[26] == want[0] && b[27] == want[1], "init", "decoder configuration %02x %02x, the stream's headers say %02x %02x (%d channels)", b[26], b[27], want[0], want[1], a.chan);
    }
    // ---- feeding ----
    bool exact = false;
    bool putV(Video& v, const Bytes& withSc, int64_t pts, int64_t dts) { if (exact || withSc.size() > cap) v.q->fit(withSc.size()); Frame* f = v.q->getRear(); if (!f) { vf::fail("feed", "queue full"); return false; } VideoFrame* x = dynamic_cast<VideoFrame*>(f); x->setSize(v.nw, v.nh); if (!withSc.empty()) memcpy(f->getDataBuf(), withSc.data(), withSc.size()); f->setLength(withSc.size()); f->setPresentationTime(us(pts)); f->setDecodeTime(us(dts)); f->setSequenceNumber(0); v.q->addFrame(); return true; }
    bool putA(Audio& a, const Bytes& b, int64_t pts) { Frame* f = a.q->getRear(); if (!f) { vf::fail("feed", "queue full"); return false; } AudioFrame* x = dynamic_cast<AudioFrame*>(f); x->setChannels(a.chan); x->setSampleRate(a.rate); x->setSamples(a.samples); if (!b.empty()) memcpy(f->getDataBuf(), b.data(), b.size()); f->setLength(b.size()); f->setPresentationTime(us(pts)); f->setDecodeTime(NO_DTS); a.q->addFrame(); return true; }
    Bytes nalu(Video& v, int type, size_t n) { Bytes b(std::max<size_t>(n, 1)); vf::Rng g(r.u64(), 3); for (auto& x : b) x = (uint8_t)g.u64(); if (v.hevc) b[0] = (uint8_t)(type << 1 | (b[0] & 1)); else b[0] = (uint8_t)((b[0] & 0x60) | type); for (size_t i = 1; i < std::min<size_t>(b.size(), 4); i++) if (b[i] < 2) b[i] += 2; return b; }
    // queue the NAL units of the next access unit of v
    void nextAu(Video& v) {
        bool intra = v.k % v.gop == 0; int64_t dts, pts; if (intra) v.gopBase = v.clock; int j = v.k % v.gop;
        dts = v.clock; if (v.bf && !v.noDts) { int m = v.bf + 1, g = (j - 1) / m, o = (j - 1) % m, disp = j == 0 || g * m + m > v.gop - 1 ? j : o ? j - 1 : g * m + m; pts = v.gopBase + disp * v.fd + v.fd; } else pts = dts + v.delay; if (pts < dts) pts = dts; if (v.noDts) { pts = v.clock; dts = -1; }
        auto put = [&](int type, size_t n) { Bytes b = nalu(v, type, n); Bytes sc; int k = (int)r.below(8); if (k < 5) sc = { 0, 0, 0, 1 }; else sc = { 0, 0, 1 }; sc.insert(sc.end(), b.begin(), b.end()); v.out.push_back({ sc, { pts, dts } }); };
        bool sets = intra && (v.k == 0 || r.chance(2, 3)); if (sets && v.k && r.chance(1, 4)) v.out.push_back({ Bytes(), { -7, 0 } });
        if (v.aud) put(v.hevc ? 35 : 9, 2); if (sets) { if (v.hevc) put(32, 4 + r.below(20)); put(v.hevc ? 33 : 7, 4 + r.below(40)); put(v.hevc ? 34 : 8, 2 + r.below(10)); } if (r.chance(1, 4)) put(v.hevc ? 39 : 6, 1 + r.below(30)); if (r.chance(1, 15)) put(v.hevc ? r.pick({ 36, 41, 48, 63, 22, 10 }) : r.pick({ 0, 2, 10, 11, 12, 13, 24, 31 }), 1 + r.below(30)); if (r.chance(1, 30)) v.out.push_back({ r.chance(1, 2) ? Bytes() : Bytes({ 0, 0, 0, 1 }), { pts, dts } });
        int ns = r.chance(1, 3) ? (int)r.range(1, 5) : v.slices; int ty = intra ? (v.hevc ? r.pick({ 19, 20, 21, 16, 17, 18 }) : 5) : (v.hevc ? r.pick({ 0, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }) : 1); if (v.hevc && !everyType) { if (intra) ty = r.pick({ 19, 20, 21 }); else ty = r.pick({ 0, 1 }); }
        for (int i = 0; i < ns; i++) put(ty, r.chance(1, 10) ? 1 + r.below(4) : 1 + r.below(v.maxAu)); if (v.hevc && r.chance(1, 5)) put(40, 1 + r.below(20));
        v.k++; v.clock += v.fd; if (jitter && r.chance(1, 6)) v.clock += (int64_t)r.below(r.chance(1, 12) ? 9000000 : 30000); if (j == v.gop - 1 && vs.size() == 1 && !lax && r.chance(1, 5)) v.gop = (int)r.range(1, 40), v.k = 0;
    }
    bool everyType = true;
    // one NAL unit of v through the filter
    void stepV(Video& v) {
        while (v.out.empty()) nextAu(v); auto x = v.out.front(); v.out.pop_front(); if (x.second.first == -7 && x.first.empty()) { v.nw = 16 * (int)r.range(1, 240); v.nh = 16 * (int)r.range(1, 135); return; }
        if (!putV(v, x.first, x.second.first, x.second.second)) return; size_t sc = x.first.size() >= 4 && !x.first[0] && !x.first[1] && !x.first[2] && x.first[3] == 1 ? 4 : x.first.size() >= 3 && !x.first[0] && !x.first[1] && x.first[2] == 1 ? 3 : 0; stepped.push_back([this, &v, x, sc]() { nal(v, Bytes(x.first.begin() + sc, x.first.end()), x.second.first, x.second.second); });
    }
    void stepA(Audio& a) {
        int64_t pts = a.next(); Bytes b(7); int cc = a.chan == 8 ? 7 : a.chan; b[0] = 0xFF; b[1] = 0xF1; b[2] = (uint8_t)(a.profile << 6 | a.sfi << 2 | cc >> 2); b[3] = (uint8_t)((cc & 3) << 6); size_t n = 1 + r.below(r.chance(1, 30) ? 8184 : 400); Bytes pl(n); for (auto& x : pl) x = (uint8_t)r.u64();
        if (r.chance(1, 40)) { Bytes bad = b; int k = (int)r.below(4); if (k == 0) bad.resize(r.below(7)); else if (k == 1) { bad[0] = 0; bad.insert(bad.end(), pl.begin(), pl.end()); } else if (k == 2) { bad[1] = 0xE1; bad.insert(bad.end(), pl.begin(), pl.end()); } if (!putA(a, bad, pts)) return; bool ok = k == 3; stepped.push_back([this, &a, pts, ok]() { frame(a, Bytes(), pts, ok); }); vf::count("invalid audio frames"); return; }
        b.insert(b.end(), pl.begin(), pl.end()); if (!putA(a, b, pts)) return; a.n++; if (gaps && r.chance(1, 40)) { a.start += (int64_t)r.below(3000000); } stepped.push_back([this, &a, pl, pts]() { frame(a, pl, pts, true); });
    }
    std::vector<std::function<void()>> stepped;
    void go() { d->step(); for (auto& f : stepped) f(); stepped.clear(); settle(); }
    void finish() { for (auto& e : sums) if (expected.count(e.first) && !vf::failed()) { Bytes f; if (!slurp(path(e.first), f)) vf::fail("missing", "%s is missing", e.first.c_str()); else VF_CHECK(vf::Hash().add(f.data(), f.size()).h == e.second, "altered", "%s changed after it was published", e.first.c_str()); } for (auto& a : as) if (a->initDone && !vf::failed()) checkInit(*a); vf::count("segments cut", cuts); vf::count("audio segments forced with video", forced); vf::count("files removed from the window", removedFiles); vf::distinct(sig.h); }
};
static std::string scratch(vf::Ctx& c) { std::string d = c.dir + "/dash"; mkdir(d.c_str(), 0700); for (auto& f : list(d)) { std::string p = d + "/" + f; unlink(p.c_str()); } return d; }
static void clean(const std::string& d) { for (auto& f : list(d)) { std::string p = d + "/" + f; unlink(p.c_str()); } }
static void setBitrate(World& w, int id, int v) { Jzon::Object p; p.Add("id", id); p.Add("bitrate", v); mod::event(*w.d, "setBitrate", p); }

static void videoCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w(c); w.dir = scratch(c); w.base = r.pick({ std::string("test"), std::string("a b&c"), std::string("x_1") }); w.segDur = (unsigned)r.range(1, 4); w.maxSeg = (unsigned)r.range(0, 6); unsigned n = r.chance(1, 2) ? 1 : (unsigned)r.range(2, 3); w.jitter = n == 1 && r.chance(1, 2); w.everyType = r.chance(1, 2); w.open(); int64_t t0 = r.chance(1, 5) ? 0 : (int64_t)r.below(r.chance(1, 2) ? 10000000 : 1ull << 50); int64_t fd = r.pick({ 40000, 33333, 20000, 41708, 100000, 16667 }); int gop = n == 1 ? (int)r.range(1, 60) : 0; if (n > 1) for (;;) { gop = (int)r.range(1, 60); int64_t D = (int64_t)w.segDur * 1000000, k = (D - fd - 200 + gop * fd - 1) / (gop * fd); if (k * gop * fd >= D - 100) break; } 
    bool aud = r.chance(2, 3); for (unsigned i = 0; i < n; i++) { Video* v = w.addVideo(r.chance(1, 2)); if (!v) return; v->clock = t0; v->fd = fd; v->gop = gop; v->bf = r.chance(1, 3) ? (int)r.range(1, 3) : 0; v->noDts = !v->bf && r.chance(1, 3); v->delay = v->bf || v->noDts ? 0 : (int)r.below(2) * (int)r.below(100000); v->aud = v->bf ? true : aud; v->slices = (int)r.range(1, 4); v->maxAu = r.chance(1, 8) ? 19000 : 600; if (n > 1) v->delay = 0, v->bf = 0, v->noDts = false; if (r.chance(1, 3)) v->k = (int)r.range(1, v->gop), v->gopBase = t0; if (n > 1) v->k = 0; if (v->k && v->k % v->gop) v->k = v->gop - (int)r.below(std::min(v->gop, 10)); }
    unsigned steps = (unsigned)r.range(150, c.thorough ? 5000 : 900); for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        if (r.chance(1, 60)) { Video& v = *w.vs[r.below(n)]; bool known = r.chance(4, 5); int b = (int)r.below(10000000); setBitrate(w, known ? v.id : 999, b); if (known) v.bitrate = b; }
        // representations advance together to within less than a segment
        Video* lo = w.vs[0].get(); for (auto& v : w.vs) if (v->clock < lo->clock) lo = v.get(); Video& v = r.chance(1, 2) ? *lo : *w.vs[r.below(n)]; if (v.clock - lo->clock > 300000 && v.out.empty()) { w.stepV(*lo); } else w.stepV(v); w.go(); }
    w.finish(); vf::count("video cases");
    if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u video representations, %u s segments of %lld us pictures in groups of %d, %llu cuts", (unsigned long long)c.idx, n, w.segDur, (long long)fd, gop, (unsigned long long)w.cuts)); clean(w.dir);
}

static int64_t start(vf::Rng& r) { return r.chance(1, 5) ? 0 : (int64_t)r.below(r.chance(1, 2) ? 10000000 : 1ull << 50); }
static void audioFormat(vf::Rng& r, Audio& a) { a.sfi = (int)r.below(13); if (r.chance(1, 2)) a.sfi = (int)r.range(3, 4); a.rate = RATES[a.sfi]; a.chan = r.pick({ 1, 2, 3, 4, 5, 6, 8, 2 }); a.profile = (int)r.range(0, 3); a.samples = r.pick({ 1024, 1024, 960, 2048 }); }
static void audioCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w(c); w.dir = scratch(c); w.base = r.pick({ std::string("test"), std::string("<a>\"") }); w.segDur = (unsigned)r.range(1, 4); w.maxSeg = (unsigned)r.range(0, 6); w.open(); unsigned n = r.chance(1, 2) ? 1 : 2; w.gaps = n == 1 && r.chance(1, 2); int64_t t0 = start(r); Audio f(0); audioFormat(r, f);
    for (unsigned i = 0; i < n; i++) { Audio* a = w.addAudio(); if (!a) return; a->sfi = f.sfi; a->rate = f.rate; a->samples = f.samples; a->profile = f.profile; a->chan = i ? r.pick({ 1, 2, 6 }) : f.chan; a->start = t0; }
    unsigned steps = (unsigned)r.range(100, c.thorough ? 3000 : 600); if (f.rate < 16000) steps = steps / 2; if (f.rate > 50000) steps *= 2;
    for (unsigned s = 0; s < steps && !vf::failed(); s++) { if (r.chance(1, 60)) { Audio& a = *w.as[r.below(n)]; int b = (int)r.below(500000); setBitrate(w, a.id, b); a.bitrate = b; } if (n == 1 && r.chance(1, 150)) w.as[0]->chan = r.pick({ 1, 2, 6, 8 }); if (r.chance(1, 300)) { Audio& a = *w.as[r.below(n)]; int64_t old = a.start; uint64_t on = a.n; if (t0 > 0) { a.start = 0; a.n = 0; if (a.next() < w.origin) { int64_t p = a.next(); Bytes b = { 0xFF, 0xF1, 0x50, 0x80, 0, 0, 0, 1, 2 }; if (w.putA(a, b, p)) w.stepped.push_back([&w, &a, p]() { w.frame(a, Bytes({ 1, 2 }), p, true); }); a.start = old; a.n = on; w.go(); continue; } a.start = old; a.n = on; } }
        if (n == 1) w.stepA(*w.as[0]); else { Audio* lo = w.as[0].get(); if (w.as[1]->next() < lo->next()) lo = w.as[1].get(); w.stepA(*lo); Audio& o = lo == w.as[0].get() ? *w.as[1] : *w.as[0]; if (r.chance(2, 3) && o.next() - lo->next() < 300000) w.stepA(o); } w.go(); }
    w.finish(); vf::count("audio cases"); if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u audio representations at %d Hz, %u s segments, %llu cuts", (unsigned long long)c.idx, n, f.rate, w.segDur, (unsigned long long)w.cuts)); clean(w.dir);
}
static void bothCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w(c); w.dir = scratch(c); w.base = "both"; w.segDur = (unsigned)r.range(1, 3); w.maxSeg = (unsigned)r.range(0, 6); w.everyType = true; w.open(); int64_t t0 = start(r); Audio f(0); audioFormat(r, f); unsigned na = (unsigned)r.range(1, 2); w.gaps = true;
    bool audioFirst = r.chance(1, 2); auto addA = [&]() { for (unsigned i = 0; i < na; i++) { Audio* a = w.addAudio(); if (!a) return; a->sfi = f.sfi; a->rate = f.rate; a->samples = f.samples; a->profile = f.profile; a->chan = f.chan; a->start = t0; } }; if (audioFirst) addA(); Video* v = w.addVideo(r.chance(1, 2)); if (!v) return; if (!audioFirst) addA(); v->clock = t0; v->fd = r.pick({ 40000, 33333, 100000 }); v->gop = (int)r.range(1, 40); v->bf = r.chance(1, 3) ? 2 : 0; v->noDts = !v->bf && r.chance(1, 3); v->slices = (int)r.range(1, 3); v->maxAu = 300;
    w.gaps = false; bool gaps = r.chance(1, 2); unsigned steps = (unsigned)r.range(150, c.thorough ? 3000 : 700); if (vf::failed()) return;
    for (unsigned s = 0; s < steps && !vf::failed(); s++) { for (auto& a : w.as) for (int k = 0; k < 400 && a->next() <= v->clock && !vf::failed(); k++) { w.gaps = gaps; w.stepA(*a); w.gaps = true; w.go(); } bool some = true; for (auto& a : w.as) if (a->cur.empty()) some = false; w.gaps = true; if (!some) { for (auto& a : w.as) w.stepA(*a); w.go(); continue; } w.stepV(*v); if (r.chance(1, 3)) for (auto& a : w.as) w.stepA(*a); w.go(); }
    w.finish(); vf::count("audio and video cases"); if (c.idx < 3) vf::sample(vf::fmt("case %llu: video and %u audio representations at %d Hz, %llu cuts, %llu audio segments forced", (unsigned long long)c.idx, na, f.rate, (unsigned long long)w.cuts, (unsigned long long)w.forced)); clean(w.dir);
}
// pictures and frames that do not fit in a segment
static void bigCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w(c); w.dir = scratch(c); w.base = "big"; w.maxSeg = 7; w.lax = true; bool audio = r.chance(1, 4); w.segDur = audio ? 12 : (unsigned)r.range(1, 3); w.open(); uint64_t size = 0;
    if (audio) { Audio* a = w.addAudio(); if (!a) return; a->sfi = 0; a->rate = 96000; a->samples = 16; unsigned n = 72000 + (unsigned)r.below(4000), maxB = r.pick({ 30, 400 }); std::vector<Bytes> in; for (unsigned i = 0; i < n && !vf::failed(); i++) { Bytes b = { 0xFF, 0xF1, 0x40, 0x80, 0, 0, 0 }; Bytes pl(1 + r.below(maxB)); for (auto& x : pl) x = (uint8_t)r.u64(); b.insert(b.end(), pl.begin(), pl.end()); in.push_back(pl); if (!w.putA(*a, b, (int64_t)(i * 16 * 1000000ull / 96000))) return; w.d->step(); }
        Bytes f; Mpd m; std::string err; if (!slurp(w.path("big.mpd"), f) || !parseMpd(f, m, err)) { vf::fail("manifest", "no manifest although %u frames went in: %s", n, err.c_str()); return; } size_t at = 0; for (auto& l : m.sets["1"].line) { Seg g; std::string name = w.segName(a->id, l.first, false); if (!slurp(w.path(name), f) || !parseSeg(f, false, g, err)) { vf::fail("malformed", "%s: %s", name.c_str(), err.c_str()); return; } VF_CHECK(llabs((long long)l.first - (long long)(at * 16)) <= 1 && l.second == g.s.size() * 16, "start", "segment at %llu lasting %llu, %zu samples came before it and it has %zu", (unsigned long long)l.first, (unsigned long long)l.second, at, g.s.size()); VF_CHECK(f.size() > 5000000 || g.s.size() > 30000, "capacity", "a segment of %zu samples, %zu bytes was closed before its time", g.s.size(), f.size()); for (auto& x : g.s) if (at >= in.size() || x.b != in[at++]) { vf::fail("samples", "sample %zu is not the one that went in", at - 1); return; } vf::count("audio segments"); } VF_CHECK(at > 0 && m.sets["1"].line.size() >= 1, "samples", "nothing was cut"); vf::count("segments with too many samples"); }
    else { w.cap = 100; w.exact = true; Video* v = w.addVideo(r.chance(1, 2)); if (!v) return; v->fd = 100000; v->gop = (int)(w.segDur * 10 + r.below(20)); bool huge = r.chance(1, 6); v->maxAu = (size_t)r.range(200000, 1900000); v->slices = (int)r.range(1, 2); unsigned steps = (unsigned)r.range(40, 120); if (huge) { v->maxAu = 7000000; v->slices = 4; steps = (unsigned)r.range(12, 25); } for (unsigned i = 0; i < steps && !vf::failed(); i++) { w.stepV(*v); size += 1; w.go(); } vf::count("segments with too many bytes"); }
    vf::distinct(w.sig.h); clean(w.dir);
}
// whatever comes in: no access outside buffers, and what is published stays consistent
static void garbageCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w(c); w.dir = scratch(c); w.base = "g"; w.segDur = 1; w.maxSeg = (unsigned)r.range(0, 4); w.chaos = true; w.exact = true; w.open(); unsigned nv = (unsigned)r.range(0, 2), na = (unsigned)r.range(nv ? 0 : 1, 2); for (unsigned i = 0; i < nv; i++) { Video* v = w.addVideo(r.chance(1, 2)); if (!v) return; w.from[v->id] = UINT64_MAX; } for (unsigned i = 0; i < na; i++) { Audio* a = w.addAudio(); if (!a) return; audioFormat(r, *a); w.from[a->id] = UINT64_MAX; }
    int64_t t = (int64_t)r.below(1ull << 40); unsigned steps = (unsigned)r.range(50, 400); for (unsigned s = 0; s < steps && !vf::failed(); s++) { int64_t pts = t, dts = -1; t += (int64_t)r.below(r.chance(1, 20) ? 5000000 : 100000); switch (r.below(8)) { case 0: pts = (int64_t)r.below(1ull << 46); break; case 1: dts = pts - (int64_t)r.below(200000); break; case 2: dts = pts; break; case 3: dts = pts + (int64_t)r.below(10000); break; case 4: pts = std::max<int64_t>(0, pts - (int64_t)r.below(3000000)); break; }
        if (nv && r.chance(1, 2)) { Video& v = *w.vs[r.below(nv)]; size_t n = r.chance(1, 3) ? r.below(8) : r.below(400); Bytes b(n); for (auto& x : b) x = (uint8_t)(r.chance(1, 3) ? r.below(3) : r.u64()); if (r.chance(3, 4) && n >= 5) { int ty = v.hevc ? r.pick({ 19, 20, 1, 0, 21, 32, 33, 34, 35, 40, 9, 16 }) : r.pick({ 5, 1, 5, 1, 7, 8, 9, 6 }); b[0] = b[1] = b[2] = 0; b[3] = 1; b[4] = (uint8_t)(v.hevc ? ty << 1 : ty | 0x60); } else if (n >= 1 && r.chance(1, 2)) b[0] = (uint8_t)(v.hevc ? r.pick({ 66, 68, 64, 38 }) : r.pick({ 7, 8, 5, 9 })); v.nw = (int)r.below(4096); v.nh = (int)r.below(4096); if (!w.putV(v, b, pts, dts)) return; }
        else if (na) { Audio& a = *w.as[r.below(na)]; Bytes b(r.below(r.chance(1, 2) ? 12 : 300)); for (auto& x : b) x = (uint8_t)r.u64(); if (b.size() > 1 && r.chance(3, 4)) { b[0] = 0xFF; b[1] = 0xF1; } if (r.chance(1, 20)) audioFormat(r, a); if (!w.putA(a, b, pts)) return; }
        w.d->step(); vf::count("arbitrary inputs"); if (r.chance(1, 5)) { bool init = false; (void)init; w.sig.add(list(w.dir).size()); for (auto& g : list(w.dir)) { Bytes f; std::string err; bool vid = g.size() > 4 && g.substr(g.size() - 4) == ".m4v", aud = g.size() > 4 && g.substr(g.size() - 4) == ".m4a"; if (!vid && !aud) continue; Seg sg; Init in; if (!slurp(w.path(g), f) || !(g.find("_init") != std::string::npos ? parseInit(f, in, err) : parseSeg(f, vid, sg, err))) { vf::fail("malformed", "%s: %s", g.c_str(), err.c_str()); break; } vf::count("files read back"); } } }
    vf::distinct(w.sig.h); clean(w.dir);
}
// representations come and go, the configuration changes, writes fail, and somebody looks at any moment
static void limit(rlim_t n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
static void lifeCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w(c); std::string root = scratch(c); w.dir = root; w.base = "life"; w.anyId = true; w.segDur = 1; w.maxSeg = (unsigned)r.range(0, 5); w.everyType = true; { std::ofstream o(root + "/other_file"); o << "not ours"; } { std::ofstream o(root + "/lif_9_0.m4v"); o << "not ours"; } w.own(); w.open(); int64_t now = start(r); bool faults = r.chance(1, 3); w.faulty = faults; signal(SIGXFSZ, SIG_IGN); unsigned moves = 0, changes = 0; std::vector<std::string> dirs;
    auto sync = [&]() { crashDir = w.dir; crashBase = w.base; crashFrom = w.from; };
    bool fast = r.chance(1, 3);      // segments of few units, so that windows slide past those who join
    auto joinV = [&]() { Video* v = w.addVideo(r.chance(1, 2)); if (!v) return; v->clock = now; v->fd = fast ? 500000 : r.pick({ 40000, 33333, 100000, 200000 }); v->gop = fast ? (int)r.range(1, 3) : (int)r.range(1, 20); v->bf = r.chance(1, 3) ? 1 : 0; v->maxAu = 200; w.from[v->id] = UINT64_MAX; changes++; }; auto joinA = [&]() { Audio* a = w.addAudio(); if (!a) return; a->sfi = 7; a->rate = RATES[7]; a->start = now; w.from[a->id] = UINT64_MAX; changes++; };
    auto leave = [&](bool video, size_t i) { int id = video ? w.vs[i]->id : w.as[i]->id; armed = true; bool ok = w.d->disconnectReader(id); armed = false; VF_CHECK(ok, "leave", "representation %d could not be removed", id); if (video) { w.vs[i]->feed.fill = [](int, Frame*) { return false; }; w.vs[i]->feed.step(); w.vs.erase(w.vs.begin() + i); } else { w.as[i]->feed.fill = [](int, Frame*) { return false; }; w.as[i]->feed.step(); w.as.erase(w.as.begin() + i); } w.from.erase(id); w.unordered = true; changes++; Bytes b; if (!faults) VF_CHECK(slurp(w.path(w.base + ".mpd"), b), "manifest", "no manifest after a representation left"); };
    if (r.chance(3, 4)) joinV(); if (fast) { joinV(); if (r.chance(1, 2)) joinV(); } if ((!fast && r.chance(3, 4)) || w.vs.empty()) joinA(); unsigned steps = (unsigned)r.range(150, c.thorough ? 3000 : 600);
    for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        sync(); unsigned k = (unsigned)r.below(100);
        if (k == 0 && w.vs.size() < (fast ? 4u : 3u)) joinV(); else if (k == 1 && w.as.size() < 2) joinA(); else if (k == 2 && !w.vs.empty()) leave(true, r.below(w.vs.size())); else if (k == 3 && !w.as.empty() && r.chance(1, 2)) leave(false, r.below(w.as.size()));
        else if (k == 4) { w.maxSeg = (unsigned)r.range(0, 7); Jzon::Object p; p.Add("maxSeg", (int)w.maxSeg); mod::event(*w.d, "configure", p); w.d->step(); changes++; }
        else if (k == 5 && moves < 3) { moves++; Jzon::Object p; std::string nb = "life" + std::to_string(moves), nd = w.dir; if (r.chance(1, 2)) { nd = root + "/d" + std::to_string(moves); mkdir(nd.c_str(), 0700); dirs.push_back(nd); p.Add("folder", nd); } if (nd != w.dir || r.chance(2, 3)) { p.Add("baseName", nb); } else nb = w.base; if (nb == w.base && nd == w.dir) continue; w.own(); std::map<std::string, uint64_t> old = nd == w.dir ? w.foreign : std::map<std::string, uint64_t>(); w.dir = nd; w.base = nb; w.foreign = old; w.lastLine[0].clear(); w.lastLine[1].clear(); for (auto& e : w.from) e.second = UINT64_MAX; sync(); mod::event(*w.d, "configure", p); w.d->step(); vf::count("moves to another place"); }
        else if (k < 60 && !w.vs.empty()) { Video* lo = w.vs[0].get(); for (auto& v : w.vs) if (v->clock < lo->clock) lo = v.get(); w.stepV(*lo); now = std::max(now, lo->clock); }
        else if (!w.as.empty()) { Audio* lo = w.as[0].get(); for (auto& a : w.as) if (a->next() < lo->next()) lo = a.get(); for (int j = 0; j < 30; j++) if (w.vs.empty() ? true : lo->next() <= now + 200000) { w.stepA(*lo); if (w.vs.empty()) now = std::max(now, lo->next()); break; } }
        w.stepped.clear(); bool fail = faults && r.chance(1, 8); if (fail) { limit(r.pick({ 0, 300, 900, 3000 })); vf::count("steps with failing writes"); } if (!fail) { armed = true; } w.d->step(); armed = false; if (fail) limit(RLIM_INFINITY);
        if (c.verbose) { std::string q; for (auto& g : list(w.dir)) q += g + " "; q += "from"; for (auto& e : w.from) q += vf::fmt(" %d:%lld", e.first, (long long)e.second); for (auto& l : w.lastLine[0]) q += vf::fmt(" L%llu", (unsigned long long)l.first); static std::string lastq; if (q != lastq) fprintf(stderr, "%u k%u [%zu v %zu a max %u]: %s\n", s, k, w.vs.size(), w.as.size(), w.maxSeg, q.c_str()); lastq = q; }
        w.loose(); }
    vf::count("representations joined, left or reconfigured", changes); vf::count("life cycle cases"); vf::distinct(w.sig.h); if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u changes, %u moves, %s, %zu segments listed at the end", (unsigned long long)c.idx, changes, moves, faults ? "writes fail now and then" : "no faults", w.lastLine[0].size() + w.lastLine[1].size()));
    for (auto& d : dirs) { clean(d); rmdir(d.c_str()); } clean(root);
}
void vf_init(vf::Ctx&) { vf::quiet(); }
void vf_done(vf::Ctx&) { if (points) { vf::count("file operations looked at", points); vf::count("listed segments seen complete at those", crashSegs); } }
void vf_case(vf::Ctx& c) { std::string m = mode(); if (m == "video") videoCase(c); else if (m == "audio") { if (c.idx % 2) audioCase(c); else bothCase(c); } else if (m == "big") bigCase(c); else if (m == "garbage") garbageCase(c); else lifeCase(c); }
