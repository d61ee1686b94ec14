// P21, second workload: the real modules in the real pipeline manager, created, configured, inspected, connected and
// removed through the protocol while raw pictures, PCM and AAC frames flow through them.
//!wrap-mutex
#include "mod.hh"
#include "perturb.hh"
#include "PipelineManager.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "AudioCircularBuffer.hh"
#include "modules/sharedMemory/SharedMemory.hh"
#include <atomic>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <opencv2/core.hpp>
using mod::us;
typedef PipelineManager PM;
static StreamInfo rgb(VIDEO), aac(AUDIO), pcm(AUDIO);
class PicQueue : public AVFramedQueue { public: PicQueue(ConnectionData c, unsigned n) : AVFramedQueue(c, &rgb, n) { for (unsigned i = 0; i < max; i++) { frames[i] = InterleavedVideoFrame::createNew(RAW, 96 * 96 * 3 + 64); memset(frames[i]->getDataBuf(), 0, 96 * 96 * 3); } } };
class AacQueue : public AVFramedQueue { public: AacQueue(ConnectionData c, unsigned n) : AVFramedQueue(c, &aac, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(2, 48000, 1024, AAC, S16); } };

// A periodic source of one kind of frames
class Src : public mod::Feed {
public:
    char kind; vf::Rng rng; std::map<int, uint64_t> n; static std::atomic<uint64_t>& made() { static std::atomic<uint64_t> x(0); return x; }
    Src(char k, uint64_t seed) : kind(k), rng(seed, 5) {
        mk = [this](ConnectionData c) -> FrameQueue* { if (kind == 'v') return new PicQueue(c, 4); if (kind == 'a') return AudioCircularBuffer::createNew(c, 2, 48000, 100, FLTP); return new AacQueue(c, 20); };
        fill = [this](int w, Frame* f) { return make(w, f); };
    }
    bool make(int w, Frame* f) {
        uint64_t k = n[w]++;
        if (kind == 'v') { VideoFrame* v = dynamic_cast<VideoFrame*>(f); int W = rng.chance(1, 40) ? (int)rng.range(1, 96) : 64, H = rng.chance(1, 40) ? (int)rng.range(1, 96) : 48; v->setSize(W, H); v->setPixelFormat(RGB24); v->setLength(W * H * 3); memset(v->getDataBuf(), (int)(k * 7), W * H * 3); v->setPresentationTime(us((int64_t)k * 40000)); v->setDecodeTime(us((int64_t)k * 40000)); }
        else if (kind == 'a') { AudioFrame* a = dynamic_cast<AudioFrame*>(f); a->setChannels(2); a->setSampleRate(48000); a->setSamples(480); a->setLength(480 * 4); for (int c = 0; c < 2; c++) memset(a->getPlanarDataBuf()[c], 0, 480 * 4); a->setPresentationTime(us((int64_t)k * 10000)); }
        else { AudioFrame* a = dynamic_cast<AudioFrame*>(f); unsigned len = (unsigned)rng.range(8, 200); unsigned char* d = a->getDataBuf(); d[0] = 0xFF; d[1] = 0xF1; d[2] = 0x4C; d[3] = 0x80 | (unsigned char)(len >> 11); d[4] = (unsigned char)(len >> 3); d[5] = (unsigned char)((len & 7) << 5 | 0x1F); d[6] = 0xFC; for (unsigned i = 7; i < len; i++) d[i] = (unsigned char)i; a->setLength(len); a->setSampleRate(48000); a->setChannels(2); a->setPresentationTime(us((int64_t)k * 21333)); a->setDecodeTime(us((int64_t)k * 21333)); }
        made()++; return true;
    }
protected:
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) { bool r = mod::Feed::doProcessFrame(d, ret); ret = kind == 'v' ? 3000 : 2000; return r; }
};
class Dst : public mod::Catch {
public:
    std::map<int, int> n; static std::atomic<uint64_t>& seen() { static std::atomic<uint64_t> x(0); return x; }
    Dst() { got = [this](int r, Frame* f) { n[r]++; seen()++; volatile unsigned char x = f->isPlanar() ? 0 : f->getLength() ? f->getDataBuf()[f->getLength() - 1] : 0; (void)x; }; }
protected:
    void doGetState(Jzon::Object& o) { Jzon::Array r; for (auto& x : n) { Jzon::Object e; e.Add("id", x.first); e.Add("n", x.second); r.Add(e); } o.Add("taken", r); }
};

struct Case {
    vf::Ctx& c; vf::Rng& r; PM* pm; std::map<int, char> f; std::set<int> paths; int next, nextPath; std::string dir; std::map<int, std::set<int> > readersOf; vf::Hash sig;
    Case(vf::Ctx& c) : c(c), r(c.rng), pm(PM::getInstance()), next(1), nextPath(1) { dir = c.dir + "/dash"; mkdir(dir.c_str(), 0700); }
    ~Case() { if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); } rmdir(dir.c_str()); }
    bool send(Jzon::Object& out, const std::string& action, Jzon::Object& params, int filter = -1, int delay = -1) {
        Jzon::Object ev; ev.Add("action", action); ev.Add("params", params); if (filter >= 0) { ev.Add("filterId", filter); if (delay >= 0) ev.Add("delay", delay); } pm->processEvent(ev, out); return true;
    }
    bool cmd(const std::string& action, Jzon::Object& params, int filter = -1, int delay = -1) { Jzon::Object o; send(o, action, params, filter, delay); if (!o.Has("error")) { vf::fail("no-answer", "%s was not answered", action.c_str()); return false; } return o.Get("error").IsNull(); }
    int make(char k) {
        int id = next++; bool ok; Jzon::Object p; p.Add("id", id);
        switch (k) {
        case 'v': case 'a': case 'c': ok = pm->addFilter(id, new Src(k, r.u64())); break;
        case 't': ok = pm->addFilter(id, new Dst); break;
        case 'h': { SharedMemory* s = SharedMemory::createNew((size_t)(getpid() * 64 + id % 64 + 1), RAW); if (!s) { next--; return -1; } ok = pm->addFilter(id, s); break; }
        default: p.Add("type", k == 'R' ? "videoResampler" : k == 'M' ? "videoMixer" : k == 'P' ? "videoSplitter" : k == 'X' ? "audioMixer" : k == 'E' ? "videoEncoder" : "dasher"); ok = cmd("createFilter", p); break;
        }
        VF_CHECK(ok, "refused", "creating a filter of kind %c was refused", k); if (!ok) return -1;
        f[id] = k; vf::count("real filters created"); if (strchr("RMPXED", k)) configure(id);
        return id;
    }
    int some(char k, bool create = true) { std::vector<int> v; for (auto& x : f) if (x.second == k) v.push_back(x.first); if (v.empty() || (create && r.chance(1, 3) && v.size() < 3)) return create ? make(k) : -1; return r.pick(v); }
    int val(std::initializer_list<int> usual) { return r.chance(1, 25) ? (int)r.range(-200, 3000) : r.pick(usual); }
    int reader(int id) { auto& s = readersOf[id]; if (s.empty() || r.chance(1, 10)) return (int)r.range(0, 9); auto it = s.begin(); std::advance(it, r.below(s.size())); return *it; }
    void configure(int id) {
        Jzon::Object p; const char* a = "configure"; int delay = r.chance(1, 6) ? (int)r.range(0, 20) : -1;
        switch (f[id]) {
        case 'R': p.Add("width", val({0, 32, 64, 48})); p.Add("height", val({0, 32, 48, 64})); p.Add("pixelFormat", val({0, 2, 0})); if (r.chance(1, 6)) p.Add("fps", val({0, 25, 50})); break;
        case 'M': if (r.chance(1, 4)) { p.Add("width", val({64, 96, 32})); p.Add("height", val({48, 64})); p.Add("fps", val({0, 25, 50})); } else { a = "configChannel"; p.Add("id", reader(id)); p.Add("width", r.pick({1.0, 0.5, 0.25, 2.0})); p.Add("height", r.pick({1.0, 0.5, 0.3})); p.Add("x", r.pick({0.0, 0.5, -1.0})); p.Add("y", r.pick({0.0, 0.25})); p.Add("layer", val({0, 1, 2})); p.Add("enabled", r.chance(3, 4)); p.Add("opacity", r.pick({1.0, 0.5, 0.0})); } break;
        case 'P': if (r.chance(1, 4)) p.Add("fTime", val({0, 40000})); else { a = "configCrop"; p.Add("id", (int)r.range(1, 4)); p.Add("width", val({8, 16, 32})); p.Add("height", val({8, 16, 32})); p.Add("x", val({0, 8, 16})); p.Add("y", val({0, 4, 8})); p.Add("degree", val({0, 90})); } break;
        case 'X': switch (r.below(4)) { case 0: a = "changeChannelGain"; p.Add("id", reader(id)); p.Add("gain", r.pick({0.0, 0.5, 1.0, 7.0})); break; case 1: a = "muteChannel"; p.Add("id", reader(id)); break; case 2: a = "changeMasterGain"; p.Add("gain", 0.7); break; default: a = "soloChannel"; p.Add("id", reader(id)); } break;
        case 'E': if (r.chance(1, 3)) a = "forceIntra"; else { p.Add("bitrate", val({100, 500})); p.Add("fps", val({25, 50})); p.Add("gop", val({5, 12})); p.Add("lookahead", val({0, 0, 2})); p.Add("bframes", 0); p.Add("threads", val({1, 2})); p.Add("annexb", true); p.Add("preset", "ultrafast"); if (r.chance(1, 3)) p.Add("gopTime", val({0, 200})); } break;
        case 'D': if (r.chance(1, 3)) { a = "setBitrate"; p.Add("id", reader(id)); p.Add("bitrate", val({1000, 64000})); } else { if (r.chance(4, 5)) p.Add("folder", dir); if (r.chance(2, 3)) p.Add("baseName", "s" + std::to_string(id)); p.Add("segDurInSec", val({1, 1, 2})); p.Add("maxSeg", val({2, 4})); p.Add("minBuffTime", val({1, 4})); } break;
        default: return;
        }
        VF_CHECK(cmd(a, p, id, delay), "event", "an event for filter %d was refused", id); vf::count("configurations sent while running");
    }
    bool path(int org, int dst, std::vector<int> mids, int dr = -1, int ow = -1) {
        if (org < 0 || dst < 0) return false; for (int m : mids) if (m < 0) return false;
        int id = nextPath++; Jzon::Object p; Jzon::Array a; for (int x : mids) a.Add(x); p.Add("id", id); p.Add("orgFilterId", org); p.Add("dstFilterId", dst); p.Add("orgWriterId", ow); p.Add("dstReaderId", dr); p.Add("midFiltersIds", a);
        bool ok = cmd("createPath", p); vf::count(ok ? "real paths created" : "real paths refused");
        if (ok) { paths.insert(id); Path* q = pm->getPath(id); VF_CHECK(q != NULL, "missing", "path %d is not there", id); if (q) readersOf[dst].insert(q->getDstReaderID()); sig.add((uint64_t)f[org] * 256 + f[dst] + mids.size() * 65536); }
        return ok;
    }
    std::vector<int> mids(std::initializer_list<char> k) { std::vector<int> v; for (char x : k) if (x == 'R' ? r.chance(1, 2) : true) v.push_back(make(x)); return v; }
    void createPath() {
        switch (r.below(10)) {
        case 0: case 1: { auto m = mids({'R'}); path(some('v'), some('M'), m); break; }
        case 2: { auto m = mids({'R'}); path(some('M'), some('t'), m); break; }
        case 3: path(some('v'), some('P'), {}); break;
        case 4: { auto m = mids({'R'}); path(some('P'), some('t'), m, -1, (int)r.range(1, 4)); break; }
        case 5: case 6: { int rs = make('R'), e = make('E'); Jzon::Object p; p.Add("width", 64); p.Add("height", 48); p.Add("pixelFormat", 2); if (rs >= 0) cmd("configure", p, rs); std::vector<int> m; m.push_back(rs); m.push_back(e); int o = r.chance(1, 4) ? some('M') : some('v'); path(o, r.chance(2, 3) ? some('D') : some('t'), m); break; }
        case 7: path(some('c'), some('D'), {}); break;
        case 8: { if (r.chance(1, 2)) path(some('a'), some('X'), {}); else path(some('X'), some('t'), {}); break; }
        default: { std::vector<int> m; int h = -1; bool have = false; for (auto& x : f) if (x.second == 'h') have = true; if (!have && (h = make('h')) >= 0) m.push_back(h); path(some('v'), some('t'), m); break; }
        }
    }
    void removePath() { if (paths.empty()) return; auto it = paths.begin(); std::advance(it, r.below(paths.size())); Jzon::Object p; p.Add("id", *it); VF_CHECK(cmd("removePath", p), "refused", "removing path %d was refused", *it); paths.erase(it); vf::count("real paths removed"); }
    void removeFilter() { if (f.empty()) return; auto it = f.begin(); std::advance(it, r.below(f.size())); Jzon::Object p; p.Add("id", it->first); if (cmd("removeFilter", p)) vf::count("real filters removed"); }
    void state() {
        Jzon::Object p, o; send(o, "getState", p); if (!o.Has("filters") || !o.Has("paths")) { vf::fail("state", "no state"); return; }
        std::map<int, char> now; auto& fs = o.Get("filters").AsArray(); for (auto it = fs.begin(); it != fs.end(); ++it) { int id = (*it).Get("id").ToInt(); if (!f.count(id)) { vf::fail("filters", "filter %d is reported", id); return; } now[id] = f[id]; }
        f = now; std::set<int> ps; auto& pa = o.Get("paths").AsArray(); for (auto it = pa.begin(); it != pa.end(); ++it) { ps.insert((*it).Get("id").ToInt()); VF_CHECK(f.count((*it).Get("originFilter").ToInt()) && f.count((*it).Get("destinationFilter").ToInt()), "paths", "a path between filters that are gone is reported"); }
        VF_CHECK(ps == paths, "paths", "%zu paths are reported, expected %zu", ps.size(), paths.size()); vf::count("real states compared");
    }
    int takenBy(int sink, int rd) { Jzon::Object p, o; send(o, "getState", p); auto& fs = o.Get("filters").AsArray(); for (auto it = fs.begin(); it != fs.end(); ++it) if ((*it).Get("id").ToInt() == sink) { auto& t = (*it).Get("taken").AsArray(); for (size_t i = 0; i < t.GetCount(); i++) if (t.Get(i).Get("id").ToInt() == rd) return t.Get(i).Get("n").ToInt(); } return 0; }
    // a fresh path must deliver, whatever went on before
    void fresh() {
        char k = r.pick({'v', 'v', 'a'}); int s = some(k), t = some('t'); if (s < 0 || t < 0) return; std::vector<int> m; int rs = -1; if (k == 'v' && r.chance(1, 2)) { rs = make('R'); Jzon::Object p; p.Add("width", 40); p.Add("height", 30); p.Add("pixelFormat", 0); p.Add("fps", 0); cmd("configure", p, rs); m.push_back(rs); }
        int rd = (int)r.range(1000, 100000); if (readersOf[t].count(rd) || readersOf[t].size() > 12) return; if (!path(s, t, m, rd)) return;
        int n0 = takenBy(t, rd), ok = 0; for (int i = 0; i < 6000 && !(ok = takenBy(t, rd) >= n0 + 2); i++) usleep(3000);
        VF_CHECK(ok, "stalled", "a new path of %zu hops delivers nothing", m.size() + 1); vf::count("real paths seen working");
    }
};
void vf_init(vf::Ctx&) { vf::quiet(); cv::setNumThreads(1); rgb.video.codec = RAW; rgb.video.pixelFormat = RGB24; aac.audio.codec = AAC; aac.audio.channels = 2; aac.audio.sampleRate = 48000; }
void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; perturb::salt() = r.u64(); perturb::level() = (int)r.pick({0, 0, 5, 20}); uint64_t d0 = perturb::delays();
    PM::destroyInstance(); PM::getInstance((unsigned)r.range(1, 6));
    {
        Case k(c); unsigned steps = (unsigned)r.range(15, 60); bool stopped = false;
        for (unsigned i = 0; i < steps && !vf::failed(); i++) {
            unsigned x = (unsigned)r.below(100); stopped = false;
            if (x < 30) { if (k.paths.size() < 10) k.createPath(); }
            else if (x < 65) { if (!k.f.empty()) { auto it = k.f.begin(); std::advance(it, r.below(k.f.size())); k.configure(it->first); } }
            else if (x < 78) k.removePath();
            else if (x < 82) k.removeFilter();
            else if (x < 90) usleep((unsigned)r.range(0, 8000));
            else if (x < 92) k.fresh();
            else if (x < 93 && r.chance(1, 3)) { Jzon::Object p; VF_CHECK(k.cmd("stop", p), "refused", "stopping was refused"); k.f.clear(); k.paths.clear(); k.readersOf.clear(); vf::count("real stops"); stopped = true; }
            k.state();
        }
        if (!vf::failed()) k.fresh();
        vf::distinct(k.sig.h); (void)stopped;
    }
    perturb::level() = 0; PM::destroyInstance();
    vf::count("frames made for real modules", Src::made().exchange(0)); vf::count("frames received from real modules", Dst::seen().exchange(0)); vf::count("injected delays", perturb::delays() - d0);
}
