// P31: the encoders of a DASH set whose representations have drifted apart are told to meet again.
// The real segmenter is fed by filters registered in the real pipeline manager; which segments were cut together, and with
// which picture each of them ends, is read from the files it publishes, and what the encoders were told from their events.
#include <map>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <list>
#include <queue>
#include <chrono>
#include <sstream>
#include "dash.hh"
#define private public
#include "PipelineManager.hh"
#undef private
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "SlicedVideoFrameQueue.hh"
using mod::us;
typedef PipelineManager PM;

// What stands where the encoder of a representation stands, and writes down what it is told
class Told : public mod::Feed {
public:
    std::vector<uint64_t> told; std::vector<std::string> odd;
    Told() {
        eventMap["gopReferenceTime"] = [this](Jzon::Node* p) {
            std::string t = p && p->Has("referenceTime") && p->Get("referenceTime").IsString() ? p->Get("referenceTime").ToString() : "";
            if (t.empty() || t.size() > 18 || t.find_first_not_of("0123456789") != std::string::npos) { odd.push_back(t); return false; }
            told.push_back(strtoull(t.c_str(), NULL, 10)); return true; };
        fill = [](int, Frame*) { return false; };
    }
};
class RealEncoder : public VideoEncoderX264 {
public:
    std::vector<uint64_t> told;
    RealEncoder() { auto f = eventMap["gopReferenceTime"]; eventMap["gopReferenceTime"] = [this, f](Jzon::Node* p) { told.push_back(strtoull(p->Get("referenceTime").ToString().c_str(), NULL, 10)); return f(p); }; }
    void step() { int r = 0; processFrame(r); }
};
static StreamInfo rawInfo(VIDEO);
class RawQueue : public AVFramedQueue { public: RawQueue(ConnectionData c, unsigned n) : AVFramedQueue(c, &rawInfo, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, 64 * 64 * 2); } };

struct Enc {
    int id; bool real; StreamInfo info; Told feed; VQ* q; RawQueue* rq; std::unique_ptr<RealEncoder> enc; int64_t pts, fd, ref, gopTime; unsigned n, gop; bool obeys, started, paused; uint64_t intra;
    bool shown; uint64_t end; size_t seen; int fid;      // where the last published segment ends, in ticks
    Enc(int i, bool real) : id(i), real(real), info(VIDEO), q(NULL), rq(NULL), pts(0), fd(40000), ref(0), gopTime(0), n(0), gop(25), obeys(false), started(false), paused(false), intra(0), shown(false), end(0), seen(0) { info.video.codec = H264; }
    std::vector<uint64_t>& told() { return real ? enc->told : feed.told; }
};

struct World {
    vf::Ctx& c; vf::Rng& r; PM* pm; std::string dir; std::set<int> usedIds; std::map<int, std::string> files; int nextFilter = 100; Probe* d; std::vector<std::unique_ptr<Enc>> reps; std::unique_ptr<Told> audio; AQ* aq; unsigned segDur; vf::Hash sig; std::map<uint64_t, int64_t> none;
    uint64_t cuts, apart, told, together; unsigned calm; bool whole;
    World(vf::Ctx& c) : c(c), r(c.rng), pm(PM::getInstance(1)), d(NULL), aq(NULL), segDur(1), cuts(0), apart(0), told(0), together(0), calm(0), whole(false) {
        dir = c.dir + "/dash"; mkdir(dir.c_str(), 0700); clear(); segDur = (unsigned)r.range(1, 3); d = new Probe; d->setId(1); d->configure(dir, "r", segDur, (size_t)r.range(3, 8), 4);
    }
    void clear() { for (auto& f : list(dir)) { std::string p = dir + "/" + f; unlink(p.c_str()); } }
    ~World() { { std::lock_guard<std::mutex> g(pm->filtersMtx); pm->filters.clear(); } delete d; for (auto& x : reps) if (x->real) x->enc.reset(); clear(); }
    void enlist(int id, BaseFilter* f) { std::lock_guard<std::mutex> g(pm->filtersMtx); pm->filters[id] = f; }
    Enc* join(bool real, int id = -1) {
        if (id < 0) do id = (int)r.range(1, 80); while (!usedIds.insert(id).second); std::unique_ptr<Enc> p(new Enc(id, real)); Enc* x = p.get(); x->fid = nextFilter++; int sid = real ? nextFilter++ : -1;
        if (!real) { x->feed.mk = [x](ConnectionData cd) { return x->q = new VQ(cd, &x->info, 4, 200); }; x->feed.setId(x->fid); enlist(x->fid, &x->feed); VF_CHECK(x->feed.connectOneToMany(d, id), "connect", "refused"); }
        else { x->enc.reset(new RealEncoder); x->enc->setId(x->fid); x->feed.setId(sid); x->feed.mk = [x](ConnectionData cd) { return x->rq = new RawQueue(cd, 3); }; enlist(x->fid, x->enc.get()); enlist(sid, &x->feed); VF_CHECK(x->feed.connectOneToOne(x->enc.get()) && ((BaseFilter*)x->enc.get())->connectOneToMany(d, id), "connect", "refused"); }
        reps.push_back(std::move(p)); return x;
    }
    void leave(size_t i) { VF_CHECK(d->disconnectReader(reps[i]->id), "leave", "refused"); { std::lock_guard<std::mutex> g(pm->filtersMtx); pm->filters.erase(reps[i]->fid); } reps.erase(reps.begin() + i); calm = 0; vf::count("representations that left"); }
    void addAudio() { audio.reset(new Told); audio->setId(99); audio->mk = [this](ConnectionData cd) { static StreamInfo si(AUDIO); si.audio.codec = AAC; si.audio.channels = 2; si.audio.sampleRate = 48000; return aq = new AQ(cd, &si, 4); }; enlist(99, audio.get()); VF_CHECK(audio->connectOneToMany(d, 99), "connect", "audio refused"); }
    // one picture of x goes in: a unit that carries its number
    void unit(Enc& x, int type, const Bytes& more) { Frame* f = x.q->getRear(); if (!f) { vf::fail("feed", "queue full"); return; } Bytes b = { 0, 0, 0, 1, (uint8_t)(type | 0x60) }; b.insert(b.end(), more.begin(), more.end()); memcpy(f->getDataBuf(), b.data(), b.size()); f->setLength(b.size()); dynamic_cast<VideoFrame*>(f)->setSize(64, 64); f->setPresentationTime(us(x.pts)); f->setDecodeTime(NO_DTS); x.q->addFrame(); go(); }
    void picture(Enc& x) {
        if (x.real) { x.feed.fill = [&x](int, Frame* f) { VideoFrame* v = dynamic_cast<VideoFrame*>(f); v->setSize(64, 64); v->setPixelFormat(YUV420P); memset(f->getDataBuf(), (int)(x.n * 3) & 255, 64 * 64 * 3 / 2); f->setLength(64 * 64 * 3 / 2); f->setPresentationTime(us(x.pts)); return true; }; x.feed.step(); x.enc->step(); for (int i = 0; i < 8 && !vf::failed(); i++) go(); x.n++; x.pts += x.fd; return; }
        x.feed.step(); for (; x.seen < x.feed.told.size(); x.seen++) if (x.obeys) x.ref = (int64_t)x.feed.told[x.seen];
        bool intra = !x.started; if (x.gopTime) { if (!x.ref) x.ref = x.pts; if (x.pts >= x.ref) { intra = true; x.ref += x.gopTime; } } else if (x.n % x.gop == 0) intra = true; x.started = true; x.intra += intra;
        unit(x, 9, { 0x10 }); if (intra && !vf::failed()) { unit(x, 7, { 66, 192, 30, 1 }); if (!vf::failed()) unit(x, 8, { 206, 60 }); } Bytes b(10); for (int i = 0; i < 8; i++) b[i] = (uint8_t)(0x80 | (((uint64_t)x.n >> (7 * (7 - i))) & 127)); if (!vf::failed()) unit(x, intra ? 5 : 1, b); x.n++; x.pts += x.fd;
    }
    void sound() { if (!audio) return; Frame* f = aq->getRear(); if (!f) return; Bytes b = { 0xFF, 0xF1, 0x4C, 0x80, 0, 0, 0, 1, 2, 3 }; memcpy(f->getDataBuf(), b.data(), b.size()); f->setLength(b.size()); AudioFrame* a = dynamic_cast<AudioFrame*>(f); a->setChannels(2); a->setSampleRate(48000); a->setSamples(1024); f->setPresentationTime(us(reps[0]->pts)); f->setDecodeTime(NO_DTS); aq->addFrame(); go(); }
    // a step of the segmenter, and what must have come of it
    void go() {
        std::map<int, size_t> before; for (auto& x : reps) before[x->id] = x->told().size(); size_t ab = audio ? audio->told.size() : 0;
        d->step(); for (auto& x : reps) if (x->real) { x->feed.fill = [](int, Frame*) { return false; }; x->enc->step(); } else x->feed.step(); if (audio) audio->step();
        if (audio) VF_CHECK(audio->told.size() == ab && audio->odd.empty(), "audio", "the encoder of an audio representation was told to realign"); for (auto& x : reps) if (!x->real && !x->feed.odd.empty()) vf::fail("value", "representation %d was told '%s'", x->id, x->feed.odd[0].c_str());
        Bytes f; Mpd m; std::string err; bool cut = false; uint64_t T = 0; struct stat st; bool fresh = stat((dir + "/r.mpd").c_str(), &st) == 0 && (st.st_ino != seen.st_ino || st.st_mtim.tv_sec != seen.st_mtim.tv_sec || st.st_mtim.tv_nsec != seen.st_mtim.tv_nsec || st.st_size != seen.st_size); if (fresh) seen = st; if (fresh && slurp(dir + "/r.mpd", f)) { if (!parseMpd(f, m, err)) { vf::fail("manifest", "%s", err.c_str()); return; } if (m.sets.count("0") && !m.sets["0"].line.empty()) { T = m.sets["0"].line.back().first; for (auto& x : reps) { struct stat q; if (stat((dir + "/r_" + std::to_string(x->id) + "_" + std::to_string(T) + ".m4v").c_str(), &q)) continue; std::string one = vf::fmt("%llu %llu %lld.%09ld", (unsigned long long)T, (unsigned long long)q.st_ino, (long long)q.st_mtim.tv_sec, q.st_mtim.tv_nsec); if (files[x->id] != one) { if (c.verbose) fprintf(stderr, "  file of %d: %s, was %s\n", x->id, one.c_str(), files[x->id].c_str()); files[x->id] = one; cut = true; } } } }
        if (!cut) { for (auto& x : reps) VF_CHECK(x->told().size() == before[x->id], "unasked", "representation %d was told to realign although no segments were cut", x->id); return; }
        cuts++; bool same = true; int64_t first = 0, latest = 0; std::string ends;
        for (size_t i = 0; i < reps.size(); i++) { Enc& x = *reps[i]; Seg s; if (!slurp(dir + "/r_" + std::to_string(x.id) + "_" + std::to_string(T) + ".m4v", f) || !parseSeg(f, true, s, err)) { vf::fail("segment", "the segment of representation %d that starts at %llu: %s", x.id, (unsigned long long)T, err.c_str()); return; }
            uint64_t t = s.tfdt; for (size_t k = 0; k + 1 < s.s.size(); k++) t += s.s[k].dur; int64_t p = (int64_t)((t + s.s.back().cto) * 1000000 / 12800); uint64_t e = t + s.s.back().dur; /* relative to the first picture, to the tick */ ends += vf::fmt(" %lld", (long long)p); if (!i) first = p; if (llabs(p - first) > 200) same = false; latest = std::max(latest, p);
            if (c.verbose) fprintf(stderr, "  %d: %zu samples, %llu .. %llu\n", x.id, s.s.size(), (unsigned long long)s.tfdt, (unsigned long long)e);
            if (whole && x.shown) { VF_CHECK(llabs((long long)s.tfdt - (long long)x.end) <= 2, "lost", "representation %d: a segment ends at %.3f s, the next one published starts at %.3f s", x.id, x.end / 12800., s.tfdt / 12800.); vf::count("segments that follow without a gap"); } x.shown = true; x.end = e; sig.add(s.s.size()); }
        int64_t value = -1; for (auto& x : reps) { size_t k = x->told().size() - before[x->id]; if (same) { if (k) { vf::fail("unasked", "representation %d was told to realign although all segments end with the same picture (at%s us)", x->id, ends.c_str()); return; } } else { if (k != 1) { vf::fail("untold", "representation %d was told %zu times to realign when the segments end with pictures at%s us", x->id, k, ends.c_str()); return; } int64_t v = (int64_t)x->told().back() - origin; if (value >= 0 && v != value) { vf::fail("value", "the encoders were told different times"); return; } value = v; } }
        if (!same) { apart++; calm = 0; told += reps.size(); VF_CHECK(llabs(value - (latest + (int64_t)segDur * 1000000)) <= 400, "value", "the encoders were told to meet at %lld us; the segments end with pictures at%s us, and a segment lasts %u s", (long long)value, ends.c_str(), segDur); } else { if (reps.size() > 1) together++; calm++; }
        if (c.verbose) fprintf(stderr, "cut %llu: ends%s us, told %lld\n", (unsigned long long)T, ends.c_str(), (long long)value);
    }
    int64_t origin = 0; struct stat seen = {};
    // whose turn it is: the one that is behind, or now and then another that is not too far ahead
    Enc& turn(int64_t lag) { Enc* lo = reps[0].get(); for (auto& x : reps) if (x->pts < lo->pts) lo = x.get(); Enc* o = reps[r.below(reps.size())].get(); return r.chance(1, 2) && o->pts - lo->pts < lag ? *o : *lo; }
};

// encoders that cut where they like
static void anyCase(vf::Ctx& c) {
    World w(c); vf::Rng& r = c.rng; unsigned n = (unsigned)r.range(1, 4); int64_t t0 = w.origin = r.chance(1, 4) ? 0 : (int64_t)r.below(1ull << 45); int64_t fd = r.pick({ 40000, 33333, 20000, 100000 }); unsigned gop = (unsigned)r.range(1, 40); int kind = (int)r.below(3);
    for (unsigned i = 0; i < n; i++) { Enc* x = w.join(false); x->pts = t0; x->fd = kind == 2 && r.chance(1, 2) ? r.pick({ 40000, 80000, 20000 }) : fd; x->gop = kind == 0 || r.chance(1, 2) ? gop : (unsigned)r.range(1, 40); }
    if (r.chance(1, 3)) w.addAudio(); unsigned steps = (unsigned)r.range(100, c.thorough ? 1500 : 400) * n; for (unsigned s = 0; s < steps && !vf::failed(); s++) { if (w.reps.size() > 1 && r.chance(1, 400)) { size_t i = r.below(w.reps.size()); int id = w.reps[i]->id; int64_t p = w.reps[i]->pts; w.leave(i); if (r.chance(1, 2)) { Enc* x = w.join(false, id); x->pts = p; x->fd = fd; x->gop = r.chance(1, 2) ? gop : (unsigned)r.range(1, 40); vf::count("encoders replaced"); } } else if (w.reps.size() < 4 && w.usedIds.size() < 60 && r.chance(1, 400)) { int64_t p = 0; for (auto& x : w.reps) p = std::max(p, x->pts); Enc* x = w.join(false); x->pts = p; x->fd = fd; x->gop = r.chance(1, 2) ? gop : (unsigned)r.range(1, 40); } if (r.chance(1, 300)) w.reps[r.below(w.reps.size())]->n++; w.picture(w.turn(500000)); if (w.audio && r.chance(1, 4) && !vf::failed()) w.sound(); }
    vf::count("sets of segments cut", w.cuts); vf::count("cuts with segments that end apart", w.apart); vf::count("cuts with segments that end together", w.together); vf::count("encoders told", w.told); vf::distinct(w.sig.h);
    if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u representations of %lld us pictures, %llu cuts, %llu of them apart", (unsigned long long)c.idx, n, (long long)fd, (unsigned long long)w.cuts, (unsigned long long)w.apart));
}
// encoders that cut by time and do as they are told: they meet again, and stay together
static void meetCase(vf::Ctx& c, bool real) {
    World w(c); vf::Rng& r = c.rng; unsigned n = (unsigned)r.range(2, real ? 3 : 4); int64_t fd = r.pick({ 40000, 20000, 50000, 100000 }); int64_t t0 = w.origin = real ? 1000000 + (int64_t)r.below(1ull << 40) : 1 + (int64_t)r.below(1ull << 45); w.whole = true; int64_t D = (int64_t)w.segDur * 1000000, gt = r.chance(1, 2) ? D : (int64_t)r.range(1000000, (int64_t)D * (r.chance(1, 2) ? 1 : 3)); if (gt < MIN_GOP_TIME) gt = MIN_GOP_TIME; int64_t len = (D - 2 * fd + gt - 1) / gt * gt; if (c.verbose) fprintf(stderr, "fd %lld gop time %lld segment %lld\n", (long long)fd, (long long)gt, (long long)D);
    auto add = [&](int64_t at) { Enc* x = w.join(real); x->pts = at; x->fd = fd; x->gopTime = gt; x->obeys = true; if (real) x->enc->configure(500, 0, 1000, 0, 0, 1, true, "ultrafast", (int)gt); w.calm = 0; };
    add(t0); unsigned more = n - 1, before = 0; uint64_t joined = 0; int64_t lag = r.chance(1, 2) ? 1 : 2 * fd;
    for (unsigned i = 0; i < (c.thorough ? 3000u : 700u) * n && !vf::failed(); i++) {
        w.picture(w.turn(lag)); int64_t hi = 0; for (auto& x : w.reps) hi = std::max(hi, x->pts);
        int64_t next = w.origin + (w.reps[0]->shown ? (int64_t)(w.reps[0]->end * 1000000 / 12800) : 0) + len;   // where those who are there cut next
        if (more && r.chance(1, 30) && (!real || w.cuts) && (w.reps.size() == 1 || w.calm >= 1) && next - hi > lag + 4 * fd) { for (auto& x : w.reps) while (x->pts < hi && !vf::failed()) w.picture(*x); add(hi); more--; joined = w.cuts; before = 1; }
        if (before && w.cuts > joined + 3 && !vf::failed()) { VF_CHECK(w.calm > 0, "apart", "%llu cuts after representation %d joined the segments still do not end together", (unsigned long long)(w.cuts - joined), w.reps.back()->id); if (!vf::failed()) vf::count("sets that met again"); before = 0; if (!more && w.calm > 2) break; }
        if (!more && !before && w.calm > 4) break; }
    vf::count(real ? "sets of real encoders" : "sets of obeying encoders"); vf::count("cuts with segments that end apart", w.apart); vf::count("cuts with segments that end together", w.together); vf::count("encoders told", w.told); vf::distinct(w.sig.h);
    if (c.idx < 30 && c.idx % 10 == 5) vf::sample(vf::fmt("case %llu: %u %s encoders, groups of %lld us in segments of %u s, %llu cuts apart, %llu together", (unsigned long long)c.idx, n, real ? "real" : "obeying", (long long)gt, w.segDur, (unsigned long long)w.apart, (unsigned long long)w.together));
}
void vf_init(vf::Ctx&) { vf::quiet(); rawInfo.video.codec = RAW; rawInfo.video.pixelFormat = YUV420P; }
void vf_done(vf::Ctx&) { PM::destroyInstance(); }
void vf_case(vf::Ctx& c) { unsigned k = c.idx % 10; if (k < 5) anyCase(c); else meetCase(c, k == 9); }
