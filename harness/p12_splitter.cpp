// P12: the video splitter against the source pixels.
#include "mod.hh"
#include "VideoFrame.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
using mod::us;
typedef std::chrono::system_clock Clock;
struct Crop { int w, h, x, y, deg; Crop() : w(0), h(0), x(-1), y(-1), deg(0) {} };
class Probe : public VideoSplitter {
public:
    std::map<int, Crop> crops; std::map<int, uint64_t> made; uint64_t rounds = 0, emitted = 0, unset = 0, outside = 0, foreign = 0; vf::Hash sig; std::map<int, std::vector<unsigned char>> last;
    explicit Probe(us t = us(0)) : VideoSplitter(t) {}
    void events() { this->BaseFilter::processEvent(); }
    bool add(int id) { bool ok = specificWriterConfig(id); if (ok) crops[id] = Crop(); return ok; } bool del(int id) { bool ok = specificWriterDelete(id); if (ok) crops.erase(id); return ok; }
    bool run(Frame* o, std::map<int, Frame*>& d) { return doProcessFrame(o, d); }
    std::vector<int> step() { int r = 0; return processFrame(r); }
    static bool fits(const Crop& k, VideoFrame* s) { return k.w > 0 && (int64_t)k.x + k.w <= s->getWidth() && (int64_t)k.y + k.h <= s->getHeight(); }
protected:
    bool doProcessFrame(Frame* org, std::map<int, Frame*>& dst) {
        VideoFrame* s = dynamic_cast<VideoFrame*>(org); int sw = s->getWidth(), sh = s->getHeight(); bool good = sw > 0 && sh > 0 && (size_t)sw * sh * 3 <= s->getMaxLength(), any = false; rounds++; std::vector<unsigned char> copy(org->getDataBuf(), org->getDataBuf() + (good ? sw * sh * 3 : 0)); last.clear();
        for (auto& d : dst) d.second->setConsumed(false);
        bool r = VideoSplitter::doProcessFrame(org, dst); if (!good) foreign++;
        VF_CHECK(!good || !memcmp(copy.data(), org->getDataBuf(), copy.size()), "source", "the source picture was modified");
        for (auto& d : dst) {
            Crop& k = crops[d.first]; VideoFrame* o = dynamic_cast<VideoFrame*>(d.second); bool want = good && fits(k, s); any |= want; if (!k.w) unset++; else if (!want) outside++;
            VF_CHECK(o->getConsumed() == want, "emitted", "crop %dx%d at %d,%d of a %dx%d picture: %s", k.w, k.h, k.x, k.y, sw, sh, want ? "no frame" : "a frame was emitted"); if (!want || !o->getConsumed()) continue;
            emitted++; sig.add((uint64_t)k.w).add((uint64_t)k.h).add((uint64_t)k.x).add((uint64_t)k.y);
            if (o->getLength() == (unsigned)(k.w * k.h)) vf::finding("crop-length", "crop of %dx%d RGB24 with a length of %u bytes", k.w, k.h, o->getLength());
            VF_CHECK(o->getWidth() == k.w && o->getHeight() == k.h && (o->getLength() == (unsigned)(k.w * k.h * 3) || o->getLength() == (unsigned)(k.w * k.h)), "size", "crop of %dx%d, %u bytes, configured %dx%d", o->getWidth(), o->getHeight(), o->getLength(), k.w, k.h);
            for (int j = 0; j < k.h; j++) if (memcmp(o->getDataBuf() + (size_t)j * k.w * 3, copy.data() + ((size_t)(k.y + j) * sw + k.x) * 3, (size_t)k.w * 3)) { vf::fail("pixels", "row %d of crop %dx%d at %d,%d of %dx%d differs from the source", j, k.w, k.h, k.x, k.y, sw, sh); break; }
            VF_CHECK(o->getPresentationTime() == org->getPresentationTime() && o->getDecodeTime() == org->getDecodeTime() && o->getOriginTime() == org->getOriginTime() && o->getSequenceNumber() == org->getSequenceNumber(), "timing", "crop has times %lld/%lld, number %zu", (long long)o->getPresentationTime().count(), (long long)o->getDecodeTime().count(), o->getSequenceNumber());
            made[d.first]++; last[d.first].assign(o->getDataBuf(), o->getDataBuf() + (size_t)k.w * k.h * 3);
        }
        VF_CHECK(r == any, "result", "result %d though %s crop fits", r, any ? "a" : "no"); return r;
    }
};
static void checkState(Probe& m, int64_t ft) {
    Jzon::Object o; m.getState(o); const Jzon::Array& a = o.Get("crops").AsArray(); bool ok = a.GetCount() == m.crops.size() && o.Get("frameTime").ToInt() == ft;
    for (size_t i = 0; ok && i < a.GetCount(); i++) { const Jzon::Object& x = a.Get(i).AsObject(); auto it = m.crops.find(x.Get("id").ToInt()); ok = it != m.crops.end() && x.Get("width").ToInt() == it->second.w && x.Get("height").ToInt() == it->second.h && x.Get("x").ToInt() == it->second.x && x.Get("y").ToInt() == it->second.y && x.Get("degree").ToInt() == it->second.deg; }
    VF_CHECK(ok, "configuration", "crops reported %s", mod::state(m).c_str()); vf::count("states compared");
}
static void request(vf::Rng& r, Probe& m, const std::vector<int>& ids, int bw, int bh) {
    Crop k; k.w = (int)r.range(1, bw); k.h = (int)r.range(1, bh); k.x = (int)r.range(0, bw - k.w + 1); k.y = (int)r.range(0, bh - k.h + 1); k.deg = r.chance(1, 3) ? (int)r.range(-360, 360) : 0; if (r.chance(1, 3)) k.x = bw - k.w; if (r.chance(1, 3)) k.y = bh - k.h; if (r.chance(1, 12)) { k.x = r.pick({0, 1 << 30, 2147483647, 5000}); } if (r.chance(1, 12)) k.y = r.pick({0, 2147483647, 1081});
    int id = r.chance(1, 10) ? 4242 : r.pick(ids); bool bad = !m.crops.count(id); const char* drop = "";
    if (r.chance(1, 5)) { bad = true; switch (r.below(7)) { case 0: k.w = r.pick({0, -4, 1921, 2147483647}); break; case 1: k.h = r.pick({0, -1, 1081, 1 << 30}); break; case 2: k.x = r.pick({-1, -2147483647}); break; case 3: k.y = -1; break; case 4: k.deg = 361; break; case 5: k.deg = -361; break; case 6: drop = r.pick({"id", "width", "height", "x", "y"}); break; } }
    if (!*drop && r.chance(1, 2)) m.configCrop(id, k.w, k.h, k.x, k.y, k.deg);
    else { Jzon::Object p; auto put = [&](const char* n, int v) { if (strcmp(n, drop)) p.Add(n, v); else if (r.chance(1, 2)) p.Add(n, "text"); }; put("id", id); put("width", k.w); put("height", k.h); put("x", k.x); put("y", k.y); if (k.deg || r.chance(1, 2)) p.Add("degree", k.deg); else if (!bad) k.deg = m.crops[id].deg; mod::event(m, "configCrop", p); }
    m.events(); if (!bad) { m.crops[id] = k; vf::count("crops configured"); } else vf::count("requests refused");
}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; VideoSplitter* no = VideoSplitter::createNew(us(-1)); VF_CHECK(!no, "bad-config", "a splitter with a negative frame time was created"); delete no;
    int big = r.chance(1, 12) ? 600 : 90; bool path = c.idx % 25 == 24; unsigned n = r.range(1, path ? 3 : 16), rounds = r.range(4, c.thorough ? 80 : 25); std::unique_ptr<Probe> m(new Probe()); std::vector<int> ids; int64_t ft = 0; int sw = (int)r.range(1, big), sh = (int)r.range(1, big);
    if (!path) {
        for (unsigned i = 0; i < n; i++) { ids.push_back(50 + (int)i * 2); if (!m->add(ids.back())) vf::fail("add", "output refused"); } VF_CHECK(!m->add(ids[0]), "add", "an output id was accepted twice");
        for (unsigned s = 0; s < rounds && !vf::failed(); s++) {
            if (r.chance(1, 4)) { sw = (int)r.range(1, big); sh = (int)r.range(1, big); } for (unsigned k = 0, e = (unsigned)r.below(6); k < e; k++) request(r, *m, ids, sw, sh); 
            if (r.chance(1, 10)) { int v = (int)r.range(-5, 100000); m->configure(v); m->events(); if (v >= 0) ft = v; } if (r.chance(1, 4)) checkState(*m, ft);
            std::unique_ptr<InterleavedVideoFrame> src(InterleavedVideoFrame::createNew(RAW, sw, sh, RGB24)); if (r.chance(1, 30)) { if (r.chance(1, 2)) src->setSize(sw, 0); else src.reset(InterleavedVideoFrame::createNew(RAW, sw, sh, YUYV422)); }
            uint64_t z = r.u64(); for (unsigned i = 0; i < src->getMaxLength(); i++) { if (!(i & 7)) z = z * 6364136223846793005ull + 1442695040888963407ull; src->getDataBuf()[i] = (unsigned char)(z >> ((i & 7) * 8)); }
            src->setPresentationTime(us((int64_t)r.below(1ull << 40))); src->setDecodeTime(us((int64_t)r.below(1ull << 40))); src->setOriginTime(Clock::time_point(us((int64_t)r.below(1ull << 50)))); src->setSequenceNumber(r.below(1000000));
            std::map<int, Frame*> d; std::map<int, std::unique_ptr<InterleavedVideoFrame>> own; for (int id : ids) if (r.chance(7, 8)) { Crop& k = m->crops[id]; unsigned need = (unsigned)((Probe::fits(k, src.get()) ? k.w * k.h * 3 : 0)); own[id].reset(InterleavedVideoFrame::createNew(RAW, need + 32)); memset(own[id]->getDataBuf(), 0x5A, need + 32); d[id] = own[id].get(); }
            m->run(src.get(), d); for (auto& o : own) { unsigned L = o.second->getMaxLength() - 32; for (unsigned i = 0; i < 32; i++) if (o.second->getDataBuf()[L + i] != 0x5A) { vf::fail("overflow", "byte %u beyond a crop was written", i); break; } }
            if (r.chance(1, 30) && ids.size() > 1) { int id = ids.back(); ids.pop_back(); VF_CHECK(m->del(id), "remove", "refused"); vf::count("outputs removed"); }
        }
    } else {
        mod::Feed feed; mod::Catch sink; feed.setId(1); m->setId(2); sink.setId(3); StreamInfo si(VIDEO); si.video.codec = RAW; si.video.pixelFormat = RGB24; feed.mk = [&](ConnectionData d) { return VideoFrameQueue::createNew(d, &si, 2); }; VF_CHECK(feed.connectOneToOne(m.get()), "connect", "refused"); std::map<int, int> back;
        for (unsigned i = 0; i < n; i++) { int id = 70 + (int)i; ids.push_back(id); if (!m->connectManyToMany(&sink, 200 + (int)i, id)) { vf::fail("connect", "refused"); return; } back[200 + (int)i] = id; m->crops[id] = Crop(); } checkState(*m, 0);
        int64_t t = 0; uint64_t recv = 0; feed.fill = [&](int, Frame* f) { VideoFrame* v = dynamic_cast<VideoFrame*>(f); v->setSize(sw, sh); v->setLength(sw * sh * 3); for (int i = 0; i < sw * sh * 3; i++) f->getDataBuf()[i] = (unsigned char)(i * 7 + t); f->setPresentationTime(us(t)); return true; };
        sink.got = [&](int rd, Frame* f) { recv++; auto& l = m->last[back[rd]]; VF_CHECK((size_t)dynamic_cast<VideoFrame*>(f)->getWidth() * dynamic_cast<VideoFrame*>(f)->getHeight() * 3 == l.size() && !memcmp(f->getDataBuf(), l.data(), l.size()) && f->getPresentationTime().count() == t, "delivery", "the crop delivered is not the one made"); };
        for (unsigned s = 0; s < rounds && !vf::failed(); s++) { for (int k = 0; k < 3; k++) request(r, *m, ids, sw, sh); t += 40000; uint64_t before = m->emitted, rb = recv; feed.step(); m->step(); sink.step(); VF_CHECK(recv - rb == m->emitted - before, "delivery", "round %u of %u outputs: %llu crops made, %llu delivered", s, n, (unsigned long long)(m->emitted - before), (unsigned long long)(recv - rb)); }
        vf::count("crops delivered", recv);
    }
    vf::count("pictures split", m->rounds); vf::count("crops emitted", m->emitted); vf::count("crops unset", m->unset); vf::count("crops outside the picture", m->outside); vf::count("empty or foreign pictures", m->foreign); vf::distinct(m->sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %u outputs, %llu pictures, %llu crops emitted, %llu outside", (unsigned long long)c.idx, n, (unsigned long long)m->rounds, (unsigned long long)m->emitted, (unsigned long long)m->outside));
}
