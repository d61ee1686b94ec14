// P11: the video mixer against an online reference composition.
#include "mod.hh"
#include "VideoFrame.hh"
#include "modules/videoMixer/VideoMixer.hh"
#include <opencv2/opencv.hpp>
using mod::us;
struct Lay { float w, h, x, y; int layer; bool on; float op; Lay() : w(1), h(1), x(0), y(0), layer(0), on(false), op(1) {} };
static InterleavedVideoFrame* picture(vf::Rng& r, int w, int h) {
    InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, w, h, RGB24); f->setLength(w * h * 3); unsigned char* p = f->getDataBuf(); unsigned mode = (unsigned)r.below(3); unsigned char c0 = (unsigned char)r.below(256), c1 = (unsigned char)r.below(256); uint64_t z = r.u64();
    for (int i = 0; i < w * h * 3; i++) { if (mode == 0) p[i] = i % 3 ? c0 : c1; else if (mode == 1) p[i] = (unsigned char)((i / 3 % w) * 3 + (i / 3 / w) * 7 + (i % 3) * 40 + c0); else { if (!(i & 7)) z = z * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char)(z >> ((i & 7) * 8)); } }
    return f;
}
class Probe : public VideoMixer {
public:
    std::map<int, Lay> lay; int W, H; bool paced; uint64_t rounds = 0, drawn = 0, hidden = 0, cropped = 0, blended = 0, scaled = 0, empty = 0, foreign = 0, top = 0; vf::Hash sig; std::function<void(Frame*)> onOut; bool expectFit = true;
    Probe(int n, int w, int h, us ft) : VideoMixer(n, w, h, ft), W(w), H(h), paced(ft.count() > 0) {}
    void events() { this->BaseFilter::processEvent(); }
    bool add(int id) { bool ok = specificReaderConfig(id, NULL); if (ok) lay[id] = Lay(); return ok; }
    bool run(std::map<int, Frame*>& o, Frame* d) { std::vector<int> nf; for (auto& i : o) nf.push_back(i.first); return doProcessFrame(o, d, nf); }
    std::vector<int> step() { int r = 0; return processFrame(r); }
    using BaseFilter::setFrameTime; using BaseFilter::getFrameTime;
protected:
    bool doProcessFrame(std::map<int, Frame*>& org, Frame* dst, std::vector<int> nf) {
        cv::Mat ref(H, W, CV_8UC3, cv::Scalar(0, 0, 0)); int64_t latest = 0; bool any = false; rounds++;
        std::vector<std::pair<int, int>> order; for (auto& o : org) if (o.second && lay.count(o.first)) { if (lay[o.first].on) order.push_back({lay[o.first].layer, o.first}); else hidden++; } else empty++;
        std::sort(order.begin(), order.end());
        for (auto& q : order) {
            Lay& l = lay[q.second]; VideoFrame* f = dynamic_cast<VideoFrame*>(org[q.second]); int fw = f->getWidth(), fh = f->getHeight(); any = true; latest = std::max<int64_t>(latest, f->getPresentationTime().count());
            if (fw <= 0 || fh <= 0 || (size_t)fw * fh * 3 > f->getMaxLength()) { foreign++; continue; }
            int sw = (int)(l.w * W), sh = (int)(l.h * H), x = (int)(l.x * W), y = (int)(l.y * H); if (sw <= 0 || sh <= 0 || x >= W || y >= H) { empty++; continue; }
            cv::Mat img(fh, fw, CV_8UC3, f->getDataBuf()), s; if (sw != fw || sh != fh) { cv::resize(img, s, cv::Size(sw, sh)); scaled++; } else s = img;
            if (l.layer == getMaxChannels()) top++; if (x + sw > W || y + sh > H) cropped++; if (l.op < 1) blended++; drawn++; sig.add((uint64_t)l.layer).add((uint64_t)(x * 7 + y)).add((uint64_t)(sw * 5 + sh));
            for (int j = 0; j < sh && y + j < H; j++) for (int i = 0; i < sw && x + i < W; i++) for (int k = 0; k < 3; k++) { unsigned char& d = ref.at<cv::Vec3b>(y + j, x + i)[k]; float v = s.at<cv::Vec3b>(j, i)[k]; d = l.op == 1 ? (unsigned char)v : cv::saturate_cast<unsigned char>(v * l.op + d * (1 - l.op)); }
        }
        bool r = VideoMixer::doProcessFrame(org, dst, nf); VideoFrame* o = dynamic_cast<VideoFrame*>(dst);
        VF_CHECK(r && dst->getConsumed(), "composed", "no picture was composed of %zu inputs", org.size()); if (!r) return r;
        VF_CHECK(o->getWidth() == W && o->getHeight() == H && o->getLength() == (unsigned)(W * H * 3), "size", "picture of %dx%d, %u bytes, configured %dx%d", o->getWidth(), o->getHeight(), o->getLength(), W, H);
        const unsigned char* p = dst->getDataBuf(); unsigned n = (unsigned)(W * H * 3); int tol = (int)order.size();      // blending may round either way at every layer
        for (unsigned i = 0; i < n; i++) { int d = (int)p[i] - (int)ref.data[i]; if (d > tol || d < -tol) { vf::fail("pixels", "pixel %u,%u channel %u is %d, expected %d (%zu pictures drawn on %dx%d)", i / 3 % W, i / 3 / W, i % 3, p[i], ref.data[i], order.size(), W, H); break; } }
        bool exact = true; for (auto& q : order) if (lay[q.second].op < 1) exact = false; if (exact && !vf::failed()) VF_CHECK(!memcmp(p, ref.data, n), "pixels", "opaque composition differs");
        if (!paced && any) VF_CHECK(dst->getPresentationTime().count() == latest, "time", "picture stamped %lld, latest drawn input %lld", (long long)dst->getPresentationTime().count(), (long long)latest);
        if (onOut) onOut(dst); return r;
    }
};
static void checkState(Probe& m) {
    Jzon::Object o; m.getState(o); const Jzon::Array& a = o.Get("channels").AsArray(); bool ok = o.Get("width").ToInt() == m.W && o.Get("height").ToInt() == m.H && o.Get("maxChannels").ToInt() == m.getMaxChannels() && a.GetCount() == m.lay.size();
    for (size_t i = 0; ok && i < a.GetCount(); i++) { const Jzon::Object& x = a.Get(i).AsObject(); auto it = m.lay.find(x.Get("id").ToInt()); if (it == m.lay.end()) { ok = false; break; } Lay& l = it->second; auto eq = [&](const char* k, float v) { return fabs(x.Get(k).ToFloat() - v) < 1e-4; }; ok = eq("width", l.w) && eq("height", l.h) && eq("x", l.x) && eq("y", l.y) && eq("opacity", l.op) && x.Get("layer").ToInt() == l.layer && x.Get("enabled").ToBool() == l.on; }
    VF_CHECK(ok, "layout", "layout reported %s (configured %dx%d)", mod::state(m).c_str(), m.W, m.H); vf::count("states compared");
}
static void request(vf::Rng& r, Probe& m, const std::vector<int>& ids, int big) {
    if (r.chance(1, 6)) {        // output size
        int w = (int)r.range(1, big), h = (int)r.range(1, big), fps = r.chance(1, 2) ? 0 : (int)r.range(1, 60); if (r.chance(1, 4)) { switch (r.below(4)) { case 0: w = r.pick({0, -1, 1921, 1 << 30}); break; case 1: h = r.pick({0, -5, 1081, 2000000000}); break; case 2: w = -w; h = -h; break; case 3: w = 1921; break; } }
        if (m.paced) fps = 0; fps = 0; m.configure(w, h, fps); m.events(); bool ok = w > 0 && w <= 1920 && h > 0 && h <= 1080; if (ok) { m.W = w; m.H = h; vf::count("output size changes"); } else vf::count("layout requests refused"); return;
    }
    Lay l; auto q = [&]() { return r.range(1, 64) / 64.0f; }; l.w = q(); l.h = q(); l.x = r.range(0, 64) / 64.0f; l.y = r.range(0, 64) / 64.0f; l.layer = (int)r.range(0, m.getMaxChannels()); l.on = r.chance(5, 6); l.op = r.chance(1, 2) ? 1 : r.chance(1, 6) ? r.pick({0.99f, 0.01f}) : r.range(0, 64) / 64.0f; if (r.chance(1, 3)) { l.x = 0; l.y = 0; } if (r.chance(1, 3)) { l.w = l.h = r.pick({0.5f, 1.f}); }
    int id = r.chance(1, 10) ? 77777 : r.pick(ids); bool bad = !m.lay.count(id);
    if (r.chance(1, 5)) { bad = true; switch (r.below(9)) { case 0: l.w = r.pick({0.f, -0.5f, 1.5f, 1e9f}); break; case 1: l.h = r.pick({0.f, -1.f, 2.f, 1e30f}); break; case 2: l.x = r.pick({-0.25f, 1.25f, 1e6f}); break; case 3: l.y = r.pick({-0.25f, 7.f, 1e20f}); break; case 4: l.layer = -1; break; case 5: l.layer = m.getMaxChannels() + 1; break; case 6: l.op = 1.25f; break; case 7: l.op = -0.25f; break; case 8: l.layer = 1 << 30; break; } }
    if (r.chance(1, 2)) m.configChannel(id, l.w, l.h, l.x, l.y, l.layer, l.on, l.op);
    else { Jzon::Object p; const char* drop = r.chance(1, 8) ? r.pick({"id", "width", "height", "x", "y", "layer", "enabled", "opacity"}) : ""; auto put = [&](const char* k) { return strcmp(k, drop) != 0; };
        if (put("id")) p.Add("id", id); if (put("width")) p.Add("width", l.w); if (put("height")) p.Add("height", l.h); if (put("x")) p.Add("x", l.x); if (put("y")) p.Add("y", l.y); if (put("layer")) p.Add("layer", l.layer); if (put("enabled")) p.Add("enabled", l.on); if (put("opacity")) p.Add("opacity", l.op); if (*drop) bad = true; mod::event(m, "configChannel", p); }
    m.events(); if (!bad) { m.lay[id] = l; vf::count("layout requests applied"); } else vf::count("layout requests refused");
}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; VideoMixer* no = NULL; switch (r.below(3)) { case 0: no = VideoMixer::createNew(16, r.pick({0, -1, 1921}), 10); break; case 1: no = VideoMixer::createNew(16, 10, r.pick({0, -8, 1081})); break; case 2: no = VideoMixer::createNew(16, 10, 10, us(-1)); break; } VF_CHECK(!no, "bad-config", "a mixer with an impossible output was created"); delete no;
    int n = (int)r.range(1, r.chance(1, 4) ? 16 : 5), big = r.chance(1, 10) ? 700 : 120; bool path = c.idx % 12 == 11; us ft(path && r.chance(1, 2) ? 40000 : 0); std::unique_ptr<Probe> m(new Probe(n, (int)r.range(1, big), (int)r.range(1, big), ft)); std::vector<int> ids; unsigned rounds = r.range(4, c.thorough ? 60 : 20);
    if (!path) {
        for (int i = 0; i < n; i++) { ids.push_back(100 + i * 3 + (int)r.below(3)); if (!m->add(ids.back())) vf::fail("add", "channel refused"); } VF_CHECK(!m->add(ids[0]), "add", "a channel id was accepted twice"); checkState(*m);
        for (int id : ids) if (r.chance(4, 5)) { m->configChannel(id, 1, 1, 0, 0, (int)r.range(0, n), true, 1); m->lay[id].on = true; m->events(); Jzon::Object o; m->getState(o); const Jzon::Array& a = o.Get("channels").AsArray(); for (size_t i = 0; i < a.GetCount(); i++) if (a.Get(i).AsObject().Get("id").ToInt() == id) m->lay[id].layer = a.Get(i).AsObject().Get("layer").ToInt(); }
        std::map<int, std::unique_ptr<InterleavedVideoFrame>> cur; std::map<int, int64_t> ts;
        for (unsigned s = 0; s < rounds && !vf::failed(); s++) {
            for (unsigned k = 0, e = (unsigned)r.below(4); k < e; k++) request(r, *m, ids, big); if (r.chance(1, 4)) checkState(*m);
            std::map<int, Frame*> o;
            for (int id : ids) { if (r.chance(1, 2) || !cur.count(id)) { if (r.chance(1, 12)) cur.erase(id); else { int w = r.chance(1, 6) ? m->W : (int)r.range(1, big), h = r.chance(1, 6) ? m->H : (int)r.range(1, big); cur[id].reset(picture(r, w, h)); ts[id] = (int64_t)r.below(1ull << 40); cur[id]->setPresentationTime(us(ts[id])); 
                    if (r.chance(1, 30)) { if (r.chance(1, 2)) cur[id]->setSize(0, h); else { cur[id].reset(InterleavedVideoFrame::createNew(RAW, w, h, YUYV422)); cur[id]->setPresentationTime(us(ts[id])); } } } }
                o[id] = cur.count(id) ? cur[id].get() : NULL; }
            if (r.chance(1, 10)) o[66666] = NULL;
            unsigned need = (unsigned)(m->W * m->H * 3); std::unique_ptr<InterleavedVideoFrame> dst(InterleavedVideoFrame::createNew(RAW, need + 64)); memset(dst->getDataBuf(), 0xA5, need + 64); m->run(o, dst.get());
            for (unsigned i = need; i < need + 64; i++) if (dst->getDataBuf()[i] != 0xA5) { vf::fail("overflow", "byte %u beyond the picture was written", i - need); break; }
        }
    } else {
        mod::Feed feed; mod::Catch sink; feed.setId(1); m->setId(2); sink.setId(3); StreamInfo si(VIDEO); si.video.codec = RAW; si.video.pixelFormat = RGB24; feed.mk = [&](ConnectionData d) { return VideoFrameQueue::createNew(d, &si, 2); }; n = std::min(n, 3);
        for (int i = 0; i < n; i++) { ids.push_back(10 + i); if (!feed.connectManyToMany(m.get(), ids[i], 500 + i)) { vf::fail("connect", "refused"); return; } m->lay[ids[i]] = Lay(); } VF_CHECK(m->connectOneToOne(&sink), "connect", "output refused"); checkState(*m);
        int64_t t = 0; std::vector<unsigned char> last; uint64_t recv = 0; m->onOut = [&](Frame* f) { last.assign(f->getDataBuf(), f->getDataBuf() + f->getLength()); };
        feed.fill = [&](int, Frame* f) { if (r.chance(1, 4)) return false; VideoFrame* v = dynamic_cast<VideoFrame*>(f); int w = (int)r.range(1, big), h = (int)r.range(1, big); v->setSize(w, h); v->setLength(w * h * 3); for (int i = 0; i < w * h * 3; i++) f->getDataBuf()[i] = (unsigned char)(i * 5 + w); f->setPresentationTime(us(t)); return true; };
        sink.got = [&](int, Frame* f) { recv++; VF_CHECK(f->getLength() == last.size() && !memcmp(f->getDataBuf(), last.data(), last.size()), "delivery", "the picture delivered is not the one composed"); };
        for (unsigned s = 0; s < rounds && !vf::failed(); s++) { request(r, *m, ids, big); t += 40000; feed.step(); m->step(); sink.step(); if (r.chance(1, 4)) checkState(*m); if (r.chance(1, 30) && ids.size() > 1) { int id = ids.back(); VF_CHECK(m->disconnectReader(id), "disconnect", "refused"); ids.pop_back(); m->lay.erase(id); checkState(*m); vf::count("inputs removed"); } }
        vf::count("pictures delivered", recv); m->disconnectWriter(DEFAULT_ID);
    }
    vf::count("pictures composed", m->rounds); vf::count("inputs drawn", m->drawn); vf::count("disabled inputs", m->hidden); vf::count("inputs cropped", m->cropped); vf::count("inputs blended", m->blended); vf::count("inputs scaled", m->scaled); vf::count("inputs without picture or extent", m->empty); vf::count("empty or foreign pictures", m->foreign); vf::count("inputs on the topmost layer", m->top); vf::distinct(m->sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %d channels, %llu pictures composed, %llu inputs drawn (%llu cropped, %llu blended)", (unsigned long long)c.idx, n, (unsigned long long)m->rounds, (unsigned long long)m->drawn, (unsigned long long)m->cropped, (unsigned long long)m->blended));
}
