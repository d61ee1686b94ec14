// P15: the H.264 and H.265 encoders; what they emit is decoded with libavcodec and compared with what was fed.
#include "mod.hh"
#include "VideoFrame.hh"
#include "SlicedVideoFrameQueue.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
extern "C" {
#include <libavcodec/avcodec.h>
#include <x264.h>
#include <x265.h>
}
using mod::us;
typedef std::chrono::system_clock Clock;
static StreamInfo info(VIDEO);
class RawQueue : public AVFramedQueue { public: RawQueue(ConnectionData c, unsigned n, unsigned cap) : AVFramedQueue(c, &info, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, cap); } };
struct Nal { std::vector<unsigned char> b; int64_t pts, dts; Clock::time_point org; uint64_t seq; int w, h; int type; };
struct Unit { std::vector<Nal> n; };
struct Src { int64_t pts; Clock::time_point org; uint64_t seq; int w, h; PixType f; unsigned code; bool intra, firstAfterConfig; unsigned epoch; bool annexb; bool out; int gop, delay; };
template <class B> struct Enc : public B { std::vector<int> step() { int r = 0; return B::processFrame(r); } const StreamInfo* si() { return B::outputStreamInfo; } std::vector<uint64_t> in; bool doProcessFrame(Frame* o, Frame* d) { in.push_back(o->getSequenceNumber()); return B::doProcessFrame(o, d); } };
struct AnyEnc { std::unique_ptr<Enc<VideoEncoderX264>> a; std::unique_ptr<Enc<VideoEncoderX265>> b;
    BaseFilter* f() { return a ? (BaseFilter*)a.get() : (BaseFilter*)b.get(); } void step() { if (a) a->step(); else b->step(); } const StreamInfo* si() { return a ? a->si() : b->si(); }
    std::vector<uint64_t>& in() { return a ? a->in : b->in; }
    void configure(int br, int fps, int gop, int la, int bf, int th, bool ax, std::string p, int gt) { if (a) a->configure(br, fps, gop, la, bf, th, ax, p, gt); else b->configure(br, fps, gop, la, bf, th, ax, p, gt); } };
static int startCode(const std::vector<unsigned char>& v) { if (v.size() > 4 && !v[0] && !v[1] && !v[2] && v[3] == 1) return 4; if (v.size() > 3 && !v[0] && !v[1] && v[2] == 1) return 3; return 0; }
static int nalType(bool h265, const std::vector<unsigned char>& v) { int s = startCode(v); if (!s) return -1; return h265 ? (v[s] >> 1) & 63 : v[s] & 31; }
// the picture carries a 16-bit code as a 4x4 board of bright and dark tiles in luma, and a chroma tint from the code
static int tile(int x, int y, int w, int h) { return std::min(3, y * 4 / h) * 4 + std::min(3, x * 4 / w); }
static void tint(unsigned code, int& u, int& v) { u = 96 + (code % 5) * 16; v = 160 - (code / 5 % 5) * 16; }
static void dims(PixType f, int w, int h, int& cw, int& ch) { cw = f == YUV444P ? w : (w + 1) / 2; ch = f == YUV420P ? (h + 1) / 2 : h; }
static unsigned paint(unsigned char* p, PixType f, int w, int h, unsigned code) { int cw, ch, u, v; dims(f, w, h, cw, ch); tint(code, u, v); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) *p++ = (code >> tile(x, y, w, h)) & 1 ? 190 + (x & 3) : 50 + (y & 3); memset(p, u, cw * ch); p += cw * ch; memset(p, v, cw * ch); return w * h + 2 * cw * ch; }
struct Decoder { AVCodecContext* c; AVPacket* p; AVFrame* f; std::function<void(AVFrame*)> got; bool bad;
    Decoder(bool h265, const StreamInfo* si, bool extra) : bad(false) { const AVCodec* d = avcodec_find_decoder(h265 ? AV_CODEC_ID_HEVC : AV_CODEC_ID_H264); c = avcodec_alloc_context3(d); c->thread_count = 1; c->err_recognition = AV_EF_EXPLODE | AV_EF_CRCCHECK; if (extra) { c->extradata = (uint8_t*)av_mallocz(si->extradata_size + 64); memcpy(c->extradata, si->extradata, si->extradata_size); c->extradata_size = si->extradata_size; } avcodec_open2(c, d, NULL); p = av_packet_alloc(); f = av_frame_alloc(); }
    ~Decoder() { avcodec_free_context(&c); av_packet_free(&p); av_frame_free(&f); }
    void drain() { while (avcodec_receive_frame(c, f) == 0) { if (f->decode_error_flags) bad = true; got(f); av_frame_unref(f); } }
    void feed(const std::vector<unsigned char>& v, int64_t pts) { av_new_packet(p, v.size()); memcpy(p->data, v.data(), v.size()); p->pts = pts; if (avcodec_send_packet(c, p) < 0) bad = true; av_packet_unref(p); drain(); }
    void flush() { avcodec_send_packet(c, NULL); drain(); } };
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; av_log_set_level(AV_LOG_QUIET); info.video.codec = RAW; info.video.pixelFormat = YUV420P; bool h265 = c.idx % 3 == 2; AnyEnc e; if (h265) e.b.reset(new Enc<VideoEncoderX265>()); else e.a.reset(new Enc<VideoEncoderX264>());
    mod::Feed feed; mod::Catch sink; feed.setId(1); e.f()->setId(2); sink.setId(3); RawQueue* fq = NULL; feed.mk = [&](ConnectionData d) { return fq = new RawQueue(d, 3, 512 * 512 * 3); };
    VF_CHECK(feed.connectOneToOne((BaseFilter*)e.f()) && e.f()->connectOneToOne(&sink), "connect", "refused");
    auto evenSize = [&](int& w, int& h) { int lo = h265 ? 32 : 8; w = 2 * (int)r.range(lo, 80); h = 2 * (int)r.range(lo, 80); };
    struct Cfg { int br, fps, gop, la, bf, th; bool ax; std::string preset; int gt; } cfg = {2000, 25, 25, 25, 4, 4, true, "ultrafast", 0};
    std::vector<Src> src; std::map<uint64_t, size_t> bySeq; std::vector<Unit> units; std::vector<std::pair<unsigned, StreamInfo*>> unused; std::map<unsigned, std::vector<unsigned char>> extra; unsigned epoch = 0; bool needsIntra = true; int W, H; evenSize(W, H); PixType F = YUV420P; int64_t pts = r.chance(1, 2) ? 1000000 : (int64_t)r.below(1ull << 50) + 5000000; us sent(0);
    sink.got = [&](int, Frame* f) { VideoFrame* v = dynamic_cast<VideoFrame*>(f); Nal n; n.b.assign(f->getDataBuf(), f->getDataBuf() + f->getLength()); n.pts = f->getPresentationTime().count(); n.dts = f->getDecodeTime().count(); n.org = f->getOriginTime(); n.seq = f->getSequenceNumber(); n.w = v->getWidth(); n.h = v->getHeight(); n.type = nalType(h265, n.b);
        VF_CHECK(n.type >= 0, "startcode", "a NAL unit of %zu bytes without start code", n.b.size()); if (units.empty() || units.back().n.back().seq != n.seq || n.type == (h265 ? 35 : 9)) units.push_back(Unit()); units.back().n.push_back(n); };
    feed.fill = [&](int, Frame* f) { VideoFrame* v = dynamic_cast<VideoFrame*>(f); v->setSize(W, H); v->setPixelFormat(F); unsigned n = (unsigned)(W * H * 3); if (F == YUV420P || F == YUV422P || F == YUV444P) n = paint(f->getDataBuf(), F, W, H, src.back().code); f->setLength(n); f->setPresentationTime(us(pts)); return true; };
    uint64_t intraReq = 0, paced = 0, due = 0; int64_t ref = 0; 
    auto push = [&](bool valid) -> bool { Src s; memset((void*)&s, 0, sizeof s); s.pts = pts; s.w = W; s.h = H; s.f = F; s.code = (unsigned)r.below(65536); s.epoch = epoch; s.annexb = cfg.ax; s.gop = cfg.gop; s.delay = cfg.la + 2 * std::max(4, cfg.bf) + cfg.th + 12; s.firstAfterConfig = needsIntra; s.intra = needsIntra; src.push_back(s); feed.step(); if (Frame* f = fq->getFront()) { src.back().org = f->getOriginTime(); src.back().seq = f->getSequenceNumber(); } else vf::fail("feed", "no frame reached the queue");
        size_t ins = e.in().size(); e.step(); bool taken = e.in().size() > ins; size_t before = units.size(); for (int i = 0; i < 60; i++) { size_t k = units.empty() ? 0 : units.back().n.size(), u = units.size(); sink.step(); if (units.size() == u && (units.empty() || units.back().n.size() == k)) break; } if (taken) VF_CHECK(e.in().size() == ins + 1 && e.in().back() == src.back().seq, "input", "the encoder was given picture %llu, not %llu", (unsigned long long)e.in().back(), (unsigned long long)src.back().seq); if (!taken) { paced++; src.pop_back(); VF_CHECK(units.size() == before, "idle", "output without input"); } else if (valid) { if (cfg.gt > 0) { if (!ref) ref = pts; if (pts >= ref) { ref += cfg.gt; src.back().intra = true; due++; } } bySeq[src.back().seq] = src.size() - 1; needsIntra = false; const StreamInfo* si = e.si(); extra[epoch].assign(si->extradata, si->extradata + si->extradata_size); } else { VF_CHECK(units.size() == before, "impossible", "a %dx%d picture of format %d produced output", W, H, F); src.pop_back(); } pts += r.chance(2, 3) ? 1000000 / std::max(1, cfg.fps) : r.range(1, 80000); return taken; };
    unsigned phases = (unsigned)r.range(1, c.thorough ? 6 : 3); uint64_t refused = 0, reconf = 0, bad = 0, sizes = 0; std::vector<size_t> phaseEnd; std::vector<Cfg> cfgOf;
    for (unsigned ph = 0; ph < phases && !vf::failed(); ph++) {
        if (ph == 0 ? r.chance(4, 5) : r.chance(2, 3)) {
            Cfg n = cfg; n.br = (int)r.range(300, 6000); n.fps = r.pick({0, 10, 24, 25, 30, 50}); n.gop = (int)r.range(1, 40); n.la = (int)r.range(0, 20); n.bf = (int)r.range(0, 5); if (h265) n.la = std::max(n.la, n.bf + 1); n.th = (int)r.range(1, 4); n.ax = r.chance(2, 3); n.preset = r.pick({"ultrafast", "superfast", "veryfast", "medium"}); if (h265 && n.preset == "medium" && !c.thorough) n.preset = "superfast"; n.gt = r.chance(1, 4) ? (int)r.range(0, 3000000) : 0;
            e.configure(n.br, n.fps, n.gop, n.la, n.bf, n.th, n.ax, n.preset, n.gt); cfg = n; if (cfg.fps == 0) cfg.fps = VIDEO_DEFAULT_FRAMERATE; if (cfg.gt && cfg.gt < MIN_GOP_TIME) cfg.gt = MIN_GOP_TIME; reconf++; epoch++; needsIntra = true; }
        if (ph && r.chance(1, 2)) { int ow = W, oh = H; PixType of = F; evenSize(W, H); if (r.chance(1, 3)) F = r.pick({YUV420P, YUV422P, YUV444P}); if (h265 && F == YUV422P) F = YUV420P; if (ow != W || oh != H || F != of) { epoch++; needsIntra = true; sizes++; } }
        unsigned n = (unsigned)r.range(3, c.thorough ? 60 : 25);
        for (unsigned i = 0; i < n && !vf::failed(); i++) {
            if (r.chance(1, 12)) { Jzon::Object p; mod::event(*e.f(), "forceIntra", p); needsIntra = true; intraReq++; }
            if (r.chance(1, 40)) { Jzon::Object p; if (r.chance(1, 2)) { ref = pts + r.range(-1000000, 1000000); p.Add("referenceTime", std::to_string(ref)); } else if (r.chance(1, 2)) p.Add("referenceTime", r.pick({"", "x", "-5", "12x", "99999999999999999999999999", " "})); else p.Add("referenceTime", 12); mod::event(*e.f(), "gopReferenceTime", p); }
            if (r.chance(1, 15)) { Jzon::Object p; switch (r.below(7)) { case 0: p.Add("bitrate", r.pick({0, -1, -2000})); break; case 1: p.Add("gop", r.pick({0, -1})); break; case 2: p.Add("threads", r.pick({0, -1})); break; case 3: p.Add("preset", ""); break; case 4: p.Add("lookahead", -1); break; case 5: p.Add("gopTime", -5); break; case 6: p.Add("fps", -25); break; }
                if (r.chance(1, 2)) p.Add("annexb", !cfg.ax); e.step(); std::string s0 = mod::state(*e.f()); mod::event(*e.f(), "configure", p); int w0 = W, h0 = H; push(true); std::string s1 = mod::state(*e.f()); (void)w0; (void)h0; if (cfg.gt == 0) VF_CHECK(s0 == s1, "refused", "an impossible configuration changed the state:\n%s\n%s", s0.c_str(), s1.c_str()); refused++; continue; }
            if (r.chance(1, 30)) { int w = W, h = H; PixType f = F; if (r.chance(1, 2)) F = r.pick({RGB24, P_NONE, YUYV422}); else { if (r.chance(1, 2)) W = 0; else H = 0; } bool t = push(false); if (r.chance(1, 2)) t |= push(false); W = w; H = h; F = f; if (t) { epoch++; needsIntra = true; bad++; } }
            push(true);
        }
        phaseEnd.push_back(src.size()); cfgOf.push_back(cfg);
    }
    size_t real = src.size(); unsigned lastEpoch = epoch; for (int i = 0; i < 90 && !vf::failed(); i++) { bool all = true; push(true); if (units.empty()) continue; for (auto& u : units) for (auto& nn : u.n) { auto it = bySeq.find(nn.seq); if (it != bySeq.end()) src[it->second].out = true; } for (size_t k = 0; k < real; k++) if (src[k].epoch == lastEpoch && !src[k].out) all = false; if (all) break; }
    if (c.verbose) { for (auto& q : src) fprintf(stderr, "fed %llu at %lld epoch %u %dx%d f%d intra %d annexb %d\n", (unsigned long long)q.seq, (long long)q.pts, q.epoch, q.w, q.h, q.f, q.intra, q.annexb); for (auto& u : units) { fprintf(stderr, "unit"); for (auto& n : u.n) fprintf(stderr, " [%d %llu %lld/%lld %zu]", n.type, (unsigned long long)n.seq, (long long)n.pts, (long long)n.dts, n.b.size()); fprintf(stderr, "\n"); } }
    // the stream, unit by unit
    int64_t lastDts = -1; uint64_t idrs = 0; std::set<uint64_t> seen; std::map<unsigned, std::unique_ptr<Decoder>> dec; vf::Hash sig; uint64_t decoded = 0; std::map<unsigned, std::vector<size_t>> shown; unsigned lastUnitEpoch = 0; bool h = h265;
    auto finish = [&](unsigned ep) { auto it = dec.find(ep); if (it == dec.end()) return; it->second->flush(); VF_CHECK(!it->second->bad, "decode", "the decoder reports errors in the stream of configuration %u", ep); dec.erase(it); };
    for (size_t i = 0; i < units.size() && !vf::failed(); i++) {
        Unit& u = units[i]; Nal& n0 = u.n[0]; auto it = bySeq.find(n0.seq); if (it == bySeq.end()) { vf::fail("number", "a unit is numbered %llu, which no picture was", (unsigned long long)n0.seq); break; } Src& s = src[it->second]; s.out = true;
        VF_CHECK(seen.insert(n0.seq).second, "twice", "picture %llu was emitted twice", (unsigned long long)n0.seq);
        bool idr = false, sps = false, pps = false, vps = !h, slice = false; for (auto& n : u.n) { VF_CHECK(n.pts == s.pts && n.org == s.org && n.seq == s.seq && n.dts == n0.dts && n.w == s.w && n.h == s.h, "stamps", "a NAL unit of picture %llu stamped %lld number %llu size %dx%d, fed as %lld %dx%d", (unsigned long long)s.seq, (long long)n.pts, (unsigned long long)n.seq, n.w, n.h, (long long)s.pts, s.w, s.h);
            int t = n.type; if (h) { if (t == 32) vps = true; if (t == 33) sps = true; if (t == 34) pps = true; if (t < 32) { if (t == 19 || t == 20) idr = true; if (!slice && idr && s.annexb) VF_CHECK(vps && sps && pps, "headers", "picture %llu is intra without parameter sets before it", (unsigned long long)s.seq); slice = true; } } else { if (t == 7) sps = true; if (t == 8) pps = true; if (t == 1 || t == 5) { if (t == 5) idr = true; if (!slice && idr && s.annexb) VF_CHECK(sps && pps, "headers", "picture %llu is intra without parameter sets before it", (unsigned long long)s.seq); slice = true; } } }
        VF_CHECK(slice, "slice", "a unit without picture"); if (!s.annexb && !(h && s.gop == 1)) VF_CHECK(!sps && !pps, "inband", "parameter sets in the stream although they are kept apart"); if (idr) idrs++; VF_CHECK(!s.intra || idr, "intra", "picture %llu (%s) is not intra", (unsigned long long)s.seq, s.firstAfterConfig ? "first or after a request" : "requested");
        if (vf::failed()) break; if (i == 0 || s.epoch != lastUnitEpoch) { VF_CHECK(i == 0 || s.epoch > lastUnitEpoch, "order", "a unit of an older configuration comes after a newer one"); if (i) finish(lastUnitEpoch); lastUnitEpoch = s.epoch; lastDts = -1; VF_CHECK(idr, "entry", "the stream of a configuration does not start with an intra picture"); }
        VF_CHECK(n0.dts <= n0.pts && n0.dts > lastDts && n0.pts - n0.dts < 80000 * 80, "decode-time", "unit %zu: decode time %lld after %lld, presented at %lld", i, (long long)n0.dts, (long long)lastDts, (long long)n0.pts); lastDts = n0.dts;
        auto& d = dec[s.epoch]; if (!d) { StreamInfo tmp(VIDEO, NULL, 0); tmp.setExtraData(extra[s.epoch].data(), extra[s.epoch].size()); VF_CHECK(extra[s.epoch].size() > 8, "extradata", "no stored parameter sets"); d.reset(new Decoder(h, &tmp, !s.annexb)); unsigned ep = s.epoch;
            d->got = [&, ep](AVFrame* f) { size_t k = 0; bool found = false; for (size_t j = 0; j < src.size(); j++) if (src[j].pts == f->pts) { k = j; found = true; } if (!found) { vf::fail("pts", "a decoded picture is due at %lld, which no picture was", (long long)f->pts); return; } Src& q = src[k]; decoded++; shown[ep].push_back(k);
                AVPixelFormat want = q.f == YUV420P ? AV_PIX_FMT_YUV420P : q.f == YUV422P ? AV_PIX_FMT_YUV422P : AV_PIX_FMT_YUV444P; VF_CHECK(f->width == q.w && f->height == q.h && (f->format == want), "size", "picture %llu decodes to %dx%d format %d, fed %dx%d format %d", (unsigned long long)q.seq, f->width, f->height, f->format, q.w, q.h, q.f); if (vf::failed()) return;
                double sum[16] = {0}; int cnt[16] = {0}; for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) { int t = tile(x, y, q.w, q.h); sum[t] += f->data[0][y * f->linesize[0] + x]; cnt[t]++; } unsigned code = 0; double err = 0; for (int t = 0; t < 16; t++) { if (sum[t] / cnt[t] > 120) code |= 1u << t; err = std::max(err, fabs(sum[t] / cnt[t] - ((q.code >> t) & 1 ? 191.5 : 51.5))); }
                VF_CHECK(code == q.code, "content", "the picture due at %lld (number %llu) decodes to content %04x, fed %04x", (long long)q.pts, (unsigned long long)q.seq, code, q.code);
                int cw, ch, U, V; dims(q.f, q.w, q.h, cw, ch); tint(q.code, U, V); double su = 0, sv = 0; for (int y = 0; y < ch; y++) for (int x = 0; x < cw; x++) { su += f->data[1][y * f->linesize[1] + x]; sv += f->data[2][y * f->linesize[2] + x]; } su /= cw * ch; sv /= cw * ch; VF_CHECK(fabs(su - U) < 24 && fabs(sv - V) < 24 && err < 70, "closeness", "picture %llu: luma off by %.0f, chroma %.0f/%.0f, fed %d/%d", (unsigned long long)q.seq, err, su, sv, U, V); sig.add((uint64_t)code); }; }
        std::vector<unsigned char> all; for (auto& n : u.n) all.insert(all.end(), n.b.begin(), n.b.end()); d->feed(all, s.pts); sig.add((uint64_t)idr);
    }
    if (!vf::failed() && !units.empty()) finish(lastUnitEpoch);
    uint64_t inside = 0; std::map<unsigned, int> gap; if (!vf::failed()) {
        for (size_t k = 0; k < real; k++) { Src& s = src[k]; if (s.epoch == lastEpoch) VF_CHECK(s.out, "lost", "picture %zu of %zu (number %llu) never came out", k, real, (unsigned long long)s.seq); else if (!s.out) { VF_CHECK(++gap[s.epoch] <= s.delay, "dropped", "%d pictures are missing before a reconfiguration, more than the encoder can hold", gap[s.epoch]); inside++; } else { VF_CHECK(gap[s.epoch] <= 16, "hole", "picture %llu came out although %d earlier ones of the same configuration did not", (unsigned long long)s.seq, gap[s.epoch]); } }
        for (auto& p : shown) for (size_t i = 1; i < p.second.size(); i++) VF_CHECK(p.second[i] > p.second[i - 1], "presentation", "pictures %zu and %zu are presented in the wrong order", p.second[i - 1], p.second[i]);
        VF_CHECK(decoded == units.size(), "decoded", "%zu units decode to %llu pictures", units.size(), (unsigned long long)decoded); }
    vf::count(h ? "H.265 pictures decoded" : "H.264 pictures decoded", decoded); vf::count("intra pictures", idrs); vf::count("intra pictures requested", intraReq); vf::count("configurations applied", reconf); vf::count("configurations refused", refused); vf::count("pictures that cannot be encoded", bad); vf::count("size or format changes", sizes); vf::count("intra pictures due by time", due); vf::count("pictures passed over by the pacing", paced); vf::count("pictures inside the encoder when reconfigured", inside); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %s, %zu pictures fed in %u phases, %llu decoded, %llu intra", (unsigned long long)c.idx, h ? "H.265" : "H.264", src.size(), phases, (unsigned long long)decoded, (unsigned long long)idrs));
}
