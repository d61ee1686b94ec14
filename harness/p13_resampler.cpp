// P13: the video resampler against a reference conversion.
#include "mod.hh"
#include "VideoFrame.hh"
#include "modules/videoResampler/VideoResampler.hh"
using mod::us;
typedef std::chrono::system_clock Clock;
static AVPixelFormat av(PixType p) { switch (p) { case RGB24: return AV_PIX_FMT_RGB24; case RGB32: return AV_PIX_FMT_RGB32; case YUYV422: return AV_PIX_FMT_YUYV422; case YUV420P: return AV_PIX_FMT_YUV420P; case YUV422P: return AV_PIX_FMT_YUV422P; case YUV444P: return AV_PIX_FMT_YUV444P; case YUVJ420P: return AV_PIX_FMT_YUVJ420P; default: return AV_PIX_FMT_NONE; } }
static StreamInfo info(VIDEO);
class SmallQueue : public AVFramedQueue { public: SmallQueue(ConnectionData c, unsigned n, unsigned cap) : AVFramedQueue(c, &info, n) { for (unsigned i = 0; i < max; i++) { frames[i] = InterleavedVideoFrame::createNew(RAW, cap); memset(frames[i]->getDataBuf(), 0, cap); } } };
class Probe : public VideoResampler { public: unsigned cap = 0; bool own = false; std::vector<int> step() { int r = 0; return processFrame(r); } int64_t ft() { return getFrameTime().count(); } private: FrameQueue* allocQueue(ConnectionData c) { if (own) { StreamInfo* s = &info; return VideoFrameQueue::createNew(c, s, 2); } return new SmallQueue(c, 3, cap); } };
struct Buf { std::vector<unsigned char> v; unsigned char* p; Buf(const void* like, size_t n) : v(n + 128) { p = v.data(); while (((uintptr_t)p ^ (uintptr_t)like) & 63) p++; } };
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; info.video.codec = RAW; info.video.pixelFormat = RGB24; int big = r.chance(1, 15) ? 500 : 80; unsigned cap = (unsigned)(big * big * 4); if (r.chance(1, 5)) cap = (unsigned)r.range(30, cap);
    std::unique_ptr<Probe> m(new Probe()); m->cap = cap; m->own = c.idx % 40 == 39; if (m->own) cap = 1920 * 1080 * 3; unsigned icap = (unsigned)(big * big * 4); mod::Feed feed; mod::Catch sink; feed.setId(1); m->setId(2); sink.setId(3); SmallQueue* fq = NULL; feed.mk = [&](ConnectionData d) { return fq = new SmallQueue(d, 3, icap); };
    VF_CHECK(feed.connectOneToOne(m.get()) && m->connectOneToOne(&sink), "connect", "refused"); int W = 0, H = 0; PixType F = RGB24; vf::Hash sig;
    std::vector<unsigned char> src; int sw = (int)r.range(1, big), sh = (int)r.range(1, big); PixType sf = RGB24; int64_t pts = 0, dts = 0; Clock::time_point org; uint64_t seq = 0; const unsigned char* sp = NULL; bool sane = true; int solid = 0; unsigned char sc[3] = {0, 0, 0}; uint64_t recv = 0, conv = 0, refused = 0, nofit = 0, copies = 0; us nodts = NO_DTS; bool hasDts = false; int len = 0; uint64_t bytes = 0, unwritten = 0;
    feed.fill = [&](int, Frame* f) {
        VideoFrame* v = dynamic_cast<VideoFrame*>(f); v->setSize(sw, sh); v->setPixelFormat(sf); int n = sane ? av_image_get_buffer_size(av(sf), sw, sh, 1) : 0; f->setLength(std::max(0, n)); uint64_t z = r.u64(); unsigned char* p = f->getDataBuf();
        if (n > 0 && n <= (int)icap) { if (solid && sf == RGB24) for (int i = 0; i < n; i++) p[i] = sc[i % 3]; else for (int i = 0; i < n; i++) { if (!(i & 7)) z = z * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char)(z >> ((i & 7) * 8)); } src.assign(p, p + std::min((int)icap, n + 64)); len = n; } sp = p; f->setPresentationTime(us(pts)); f->setDecodeTime(hasDts ? us(dts) : nodts); return true; };
    sink.got = [&](int, Frame* f) {
        recv++; VideoFrame* o = dynamic_cast<VideoFrame*>(f); int ow = W ? W : sw, oh = H ? H : sh; int n = av_image_get_buffer_size(av(F), ow, oh, 1);
        VF_CHECK(o->getWidth() == ow && o->getHeight() == oh && o->getPixelFormat() == F && (int)o->getLength() == n, "shape", "output %dx%d format %d, %u bytes; expected %dx%d format %d, %d bytes", o->getWidth(), o->getHeight(), o->getPixelFormat(), o->getLength(), ow, oh, F, n);
        VF_CHECK(o->getPresentationTime().count() == pts && o->getDecodeTime() == (hasDts ? us(dts) : nodts) && o->getSequenceNumber() == seq && o->getOriginTime() == org, "timing", "output stamped %lld/%lld, number %zu, expected %lld, %llu", (long long)o->getPresentationTime().count(), (long long)o->getDecodeTime().count(), o->getSequenceNumber(), (long long)pts, (unsigned long long)seq);
        if (vf::failed()) return;
        /* libswscale averages one pixel past the end of an odd row: the bytes behind the picture matter */ Buf in(sp, src.size()), out(f->getDataBuf(), n); memcpy(in.p, src.data(), src.size()); uint8_t *a[4], *b[4]; int al[4], bl[4]; av_image_fill_arrays(a, al, in.p, av(sf), sw, sh, 1); av_image_fill_arrays(b, bl, out.p, av(F), ow, oh, 1); memset(out.p, 0, n);
        // libswscale leaves some samples of odd sizes unwritten: only what two conversions over different backgrounds agree on is compared
        Buf alt(f->getDataBuf(), n); memset(alt.p, 255, n);
        SwsContext* s = sws_getContext(sw, sh, av(sf), ow, oh, av(F), SWS_FAST_BILINEAR, 0, 0, 0); if (!s) { vf::fail("reference", "no reference conversion"); return; } sws_scale(s, a, al, 0, sh, b, bl); av_image_fill_arrays(b, bl, alt.p, av(F), ow, oh, 1); sws_scale(s, a, al, 0, sh, b, bl); uint64_t written = 0;
        // nor do some samples depend on the picture alone: what the context converted before shows in them too, so a third conversion follows one of a plain picture
        std::vector<bool> skip(n); Buf plain(sp, src.size()), again(f->getDataBuf(), n);
        for (int k : {0, 255}) {
            memset(plain.p, k, src.size()); av_image_fill_arrays(a, al, plain.p, av(sf), sw, sh, 1); av_image_fill_arrays(b, bl, again.p, av(F), ow, oh, 1); sws_scale(s, a, al, 0, sh, b, bl);
            memset(again.p, 128, n); av_image_fill_arrays(a, al, in.p, av(sf), sw, sh, 1); sws_scale(s, a, al, 0, sh, b, bl);
            for (int i = 0; i < n; i++) if (abs((int)again.p[i] - (int)out.p[i]) > 2) skip[i] = true;
        }
        // the second sample of the last pair of an odd row lies outside the picture
        if (F == YUYV422 && (ow & 1)) for (int y = 0; y < oh; y++) { int i = y * bl[0] + (ow / 2) * 4 + 2; if (i < n) skip[i] = true; }
        sws_freeContext(s);
        int worst = 0, at = 0; for (int i = 0; i < n; i++) { if (F == RGB32 && (i & 3) == 3) continue; if (skip[i] || abs((int)out.p[i] - (int)alt.p[i]) > 2) continue; written++; int d = abs((int)out.p[i] - (int)f->getDataBuf()[i]); if (d > worst) { worst = d; at = i; } }
        bytes += written; unwritten += (uint64_t)n - written; VF_CHECK(worst <= 3, "pixels", "byte %d of %d differs by %d (%dx%d format %d to %dx%d format %d)", at, n, worst, sw, sh, sf, ow, oh, F);
        if (sf == F && sw == ow && sh == oh) { copies++; VF_CHECK(!memcmp(f->getDataBuf(), src.data(), n), "copy", "a picture already in the output format was changed"); }
        if (solid && sf == RGB24 && F == RGB24 && !(sw & 1)) for (int i = 0; i < n; i++) if (abs((int)f->getDataBuf()[i] - (int)sc[i % 3]) > 6) { vf::fail("solid", "a solid picture is not solid any more"); break; }
        VF_CHECK(src.size() <= icap && !memcmp(sp, src.data(), src.size()), "source", "the source picture was modified");
        conv++; sig.add((uint64_t)sw).add((uint64_t)sh).add((uint64_t)ow).add((uint64_t)oh).add((uint64_t)sf * 8 + F);
    };
    unsigned rounds = r.range(5, c.thorough ? 150 : 40); uint64_t fed = 0;
    for (unsigned s = 0; s < rounds && !vf::failed(); s++) {
        if (r.chance(1, 3)) { sw = (int)r.range(1, big); sh = (int)r.range(1, big); } if (r.chance(1, 4)) sf = r.pick({RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P}); sane = true; if (r.chance(1, 25)) { int k = (int)r.below(3); sane = false; if (k == 0) sf = P_NONE; else if (k == 1) sw = 0; else sh = 0; }
        if (sw <= 0 || sh <= 0 || sf == P_NONE) sane = false; if (sf == YUYV422 && sw > 1 && r.chance(1, 2)) sw &= ~1;
        if (r.chance(1, 3)) {
            int w = r.chance(1, 3) ? 0 : (int)r.range(1, big), h = r.chance(1, 3) ? 0 : (int)r.range(1, big); PixType f = r.pick({RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422}); int fps = 0; bool bad = false; int odd = -9; Jzon::Object p;
            if (r.chance(1, 4)) { bad = true; switch (r.below(5)) { case 0: w = r.pick({-1, 1921, 2147483647}); break; case 1: h = r.pick({-3, 1081, 100000}); break; case 2: f = P_NONE; break; case 3: f = YUVJ420P; break; case 4: odd = r.pick({7, 57, -2, 2147483647}); break; } }
            if (odd == -9 && r.chance(1, 2)) m->configure(w, h, fps, f); else { bool pw = r.chance(2, 3), ph = r.chance(2, 3), pf = r.chance(2, 3), ps = r.chance(2, 3); if (bad) pw = ph = pf = true; if (pw) p.Add("width", w); else w = W; if (ph) p.Add("height", h); else h = H; if (pf) p.Add("pixelFormat", odd == -9 ? (int)f : odd); else f = F; if (ps) p.Add("fps", 0); mod::event(*m, "configure", p); }
            if (!bad) { W = w; H = h; F = f; vf::count("configurations applied"); } else { refused++; }
        }
        if (r.chance(1, 20)) { int fps = (int)r.range(1, 120); m->configure(W, H, fps, F); m->step(); VF_CHECK(m->ft() == 1000000 / fps, "fps", "frame time %lld for %d frames per second", (long long)m->ft(), fps); m->configure(W, H, r.pick({0, -4}), F); m->step(); VF_CHECK(m->ft() == 0, "fps", "frame time %lld without pacing", (long long)m->ft()); vf::count("frame rates set"); }
        solid = r.chance(1, 4); for (auto& x : sc) x = (unsigned char)r.below(256); pts = (int64_t)r.below(1ull << 40); hasDts = r.chance(1, 2); dts = pts - (int64_t)r.below(100000);
        seq = fed; uint64_t before = recv; feed.step(); fed++;
        // origin time is stamped by the source; read it from the frame waiting in the queue
        int ow = W ? W : sw, oh = H ? H : sh; int need = sane ? av_image_get_buffer_size(av(F), ow, oh, 1) : -1, have = sane ? av_image_get_buffer_size(av(sf), sw, sh, 1) : -1; bool can = sane && need > 0 && have > 0 && need <= (int)cap && have <= (int)icap;
        if (can) { SwsContext* t = sws_getContext(sw, sh, av(sf), ow, oh, av(F), SWS_FAST_BILINEAR, 0, 0, 0); if (!t) can = false; sws_freeContext(t); }
        org = Clock::time_point(); if (Frame* fr = fq->getFront()) org = fr->getOriginTime();
        m->step(); sink.step(); if (!can) nofit++;
        VF_CHECK((recv > before) == can, "delivered", "%dx%d format %d to %dx%d format %d (%d bytes into %u): %s", sw, sh, sf, ow, oh, F, need, cap, can ? "no picture" : "a picture was delivered");
    }
    vf::count("pictures converted", conv); vf::count("bytes compared", bytes); vf::count("bytes the library leaves unwritten or padding", unwritten); vf::count("pictures copied", copies); vf::count("pictures that cannot be converted", nofit); vf::count("configurations refused", refused); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %llu pictures converted, %llu impossible, %llu refused configurations", (unsigned long long)c.idx, (unsigned long long)conv, (unsigned long long)nofit, (unsigned long long)refused));
}
