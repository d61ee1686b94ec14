// P14: the slice queue against a reference list of slices.
#include "mod.hh"
#include "SlicedVideoFrameQueue.hh"
#include <deque>
#include <atomic>
using mod::us;
typedef std::chrono::system_clock Clock;
struct Meta { int64_t pts, dts; Clock::time_point org; size_t seq; int w, h; };
struct Out { std::vector<unsigned char> d; Meta m; };
static void bytes(uint64_t tag, std::vector<unsigned char>& v, size_t n) { v.reserve(n + 1); v.resize(n); vf::Rng g(tag, 77); for (size_t i = 0; i < n; i++) v[i] = (unsigned char)(g.u64() >> 32); }
static void check(Frame* f, const Out& o, bool metaOnly = false) {
    VideoFrame* v = dynamic_cast<VideoFrame*>(f);
    VF_CHECK(f->getLength() == o.d.size() && (o.d.empty() || !memcmp(f->getDataBuf(), o.d.data(), o.d.size())), "bytes", "a slice of %zu bytes came out with %u bytes%s", o.d.size(), f->getLength(), f->getLength() == o.d.size() ? " and other content" : "");
    VF_CHECK(f->getPresentationTime().count() == o.m.pts && f->getDecodeTime().count() == o.m.dts && f->getOriginTime() == o.m.org && f->getSequenceNumber() == o.m.seq, "timing", "slice stamped %lld/%lld, number %zu, expected %lld/%lld, %zu", (long long)f->getPresentationTime().count(), (long long)f->getDecodeTime().count(), f->getSequenceNumber(), (long long)o.m.pts, (long long)o.m.dts, o.m.seq);
    VF_CHECK(v && v->getWidth() == o.m.w && v->getHeight() == o.m.h, "size", "slice of a %dx%d picture, expected %dx%d", v ? v->getWidth() : -1, v ? v->getHeight() : -1, o.m.w, o.m.h);
}
static Meta meta(vf::Rng& r) { Meta m; m.pts = (int64_t)r.below(1ull << 40); m.dts = r.chance(1, 4) ? -1 : (int64_t)r.below(1ull << 40); m.org = Clock::time_point(us((int64_t)r.below(1ull << 50))); m.seq = r.below(1u << 30); m.w = (int)r.range(0, 4096); m.h = (int)r.range(0, 2160); return m; }
static void stamp(SlicedVideoFrame* p, const Meta& m) { p->setPresentationTime(us(m.pts)); p->setDecodeTime(us(m.dts)); p->setOriginTime(m.org); p->setSequenceNumber(m.seq); p->setSize(m.w, m.h); }
static size_t sliceSize(vf::Rng& r, size_t lim) { switch (r.below(8)) { case 0: return 0; case 1: return lim; case 2: return lim + 1; case 3: return lim + (size_t)r.below(3000); case 4: return 1; default: return (size_t)r.range(0, (int64_t)lim); } }

static void history(vf::Ctx& c, SlicedVideoFrameQueue* q, unsigned cap, size_t lim, const std::vector<int>& readers) {
    vf::Rng& r = c.rng; std::deque<Out> model; uint64_t lost = 0, delivered = 0, committed = 0, over = 0, refused = 0, dropped = 0, abandoned = 0, wouldBe = 0; vf::Hash sig; unsigned ops = (unsigned)r.range(10, c.thorough ? 300 : 90); int burst = (int)r.range(1, 20); std::vector<std::unique_ptr<std::vector<unsigned char>>> left;
    for (unsigned s = 0; s < ops && !vf::failed(); s++) {
        int op = (int)r.below(10);
        if (op < 5) {
            bool full = model.size() == cap, force = r.chance(1, 2); Frame* f = force ? q->forceGetRear() : q->getRear();
            VF_CHECK((f != NULL) == (force || !full), "rear", "%s frame to fill with %zu of %u queued", f ? "a" : "no", model.size(), cap); if (!f) { refused++; continue; }
            SlicedVideoFrame* p = dynamic_cast<SlicedVideoFrame*>(f); if (!p) { vf::fail("rear", "not a sliced frame"); return; }
            VF_CHECK(p->getSliceNum() == 0, "stale", "a fresh picture already holds %d slices", p->getSliceNum());
            Meta m = meta(r); unsigned n = r.chance(1, 10) ? 0 : (unsigned)r.range(1, burst); std::vector<Out> now; left.clear();
            if (r.chance(1, 2)) stamp(p, m);
            for (unsigned i = 0; i < n; i++) {
                size_t len = sliceSize(r, lim); std::unique_ptr<std::vector<unsigned char>> b(new std::vector<unsigned char>()); bytes(r.u64(), *b, len); bool ok = p->setSlice(b->data(), (unsigned)len);
                VF_CHECK(ok == (i < MAX_SLICES), "bound", "slice %u was %s", i, ok ? "accepted" : "refused"); if (!ok) { wouldBe++; continue; } Out o; o.d = *b; now.push_back(o); left.push_back(std::move(b));
            }
            stamp(p, m); if (r.chance(1, 8)) { abandoned += now.size(); left.clear(); sig.add(7); continue; }   // the producer gives up: its slices' memory goes away
            std::vector<int> en = q->addFrame(); left.clear(); committed += now.size(); VF_CHECK(en == readers, "enabled", "%zu filters named as runnable, %zu read the queue", en.size(), readers.size());
            for (auto& o : now) { o.m = m; if (o.d.size() > lim) { over++; lost++; continue; } if (model.size() == cap) { model.pop_back(); lost++; dropped++; } model.push_back(o); sig.add(o.d.size()); }
        } else if (op < 9) {
            int k = (int)r.range(1, r.chance(1, 3) ? 20 : 3);
            while (k-- && !vf::failed()) {
                Frame* f = q->getFront(); VF_CHECK((f != NULL) == !model.empty(), "front", "%s slice with %zu queued", f ? "a" : "no", model.size()); if (!f || model.empty()) { int x = q->removeFrame(); VF_CHECK(x < 0, "empty", "removal from an empty queue answered %d", x); break; }
                check(f, model.front()); if (r.chance(1, 10)) check(q->getFront(), model.front()); q->removeFrame(); model.pop_front(); delivered++;
            }
        } else { VF_CHECK(q->getElements() == model.size(), "elements", "%u elements, %zu slices queued", q->getElements(), model.size()); }
        VF_CHECK(q->getElements() == model.size() && q->getLostBlocs() == lost, "accounting", "%u queued and %zu lost, expected %zu and %llu", q->getElements(), q->getLostBlocs(), model.size(), (unsigned long long)lost);
    }
    while (!model.empty() && !vf::failed()) { Frame* f = q->getFront(); if (!f) { vf::fail("front", "%zu slices never came out", model.size()); break; } check(f, model.front()); q->removeFrame(); model.pop_front(); delivered++; }
    VF_CHECK(vf::failed() || (q->getFront() == NULL && committed == delivered + lost), "accounting", "%llu slices committed, %llu delivered, %llu lost", (unsigned long long)committed, (unsigned long long)delivered, (unsigned long long)lost);
    vf::count("slices committed", committed); vf::count("slices delivered", delivered); vf::count("slices dropped by a full queue", dropped); vf::count("oversized slices", over); vf::count("slices beyond the bound", wouldBe); vf::count("slices abandoned", abandoned); vf::count("writes refused", refused); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: queue of %u x %zu bytes: %llu slices committed, %llu delivered, %llu dropped, %llu oversized", (unsigned long long)c.idx, cap + 1, lim, (unsigned long long)committed, (unsigned long long)delivered, (unsigned long long)dropped, (unsigned long long)over));
}
// a producer filter and a terminal filter around the queue, as the encoders use it
static void pipeline(vf::Ctx& c) {
    vf::Rng& r = c.rng; StreamInfo si(VIDEO); si.video.codec = r.chance(1, 2) ? H264 : H265; unsigned n = (unsigned)r.range(2, 40); size_t lim = (size_t)r.range(8, 4000); SlicedVideoFrameQueue* q = NULL; mod::Feed feed; mod::Catch sink; feed.setId(1); sink.setId(2); feed.mk = [&](ConnectionData d) { return q = SlicedVideoFrameQueue::createNew(d, &si, n, (unsigned)lim); };
    if (!feed.connectOneToOne(&sink)) { vf::fail("connect", "refused"); return; }
    std::deque<Out> model; std::vector<std::vector<unsigned char>> now; Meta m = meta(r); bool give = true; uint64_t got = 0; size_t seq = 0;
    feed.fill = [&](int, Frame* f) { SlicedVideoFrame* p = dynamic_cast<SlicedVideoFrame*>(f); for (auto& b : now) p->setSlice(b.data(), (unsigned)b.size()); p->setPresentationTime(us(m.pts)); p->setDecodeTime(us(m.dts)); p->setSize(m.w, m.h); return give; };
    sink.got = [&](int, Frame* f) { got++; if (model.empty()) { vf::fail("front", "a slice nobody made"); return; } Out o = model.front(); model.pop_front(); o.m.org = f->getOriginTime(); check(f, o); };
    for (int s = 0, e = (int)r.range(5, 60); s < e && !vf::failed(); s++) {
        if (r.chance(2, 3)) { m = meta(r); give = r.chance(5, 6); now.assign((size_t)r.range(0, 8), {}); for (auto& b : now) bytes(r.u64(), b, sliceSize(r, lim)); feed.step(); if (give) { for (auto& b : now) { if (b.size() > lim) continue; Out o; o.d = b; o.m = m; o.m.seq = seq; if (model.size() == n - 1) model.pop_back(); model.push_back(o); } seq++; } for (auto& b : now) std::fill(b.begin(), b.end(), 0xEE); }
        else sink.step();
    }
    for (int k = 0; k < 80 && !model.empty() && !vf::failed(); k++) sink.step();
    VF_CHECK(vf::failed() || model.empty(), "delivery", "%zu slices never came out", model.size()); vf::count("slices through filters", got); vf::distinct(vf::Hash().add(got).add(n).add(lim).h);
}
// a real producer thread against a real consumer thread
static void threads(vf::Ctx& c) {
    vf::Rng& r = c.rng; StreamInfo si(VIDEO); si.video.codec = H265; unsigned n = (unsigned)r.range(3, 20), pics = (unsigned)r.range(20, c.thorough ? 2000 : 400); const unsigned lim = 600; ConnectionData cd; std::unique_ptr<SlicedVideoFrameQueue> q(SlicedVideoFrameQueue::createNew(cd, &si, n, lim)); std::atomic<bool> done(false); std::atomic<uint64_t> sent(0); uint64_t seedA = r.u64(), seedB = r.u64(); int slow = (int)r.below(3);
    std::thread w([&] { vf::Rng g(seedA, 1); for (unsigned i = 0; i < pics; i++) { bool force = g.chance(1, 2); Frame* f = force ? q->forceGetRear() : q->getRear(); if (!f) { std::this_thread::yield(); continue; } SlicedVideoFrame* p = dynamic_cast<SlicedVideoFrame*>(f); unsigned k = (unsigned)g.range(0, 6); std::vector<std::vector<unsigned char>> b(k); for (unsigned j = 0; j < k; j++) { b[j].resize((size_t)g.range(16, lim)); uint32_t h[4] = {i, j, (uint32_t)b[j].size(), k}; memcpy(b[j].data(), h, 16); for (size_t x = 16; x < b[j].size(); x++) b[j][x] = (unsigned char)(i * 31 + j * 7 + x); p->setSlice(b[j].data(), (unsigned)b[j].size()); } p->setPresentationTime(us(i * 1000)); p->setDecodeTime(us(i * 1000 - 5)); p->setSequenceNumber(i); p->setSize((int)i, (int)i + 1); q->addFrame(); sent += k; if (slow == 1 && g.chance(1, 8)) std::this_thread::sleep_for(us(30)); } done = true; });
    uint64_t got = 0; int64_t last = -1; vf::Rng g(seedB, 2);
    while (!vf::failed()) {
        bool end = done; Frame* f = q->getFront(); if (!f) { if (end) break; std::this_thread::yield(); continue; }
        uint32_t h[4]; memcpy(h, f->getDataBuf(), 16); VideoFrame* v = dynamic_cast<VideoFrame*>(f); int64_t key = (int64_t)h[0] * 64 + h[1]; bool ok = h[2] == f->getLength() && h[2] <= lim && h[1] < h[3] && key > last; for (size_t x = 16; ok && x < h[2]; x++) ok = f->getDataBuf()[x] == (unsigned char)(h[0] * 31 + h[1] * 7 + x);
        VF_CHECK(ok, "torn", "slice %u of picture %u (%u bytes, length %u) after %lld", h[1], h[0], h[2], f->getLength(), (long long)last); VF_CHECK(f->getPresentationTime().count() == (int64_t)h[0] * 1000 && f->getSequenceNumber() == h[0] && v->getWidth() == (int)h[0] && v->getHeight() == (int)h[0] + 1, "timing", "slice of picture %u stamped %lld", h[0], (long long)f->getPresentationTime().count());
        last = key; q->removeFrame(); got++; if (slow == 2 && g.chance(1, 6)) std::this_thread::sleep_for(us(40));
    }
    w.join(); VF_CHECK(vf::failed() || sent == got + q->getLostBlocs(), "accounting", "%llu slices committed, %llu delivered, %zu lost", (unsigned long long)sent, (unsigned long long)got, q->getLostBlocs());
    vf::count("slices across threads", got); vf::count("slices lost across threads", q->getLostBlocs()); vf::distinct(vf::Hash().add(got).add(q->getLostBlocs()).h);
}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; if (getenv("VF_THREADS")) { threads(c); return; }
    if (c.idx % 4 == 3) { pipeline(c); return; } if (c.idx % 50 == 25) { threads(c); return; }
    StreamInfo si(VIDEO); si.video.codec = r.chance(1, 2) ? H264 : H265; ConnectionData cd; cd.wFilterId = 5; cd.writerId = 1; unsigned max = (unsigned)r.range(3, r.chance(1, 3) ? 40 : 8); size_t lim = (size_t)r.range(1, r.chance(1, 4) ? 20000 : 300);
    VF_CHECK(!SlicedVideoFrameQueue::createNew(cd, &si, 0, 10) && !SlicedVideoFrameQueue::createNew(cd, &si, 10, 0), "create", "an empty queue was created");
    std::unique_ptr<SlicedVideoFrameQueue> q(SlicedVideoFrameQueue::createNew(cd, &si, max, (unsigned)lim)); std::vector<int> readers; for (int i = (int)r.below(4); i > 0; i--) { q->addReaderCData(100 + i, i); readers.push_back(100 + i); }
    history(c, q.get(), max - 1, lim, readers);
}
