// P16: the shared-memory exporter, seen by a reader attached to the segment.
#include "mod.hh"
#include "VideoFrame.hh"
#include <random>
#include <fstream>
#include <iostream>
#include <atomic>
#include <sys/shm.h>
#include <unistd.h>
#define private public
#include "modules/sharedMemory/SharedMemory.hh"
#undef private
#include "SlicedVideoFrameQueue.hh"
using mod::us;
typedef std::chrono::system_clock Clock;
class InQueue : public AVFramedQueue { public: InQueue(ConnectionData c, const StreamInfo* si, unsigned n, unsigned cap) : AVFramedQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(si->video.codec, cap); } };
class Probe : public SharedMemory { public: Probe(size_t k, VCodecType v) : SharedMemory(k, v) {} std::vector<int> step() { int r = 0; return processFrame(r); } bool on() { return isEnabled(); } };
struct Hdr { uint8_t sync, pad; uint16_t seq, fmt, codec, h, w; uint32_t sec, usec, len; };
static_assert(sizeof(Hdr) == HEADER_SIZE, "header");
static bool same(const void* a, const void* b, size_t n) { return !n || !memcmp(a, b, n); }
static int fmtCode(PixType p) { switch (p) { case RGB24: return 1; case RGB32: return 2; case YUV420P: return 3; case YUV422P: return 4; case YUV444P: return 5; case YUYV422: return 6; case YUVJ420P: return 7; default: return 0; } }
struct In { std::vector<unsigned char> b; int64_t pts, dts; Clock::time_point org; size_t seq; int w, h; PixType f; };
static void fill(std::vector<unsigned char>& v, uint64_t tag, size_t n) { v.resize(n); vf::Rng g(tag, 5); size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t z = g.u64(); memcpy(&v[i], &z, 8); } for (; i < n; i++) v[i] = (unsigned char)g.u64(); }
static Hdr expect(const In& i, int codec, size_t len) { Hdr h; h.sync = CHAR_READING; h.pad = 0; h.seq = (uint16_t)i.seq; h.fmt = (uint16_t)fmtCode(i.f); h.codec = (uint16_t)codec; h.h = (uint16_t)i.h; h.w = (uint16_t)i.w; h.sec = (uint32_t)(i.pts / 1000000); h.usec = (uint32_t)(i.pts % 1000000); h.len = (uint32_t)len; return h; }
static bool put(InQueue* q, const In& in) { Frame* f = q->getRear(); if (!f) return false; VideoFrame* v = dynamic_cast<VideoFrame*>(f); v->setSize(in.w, in.h); v->setPixelFormat(in.f); if (!in.b.empty()) memcpy(f->getDataBuf(), in.b.data(), in.b.size()); f->setLength((unsigned)in.b.size()); f->setPresentationTime(us(in.pts)); f->setDecodeTime(us(in.dts)); f->setOriginTime(in.org); f->setSequenceNumber(in.seq); q->addFrame(); return true; }
struct Rig {
    StreamInfo info; std::unique_ptr<Probe> m; mod::Feed feed; mod::Catch sink; InQueue* fq; uint8_t* seg; unsigned cap; unsigned inCap; int id;
    Rig(VCodecType v, PixType f, unsigned cap_, size_t key) : info(VIDEO), fq(NULL), seg(NULL), cap(cap_), inCap(cap_), id(-1) { info.video.codec = v; info.video.pixelFormat = f; m.reset(new Probe(key, v)); if (!m->on()) return; id = (int)m->getSharedMemoryID(); seg = (uint8_t*)shmat(id, NULL, 0); shmctl(id, IPC_RMID, NULL);
        feed.setId(1); m->setId(2); sink.setId(3); feed.mk = [&](ConnectionData c) { return fq = new InQueue(c, &info, 4, inCap); }; VF_CHECK(feed.connectOneToOne(m.get()) && m->connectOneToOne(&sink), "connect", "refused"); }
    ~Rig() { if (seg && seg != (uint8_t*)-1) shmdt(seg); }
};
static void history(vf::Ctx& c) {
    vf::Rng& r = c.rng; bool h264 = c.idx % 2; bool huge = c.idx % 24 >= 22; unsigned cap = huge ? (h264 ? 2 * 1024 * 1024 : 1920 * 1080 * 4) : 20000; PixType pf = h264 ? P_NONE : huge ? RGB32 : r.pick({RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P}); Rig g(h264 ? H264 : RAW, pf, cap, 0); if (!g.m->on()) { vf::fail("create", "no segment"); return; }
    VF_CHECK(g.seg[0] == CHAR_WRITING, "initial", "the segment starts as if published"); In cur; uint64_t got = 0; g.sink.got = [&](int, Frame* f) { got++; VideoFrame* v = dynamic_cast<VideoFrame*>(f);
        VF_CHECK(f->getLength() == cur.b.size() && same(f->getDataBuf(), cur.b.data(), cur.b.size()), "passed-on", "the frame passed on differs from the one received"); VF_CHECK(f->getPresentationTime().count() == cur.pts && f->getDecodeTime().count() == cur.dts && f->getOriginTime() == cur.org && f->getSequenceNumber() == cur.seq && v->getWidth() == cur.w && v->getHeight() == cur.h && v->getPixelFormat() == cur.f, "passed-on", "the frame passed on is stamped or shaped differently"); };
    Hdr h; memset(&h, 0, sizeof h); h.sync = CHAR_WRITING; std::vector<unsigned char> body(SHMSIZE - HEADER_SIZE, 0); bool owned = false; size_t used = 0; size_t ext = (size_t)((SHMSIZE + 4095) & ~4095) - SHMSIZE; uint64_t pub = 0, skip = 0, over = 0, odd = 0; vf::Hash sig; Hdr peek;
    auto check = [&](const char* what) { memcpy(&peek, g.seg, sizeof peek); if (owned) VF_CHECK(!memcmp(&peek, &h, sizeof h) && !memcmp(g.seg + HEADER_SIZE, body.data(), used), "owned", "%s: the segment changed while the reader owned it", what); else VF_CHECK(peek.sync == CHAR_WRITING, "early", "%s: published although nothing is complete", what); };
    auto published = [&](const In& head, int codec, const std::vector<unsigned char>& d, const char* what) { memcpy(&peek, g.seg, sizeof peek); Hdr w = expect(head, codec, d.size());
        VF_CHECK(peek.sync == CHAR_READING, "unpublished", "%s: not published", what); VF_CHECK(peek.len == w.len, "length", "header says %u bytes, the payload has %zu", peek.len, d.size()); VF_CHECK(peek.seq == w.seq && peek.fmt == w.fmt && peek.codec == w.codec && peek.h == w.h && peek.w == w.w && peek.sec == w.sec && peek.usec == w.usec, "header", "header says number %u format %u codec %u %ux%u at %u.%06u, the payload is number %u format %u codec %u %ux%u at %u.%06u", peek.seq, peek.fmt, peek.codec, peek.w, peek.h, peek.sec, peek.usec, w.seq, w.fmt, w.codec, w.w, w.h, w.sec, w.usec); VF_CHECK(d.size() <= SHMSIZE - HEADER_SIZE && same(g.seg + HEADER_SIZE, d.data(), std::min(d.size(), (size_t)(SHMSIZE - HEADER_SIZE))), "payload", "%s: the payload differs", what);
        h = peek; used = std::min(d.size(), (size_t)(SHMSIZE - HEADER_SIZE)); if (used) memcpy(body.data(), d.data(), used); owned = true; pub++; sig.add(1).add((uint64_t)d.size()); };
    unsigned n = huge ? 12 : (unsigned)r.range(20, c.thorough ? 400 : 120); size_t seq = r.chance(1, 3) ? r.pick({0, 1, 65530, 65535}) : r.below(100000); int64_t pts = (int64_t)r.below(1ull << 50); bool mute = false; unsigned relEvery = (unsigned)r.range(1, 6);
    std::vector<unsigned char> au; In auHead; bool haveAu = false, first = true;
    auto step = [&](const char* what) { uint64_t b = got; VF_CHECK(put(g.fq, cur), "feed", "queue full"); g.m->step(); g.sink.step(); VF_CHECK(got == b + 1, "passed-on", "%s: %llu frames passed on", what, (unsigned long long)(got - b)); };
    for (unsigned i = 0; i < n && !vf::failed(); i++) {
        seq += r.chance(1, 10) ? r.range(2, 5) : 1; pts += r.range(1, 100000); cur.pts = pts; cur.dts = r.chance(1, 3) ? -1 : pts; cur.org = Clock::time_point(us((int64_t)r.below(1ull << 50))); cur.seq = seq; cur.w = (int)r.range(1, 4096); cur.h = (int)r.range(1, 4096); cur.f = h264 ? P_NONE : r.chance(9, 10) ? pf : YUV420P;
        auto maybeRelease = [&]() { if (owned && r.below(relEvery) == 0) { check("before release"); __atomic_store_n(g.seg, (uint8_t)CHAR_WRITING, __ATOMIC_RELEASE); owned = false; } };
        if (!h264) {
            maybeRelease(); size_t len = r.chance(1, 12) ? r.pick({(int)0, (int)1, (int)cap}) : (size_t)r.range(0, cap); if (huge) len = r.pick({MAX_SIZE, MAX_SIZE - 1, MAX_SIZE + 1, (int)cap, 5000}); fill(cur.b, r.u64(), len); bool free = !owned; step("raw frame");
            if (free && len <= MAX_SIZE) published(cur, 4, cur.b, "raw frame"); else { if (free) over++; else skip++; sig.add(2); check("raw frame"); }
        } else {
            // one access unit: delimiter first, then the rest, each NAL unit under the same stamps
            unsigned parts = huge ? (unsigned)r.range(2, 5) : (unsigned)r.range(1, 6); bool boundary = true; std::vector<unsigned char> now; In head = cur;
            for (unsigned k = 0; k <= parts && !vf::failed(); k++) {
                maybeRelease(); int t = k == 0 ? AUD : r.pick({NON_IDR, IDR, SEI, SPS, PPS, NON_IDR, IDR}); bool known = true; if (k && r.chance(1, 12)) { t = r.pick({0, 2, 3, 4, 10, 12, 14, 20, 31}); known = false; } int sc = r.chance(1, 2) ? 4 : 3; size_t len = huge && k ? (size_t)r.range(cap - 9000, cap - 8) : (size_t)r.range(1, 800); std::vector<unsigned char> pay; fill(pay, r.u64(), len); pay[0] = (unsigned char)((r.below(4) << 5) | t); for (auto& x : pay) if (&x != &pay[0] && x < 4) x = 9;
                cur.b.assign(sc, 0); cur.b[sc - 1] = 1; cur.b.insert(cur.b.end(), pay.begin(), pay.end()); bool junk = !known ? false : k && r.chance(1, 25); if (junk) { switch (r.below(4)) { case 0: cur.b[0] = 7; break; case 1: cur.b.resize(sc); break; case 2: cur.b.resize((size_t)r.below(sc)); break; case 3: cur.b.assign((size_t)r.range(1, 60), 5); break; } odd++; }
                bool free = !owned; step("NAL unit");
                if (k && boundary) { boundary = false; if (haveAu && !au.empty() && free && au.size() <= MAX_SIZE) published(auHead, 1, au, "access unit"); else { if (haveAu && !au.empty()) { if (free) over++; else skip++; } sig.add(3); check("access unit boundary"); } au.clear(); haveAu = true; auHead = head; }
                else check("NAL unit");
                if (k && known && !junk) { static const unsigned char s4[4] = {0, 0, 0, 1}; au.insert(au.end(), s4, s4 + 4); au.insert(au.end(), pay.begin(), pay.end()); }
            }
        }
        for (size_t k = 0; k < ext; k += 97) if (g.seg[SHMSIZE + k]) { vf::fail("outside", "bytes behind the segment were written"); break; }
    }
    std::string st = mod::state(*g.m); VF_CHECK(st.find(vf::fmt("\"memoryId\":%d", g.id)) != std::string::npos, "state", "state %s, segment %d", st.c_str(), g.id);
    (void)mute; (void)first; vf::count(h264 ? "access units published" : "raw frames published", pub); vf::count("frames skipped while owned", skip); vf::count("frames larger than the segment", over); vf::count("malformed NAL units", odd); vf::count("frames passed on", got); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %s, %llu published, %llu skipped, %llu too large", (unsigned long long)c.idx, h264 ? "H.264" : "raw", (unsigned long long)pub, (unsigned long long)skip, (unsigned long long)over));
}
// a reader polling the segment from another thread; it looks at it through the exporter's own mapping so that the race detector sees both sides
static void threads(vf::Ctx& c) {
    vf::Rng& r = c.rng; bool h264 = c.idx % 2; Rig g(h264 ? H264 : RAW, h264 ? P_NONE : YUV420P, 20000, 0); if (!g.m->on()) { vf::fail("create", "no segment"); return; }
    unsigned n = (unsigned)r.range(40, 200); uint64_t tag = r.u64(); std::atomic<bool> stop(false); std::atomic<uint64_t> seen(0), reread(0); uint64_t rs = r.u64(); uint8_t* seg = g.m->SharedMemoryOrigin; int nap = (int)r.below(4);
    auto content = [&](uint64_t k, std::vector<unsigned char>& v) { vf::Rng q(tag, k); fill(v, tag ^ (k * 7919), (size_t)q.range(1, 3000)); for (auto& x : v) if (x < 4) x = 9; };
    auto unit = [&](uint64_t k, std::vector<unsigned char>& v) { if (!h264) { content(k, v); return; } std::vector<unsigned char> p; v.clear(); static const unsigned char s4[4] = {0, 0, 0, 1}; for (uint64_t j = 1; j <= 2; j++) { content(k * 4 + j, p); p[0] = j == 1 ? SPS : IDR; v.insert(v.end(), s4, s4 + 4); v.insert(v.end(), p.begin(), p.end()); } };
    vf::Hash sig; std::thread rd([&]() { vf::Rng q(rs); int64_t last = -1; std::vector<unsigned char> want, have;
        while (!stop) { if (__atomic_load_n(seg, __ATOMIC_ACQUIRE) != CHAR_READING) { if (q.chance(1, 4)) std::this_thread::yield(); continue; }
            Hdr h; memcpy((char*)&h + 1, seg + 1, sizeof h - 1); unit(h.seq, want); VF_CHECK((int64_t)h.seq > last, "order", "frame %u published after %lld", h.seq, (long long)last); last = h.seq;
            VF_CHECK(h.len == want.size() && h.w == 16 + h.seq % 100 && h.h == 16 + h.seq % 70 && h.sec == 1000u + h.seq && h.usec == h.seq, "torn-header", "header of frame %u: %u bytes (%zu) %ux%u at %u.%06u", h.seq, h.len, want.size(), h.w, h.h, h.sec, h.usec); if (vf::failed()) break;
            have.assign(seg + HEADER_SIZE, seg + HEADER_SIZE + h.len); VF_CHECK(have == want, "torn", "the payload of frame %u is torn", h.seq); if (nap && q.chance(1, nap * 3)) { std::this_thread::sleep_for(us(q.range(1, 300))); have.assign(seg + HEADER_SIZE, seg + HEADER_SIZE + h.len); VF_CHECK(have == want && __atomic_load_n(seg, __ATOMIC_ACQUIRE) == CHAR_READING, "overwritten", "frame %u was overwritten while being read", h.seq); reread++; } sig.add((uint64_t)h.seq);
            seen++; __atomic_store_n(seg, (uint8_t)CHAR_WRITING, __ATOMIC_RELEASE); } });
    In in; in.dts = -1; in.f = h264 ? P_NONE : YUV420P; uint64_t out = 0; g.sink.got = [&](int, Frame* f) { out++; VF_CHECK(f->getLength() == in.b.size() && !memcmp(f->getDataBuf(), in.b.data(), in.b.size()), "passed-on", "the frame passed on differs"); };
    for (uint64_t k = 2; k < n + 2 && !vf::failed(); k++) { in.seq = k; in.pts = (int64_t)(1000 + k) * 1000000 + k; in.w = 16 + k % 100; in.h = 16 + k % 70; auto go = [&]() { put(g.fq, in); g.m->step(); g.sink.step(); };
        if (!h264) { content(k, in.b); go(); } else for (uint64_t j = 0; j <= 2; j++) { std::vector<unsigned char> p; if (j) content(k * 4 + j, p); else p.assign(2, 0x10); p[0] = j == 0 ? AUD : j == 1 ? SPS : IDR; in.b.assign({0, 0, 0, 1}); in.b.insert(in.b.end(), p.begin(), p.end()); go(); if (r.chance(1, 6)) std::this_thread::sleep_for(us(r.range(1, 100))); }
        if (r.chance(1, 3)) std::this_thread::sleep_for(us(r.range(1, 200))); }
    for (int i = 0; i < 2000 && __atomic_load_n(seg, __ATOMIC_ACQUIRE) == CHAR_READING && !vf::failed(); i++) std::this_thread::sleep_for(us(100)); stop = true; rd.join();
    VF_CHECK(vf::failed() || seen > 0, "nothing", "nothing was ever published"); vf::count("frames read across threads", seen); vf::count("frames read again after a while", reread); vf::distinct(sig.h);
}
// creation and connection in every order and with every kind of input
static void misc(vf::Ctx& c) {
    vf::Rng& r = c.rng; VCodecType bad = r.pick({H265, VP8, MJPEG, VC_NONE}); VF_CHECK(SharedMemory::createNew(0, bad) == NULL, "codec", "a filter for an unsupported codec was created"); size_t key = (size_t)(getpid() * 64 + c.idx % 64 + 1); SharedMemory* a = SharedMemory::createNew(key, RAW); for (int i = 0; i < 20 && !a; i++) a = SharedMemory::createNew(key += 7919, RAW); VF_CHECK(a != NULL, "create", "no segment"); VF_CHECK(SharedMemory::createNew(key, RAW) == NULL, "key", "two exporters share a key");
    struct shmid_ds d; if (!a) return; int id = (int)a->getSharedMemoryID(); VF_CHECK(shmctl(id, IPC_STAT, &d) == 0 && d.shm_nattch == 1, "refused", "refusing a second exporter disturbed the first"); mod::Catch sink; sink.setId(9); a->setId(8); if (r.chance(1, 2)) VF_CHECK(!a->connectOneToOne(&sink), "unfed", "an exporter without input accepted an output"); delete a; VF_CHECK(shmctl(id, IPC_STAT, &d) != 0, "left", "the segment outlives its exporter"); vf::count("segments created and removed"); vf::distinct(c.idx);
}
void vf_init(vf::Ctx&) {} void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) { if (getenv("VF_THREADS")) threads(c); else if (c.idx % 12 == 11) misc(c); else history(c); }
