// P09: the audio circular buffer against a byte-exact reference, long streams, and concurrent use.
#include "vf.hh"
#include "AudioCircularBuffer.hh"
#include <deque>
#include <memory>
#include <atomic>
#include <thread>
typedef std::chrono::microseconds us;
typedef std::chrono::system_clock Clock;
static ConnectionData conn(unsigned n) { ConnectionData cd; cd.wFilterId = 7; cd.writerId = 1; for (unsigned i = 0; i < n; i++) { ReaderData rd; rd.rFilterId = 20 + i; rd.readerId = 3; cd.readers.push_back(rd); } return cd; }
static unsigned bps(SampleFmt f) { return f == U8P ? 1 : f == S16P ? 2 : 4; }

static void refusals(vf::Rng& r) {
    struct { unsigned ch, rate, max; SampleFmt f; } bad[] = { {0, 48000, 320, S16P}, {3, 48000, 320, S16P}, {(unsigned)r.range(3, 100), 48000, 320, FLTP}, {2, 0, 320, S16P}, {2, (unsigned)r.range(1, 999), 320, S16P}, {2, 48000, 0, S16P}, {2, 48000, 320, FLT}, {2, 48000, 320, S16}, {1, 48000, 320, U8}, {1, 48000, 320, S_NONE} };
    auto& b = bad[r.below(10)]; AudioCircularBuffer* q = AudioCircularBuffer::createNew(conn(1), b.ch, b.rate, b.max, b.f);
    VF_CHECK(!q, "bad-config", "a buffer with %u channels at %u Hz, limit %u, format %d was created", b.ch, b.rate, b.max, b.f); delete q; vf::count("configurations refused");
}

static void model(vf::Ctx& c) {
    vf::Rng& r = c.rng; refusals(r); vf::Hash sig;
    unsigned ch = r.range(1, 2), rate = r.pick({8000u, 11025u, 16000u, 22050u, 32000u, 44100u, 48000u, 48000u, 96000u, (unsigned)r.range(1000, 192000)}), limit = r.pick({320u, 320u, 40u, 700u, 5000u, (unsigned)r.range(1, 1000)}); SampleFmt f = r.pick({U8P, S16P, FLTP});
    if ((uint64_t)limit * (rate / 1000) * bps(f) > 6000000) limit = 320;
    unsigned readers = r.range(1, 3); std::unique_ptr<AudioCircularBuffer> b(AudioCircularBuffer::createNew(conn(readers), ch, rate, limit, f));
    VF_CHECK(!!b, "create", "a buffer with %u channels at %u Hz, limit %u was refused", ch, rate, limit); if (!b) return;
    const unsigned B = bps(f), cap = limit * (rate / 1000), maxIn = AudioFrame::getMaxSamples(rate); const int64_t thr = 64 * 1000000ll / rate;
    unsigned out = AudioFrame::getDefaultSamples(rate); auto setOut = [&](int n) { b->setOutputFrameSamples(n); if (n > 0 && n <= (int)maxIn) out = n; };
    if (r.chance(3, 4)) setOut((int)r.range(1, std::min(maxIn, std::max(1u, cap)))); if (r.chance(1, 10)) setOut(r.pick({0, -3, (int)maxIn + 1, 1 << 30}));
    std::deque<unsigned char> d[2]; uint64_t head = 0, tail = 0; bool sync = false; int64_t t0 = 0; uint64_t lost = 0; bool held = false; std::vector<unsigned char> heldData[2]; int64_t heldTs = 0; bool everOut = false; Clock::time_point org;
    uint64_t nAcc = 0, nPast = 0, nPad = 0, nFull = 0, nGap = 0, nRead = 0, nShort = 0, nAbsorb = 0, nWrap = 0; int64_t next = (int64_t)r.below(1ull << 40), base = next; uint64_t pushedSamples = 0; (void)base;
    unsigned steps = r.range(30, c.thorough ? 1500 : 300), typ = r.chance(1, 2) ? (unsigned)r.range(1, std::max(1u, maxIn / 4)) : out; unsigned wbias = r.range(35, 70);
    auto tail2ts = [&](uint64_t n) { return t0 + (int64_t)(n * 1000000ull / rate); };
    std::vector<unsigned char> buf;
    for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        if (r.chance((int)wbias, 100)) {
            PlanarAudioFrame* in = dynamic_cast<PlanarAudioFrame*>(r.chance(1, 2) ? b->getRear() : b->forceGetRear()); if (!in) { vf::fail("rear", "no frame to write to"); break; }
            unsigned n = r.chance(3, 4) ? typ : (unsigned)r.range(0, maxIn); if (r.chance(1, 40)) n = maxIn;
            for (unsigned k = 0; k < ch; k++) { unsigned char* p = in->getPlanarDataBuf()[k]; for (unsigned i = 0; i < n * B; i += 8) { uint64_t v = r.u64(); memcpy(p + i, &v, std::min(8u, n * B - i)); } }
            in->setSamples(n); in->setLength(n * B);
            int64_t ts = sync ? tail2ts(tail) : next; int64_t smp = 1000000 / rate + 1;
            switch (r.below(16)) {
            case 0: ts += r.range(-thr, thr); break;
            case 1: ts += thr; break; case 2: ts -= thr; break; case 3: ts += thr + 1; break; case 4: ts -= thr + 1; break;
            case 5: ts -= (int64_t)r.below(2000000); break;
            case 6: ts += (int64_t)r.below((uint64_t)limit * smp * 2 + 2); break;
            case 7: ts += (int64_t)r.below((uint64_t)limit * smp + 2); break;
            case 8: if (r.chance(1, 4)) ts += (int64_t)r.below(1ull << 42); break;
            case 9: if (r.chance(1, 4)) ts += (int64_t)((1ull << 32) * 1000000ull / rate) + (int64_t)r.range(-2, (int64_t)limit * smp); break;     // 2^32 samples
            default: break;
            }
            Clock::time_point o = Clock::time_point(us((int64_t)r.below(1ull << 50))); in->setOriginTime(o); in->setPresentationTime(us(ts));
            std::vector<int> ret = b->addFrame();
            // reference
            bool acc = false; if (!sync) { sync = true; t0 = ts; }
            int64_t dev = ts - tail2ts(tail); uint64_t pad = 0; const char* what = "accepted";
            if (dev < -thr) { what = "past"; nPast++; }
            else {
                bool stop = false;
                if (dev > thr) { pad = (uint64_t)(((__int128)dev * rate) / 1000000);
                    if (pad >= limit) { what = "discontinuity"; lost++; d[0].clear(); d[1].clear(); head = tail = 0; sync = false; stop = true; nGap++; next = ts + (int64_t)r.below(100000); }
                    else if (pad > cap - (tail - head)) { what = "no room for silence"; stop = true; nFull++; }
                    else { for (unsigned k = 0; k < ch; k++) d[k].insert(d[k].end(), pad * B, 0); tail += pad; nPad++; } }
                else if (dev) nAbsorb++;
                if (!stop) { if (n > cap - (tail - head)) { what = "no room"; nFull++; } else { acc = true; for (unsigned k = 0; k < ch; k++) { unsigned char* p = in->getPlanarDataBuf()[k]; d[k].insert(d[k].end(), p, p + n * B); } if ((tail % std::max(1u, cap)) + n >= cap) nWrap++; tail += n; org = o; nAcc++; pushedSamples += n; } }
            }
            bool ok = acc ? ret.size() == readers : ret.empty(); for (size_t i = 0; ok && i < ret.size(); i++) ok = ret[i] == (int)(20 + i);
            VF_CHECK(ok, "accept", "frame of %u samples %lld us off the write position (%s, %llu buffered of %u): %zu filters named runnable", n, (long long)dev, what, (unsigned long long)(tail - head), cap, ret.size());
            sig.add((uint64_t)(what[0] + what[3])).add(pad ? 1 : 0);
        } else if (r.chance(1, 80)) { b->flush(); lost++; d[0].clear(); d[1].clear(); head = tail = 0; sync = false; next += (int64_t)r.below(1000000); vf::count("flushes"); }
        else {
            Frame* g = b->getFront(); PlanarAudioFrame* o = dynamic_cast<PlanarAudioFrame*>(g);
            if (!held) {
                bool can = tail - head >= out;
                VF_CHECK(!!g == can, "available", "%llu samples buffered, %u asked for, frame %s", (unsigned long long)(tail - head), out, g ? "returned" : "missing");
                if (!g || !can) { nShort++; if (everOut && b->forceGetFront()) { PlanarAudioFrame* l = dynamic_cast<PlanarAudioFrame*>(b->forceGetFront()); VF_CHECK(l && l->getPresentationTime().count() == heldTs, "repeat-time", "the last frame's time changed from %lld to %lld", (long long)heldTs, (long long)(l ? l->getPresentationTime().count() : 0)); } }
                else { held = everOut = true; heldTs = t0 + (int64_t)(head * 1000000ull / rate); for (unsigned k = 0; k < ch; k++) { heldData[k].assign(d[k].begin(), d[k].begin() + out * B); d[k].erase(d[k].begin(), d[k].begin() + out * B); } head += out; nRead++;
                    int64_t eo = std::chrono::duration_cast<us>(org.time_since_epoch()).count() - (int64_t)((tail - head) * 1000000ull / rate), go = std::chrono::duration_cast<us>(o->getOriginTime().time_since_epoch()).count();
                    VF_CHECK(llabs(eo - go) <= 1, "origin", "origin time %lld, expected %lld", (long long)go, (long long)eo); }
            }
            if (held && o && !vf::failed()) {
                VF_CHECK(o->getPresentationTime().count() == heldTs, "time", "frame stamped %lld, its first sample is due at %lld", (long long)o->getPresentationTime().count(), (long long)heldTs);
                VF_CHECK(o->getSamples() * B * ch == heldData[0].size() * ch && o->getLength() == heldData[0].size(), "length", "%u samples, length %u", o->getSamples(), o->getLength());
                for (unsigned k = 0; k < ch && !vf::failed(); k++) if (memcmp(o->getPlanarDataBuf()[k], heldData[k].data(), heldData[k].size())) { size_t i = 0; while (o->getPlanarDataBuf()[k][i] == heldData[k][i]) i++; vf::fail("samples", "channel %u differs at byte %zu of %zu (read %llu samples so far, capacity %u)", k, i, heldData[k].size(), (unsigned long long)head, cap); }
                if (r.chance(4, 5)) { int w = b->removeFrame(); VF_CHECK(w == 7, "release", "release returned %d", w); held = false; if (r.chance(1, 12)) setOut((int)r.range(1, std::min(maxIn, std::max(1u, cap)))); else if (r.chance(1, 60)) setOut(r.pick({0, -1, (int)maxIn + 1})); }
            }
        }
        VF_CHECK(b->getElements() == (tail - head) / out, "elements", "%u frames reported, %llu samples buffered at %u each", b->getElements(), (unsigned long long)(tail - head), out);
        VF_CHECK(b->getFreeSamples() == (int)(cap - (tail - head)), "free", "%d free samples reported, expected %llu", b->getFreeSamples(), (unsigned long long)(cap - (tail - head)));
        VF_CHECK(b->isFull() == ((tail - head) * B >= 0.9 * (cap * B)), "full", "full %d with %llu of %u", b->isFull(), (unsigned long long)(tail - head), cap);
        VF_CHECK(b->getLostBlocs() == lost, "lost", "%zu losses counted, expected %llu", b->getLostBlocs(), (unsigned long long)lost);
    }
    vf::count("frames accepted", nAcc); vf::count("frames from the past", nPast); vf::count("silence inserted", nPad); vf::count("frames refused for room", nFull); vf::count("discontinuities", nGap); vf::count("frames read", nRead); vf::count("reads without enough samples", nShort); vf::count("deviations absorbed", nAbsorb); vf::count("wrap-arounds", nWrap);
    vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %u ch, %u Hz, %u bytes, limit %u: %llu accepted, %llu read, %llu gaps padded, %llu discontinuities", (unsigned long long)c.idx, ch, rate, B, limit, (unsigned long long)nAcc, (unsigned long long)nRead, (unsigned long long)nPad, (unsigned long long)nGap));
}

// more than 2^32 samples (and hence bytes) through one buffer
static void longStream(vf::Ctx& c) {
    const unsigned rate = 192000; SampleFmt f = U8P; std::unique_ptr<AudioCircularBuffer> b(AudioCircularBuffer::createNew(conn(1), 1, rate, 997, f)); if (!b) { vf::fail("create", "refused"); return; }
    const unsigned n = AudioFrame::getMaxSamples(rate); b->setOutputFrameSamples((int)n); uint64_t total = (1ull << 32) + 40ull * n, pushed = 0, got = 0; uint64_t frames = 0;
    // a partial frame first, so that indices do not hit the limit at a frame boundary
    int64_t t0 = 5000000; unsigned first = 777; bool ff = true;
    while (pushed < total && !vf::failed()) {
        PlanarAudioFrame* in = dynamic_cast<PlanarAudioFrame*>(b->getRear()); unsigned k = ff ? first : n; ff = false;
        unsigned char* p = in->getPlanarDataBuf()[0]; uint64_t mark = pushed; memcpy(p, &mark, 8); memcpy(p + k - 8, &mark, 8);
        in->setSamples(k); in->setPresentationTime(us(t0 + (int64_t)(pushed * 1000000ull / rate)));
        VF_CHECK(b->addFrame().size() == 1, "long-stream", "contiguous frame refused after %llu samples", (unsigned long long)pushed); pushed += k;
        Frame* g = b->getFront(); if (!g) continue; frames++;
        VF_CHECK(g->getPresentationTime().count() == t0 + (int64_t)(got * 1000000ull / rate), "long-stream", "after %llu samples a frame is stamped %lld, expected %lld", (unsigned long long)got, (long long)g->getPresentationTime().count(), (long long)(t0 + (int64_t)(got * 1000000ull / rate)));
        // the second input frame's mark lies at sample `first` of the first output frame and so on
        PlanarAudioFrame* o = dynamic_cast<PlanarAudioFrame*>(g); uint64_t m; memcpy(&m, o->getPlanarDataBuf()[0] + first, 8);
        VF_CHECK(m == got + first, "long-stream", "after %llu samples the content of sample %llu is read", (unsigned long long)got, (unsigned long long)m);
        got += n; b->removeFrame();
    }
    vf::count("samples in long streams", pushed); vf::distinct(vf::Hash().add(frames).h); (void)c;
}

static void concurrent(vf::Ctx& c) {
    vf::Rng& r = c.rng; unsigned rate = 48000, ch = r.range(1, 2); std::unique_ptr<AudioCircularBuffer> b(AudioCircularBuffer::createNew(conn(1), ch, rate, 400, FLTP)); if (!b) { vf::fail("create", "refused"); return; }
    unsigned n = r.range(10, 1024), out = r.range(10, 1024); b->setOutputFrameSamples((int)out); unsigned frames = r.range(20, 300); uint64_t sw = r.u64(), sr = r.u64(); std::atomic<bool> done(false); uint64_t got = 0;
    std::thread w([&] { vf::Rng q(sw, 1); uint64_t k = 0; for (unsigned i = 0; i < frames; i++) { while (b->getFreeSamples() < (int)n && !vf::failed()) std::this_thread::yield(); PlanarAudioFrame* in = dynamic_cast<PlanarAudioFrame*>(b->getRear()); for (unsigned x = 0; x < ch; x++) for (unsigned j = 0; j < n; j++) { uint32_t v = (uint32_t)(k + j + 1); memcpy(in->getPlanarDataBuf()[x] + 4 * j, &v, 4); } in->setSamples(n); in->setPresentationTime(us((int64_t)(k * 1000000ull / rate))); b->addFrame(); k += n; if (q.chance(1, 4)) std::this_thread::yield(); if (q.chance(1, 60)) std::this_thread::sleep_for(us(200)); } done = true; });
    std::thread rd([&] { vf::Rng q(sr, 1); bool fin = false; int64_t expect = 0; for (;;) { bool d0 = done; PlanarAudioFrame* o = dynamic_cast<PlanarAudioFrame*>(b->getFront());
        if (!o) { if (fin) break; fin = d0; std::this_thread::yield(); continue; }
        VF_CHECK(o->getPresentationTime().count() == expect, "time", "frame stamped %lld, expected %lld", (long long)o->getPresentationTime().count(), (long long)expect);
        for (unsigned x = 0; x < ch; x++) for (unsigned j = 0; j < out; j++) { uint32_t v; memcpy(&v, o->getPlanarDataBuf()[x] + 4 * j, 4);
            if (v != (uint32_t)(got + j + 1)) { vf::fail("samples", "sample %llu carries %u", (unsigned long long)(got + j + 1), v); return; } }
        got += out; expect = (int64_t)(got * 1000000ull / rate); b->getElements(); b->isFull(); b->removeFrame(); if (q.chance(1, 4)) std::this_thread::yield(); } });
    w.join(); rd.join(); vf::count("concurrent samples read", got); vf::distinct(vf::Hash().add(got).add(n).add(out).h);
}
void vf_case(vf::Ctx& c) { if (c.idx == 1 && getenv("VF_LONG")) longStream(c); else if (c.idx % 10 == 9) concurrent(c); else model(c); }
