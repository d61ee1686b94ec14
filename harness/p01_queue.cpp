// P01: bounded frame queues against a reference FIFO with explicit accounting.
#include "mini.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include <deque>
using namespace mini;

struct Meta { int64_t pts, dts; size_t seq; int64_t org; unsigned len; uint64_t tag; };

// Fills a frame completely up to its advertised capacity (a short or long frame), tail included.
static void fillFrame(Frame* f, const Meta& m) {
    vf::Rng r(m.tag, 5);
    f->setLength(m.len);
    auto fill = [&](unsigned char* p, unsigned salt) {
        unsigned n = m.len; if (!n) return;
        if (n <= 4096) { for (unsigned i = 0; i < n; i++) p[i] = (unsigned char)(m.tag * 131 + i * 7 + salt); }
        else { memset(p, (int)(m.tag + salt), 64); memset(p + n - 64, (int)(m.tag * 3 + salt), 64); p[n / 2] = (unsigned char)m.tag; }
    };
    if (f->isPlanar()) { AudioFrame* a = dynamic_cast<AudioFrame*>(f); for (unsigned c = 0; c < a->getChannels(); c++) fill(f->getPlanarDataBuf()[c], c + 1); }
    else fill(f->getDataBuf(), 0);
    f->setPresentationTime(us(m.pts)); f->setDecodeTime(us(m.dts)); f->setSequenceNumber(m.seq);
    f->setOriginTime(std::chrono::system_clock::time_point(us(m.org)));
}
static bool sameFrame(Frame* f, const Meta& m) {
    auto ok = [&](unsigned char* p, unsigned salt) {
        unsigned n = m.len; if (!n) return true;
        if (n <= 4096) { for (unsigned i = 0; i < n; i++) if (p[i] != (unsigned char)(m.tag * 131 + i * 7 + salt)) return false; return true; }
        for (unsigned i = 0; i < 64; i++) if (p[i] != (unsigned char)(m.tag + salt) || p[n - 64 + i] != (unsigned char)(m.tag * 3 + salt)) return false;
        return p[n / 2] == (unsigned char)m.tag;
    };
    if (f->getLength() != m.len || f->getPresentationTime().count() != m.pts || f->getDecodeTime().count() != m.dts ||
        f->getSequenceNumber() != m.seq || f->getOriginTime() != std::chrono::system_clock::time_point(us(m.org))) return false;
    if (f->isPlanar()) { AudioFrame* a = dynamic_cast<AudioFrame*>(f); for (unsigned c = 0; c < a->getChannels(); c++) if (!ok(f->getPlanarDataBuf()[c], c + 1)) return false; return true; }
    return ok(f->getDataBuf(), 0);
}

void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng;
    ConnectionData cd; cd.wFilterId = (int)r.range(0, 1000); cd.writerId = (int)r.range(0, 5);
    unsigned nread = r.range(1, 4); std::vector<int> rids;
    for (unsigned i = 0; i < nread; i++) { ReaderData d; d.rFilterId = 2000 + (int)i * 3; d.readerId = (int)i; cd.readers.push_back(d); rids.push_back(d.rFilterId); }
    unsigned max; AVFramedQueue* q = NULL; StreamInfo si(VIDEO); std::string kind; bool expectNull = false;
    int k = (int)r.below(40);
    if (k == 0) {          // real video queues
        VCodecType vc = r.pick({H264, H265, VP8, RAW, MJPEG, VC_NONE}); si.video.codec = vc; si.setCodecDefaults();
        PixType px = r.pick({P_NONE, RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P}); si.video.pixelFormat = px;
        max = r.range(2, 5); q = VideoFrameQueue::createNew(cd, &si, max); kind = vf::fmt("video codec %d pix %d", vc, px);
        expectNull = vc == MJPEG || vc == VC_NONE || (vc == RAW && px == P_NONE);
    } else if (k < 4) {    // real audio queues
        si.type = AUDIO; si.audio.codec = r.pick({G711, PCMU, OPUS, PCM, AAC, MP3, AC_NONE}); si.audio.sampleRate = r.pick({8000u, 16000u, 22050u, 44100u, 48000u});
        si.audio.channels = r.range(1, 2); si.audio.sampleFormat = r.pick({U8, S16, FLT, U8P, S16P, FLTP, S_NONE}); si.setCodecDefaults();
        bool planarOk = si.audio.codec == PCM || si.audio.codec == PCMU;
        expectNull = si.audio.codec == AC_NONE || (planarOk && si.audio.sampleFormat == S_NONE);
        max = r.range(2, 8); q = AudioFrameQueue::createNew(cd, &si, max); kind = vf::fmt("audio codec %d fmt %d", si.audio.codec, si.audio.sampleFormat);
    } else {
        max = k < 8 ? r.pick({2u, 3u, 249u, 250u, 251u, 1000u}) : (k < 24 ? r.range(2, 8) : r.range(2, 250));
        q = new MQueue(cd, max, r.range(1, 200)); kind = "mini";
    }
    VF_CHECK((q == NULL) == expectNull, "creation", "%s: creation %s", kind.c_str(), q ? "succeeded" : "failed");
    if (!q) { vf::count("refused creations"); return; }
    if (max > 250) max = 250;
    VF_CHECK(q->getMaxFrames() == max, "max-frames", "%s asked %u reports %u", kind.c_str(), max, q->getMaxFrames());
    vf::Hash sig; sig.add(max);

    std::deque<Meta> m; uint64_t lost = 0, committed = 0, delivered = 0, tag = r.u64() % 100000;
    Meta last{}; bool haveLast = false;
    Frame* rearF = NULL; Meta rearM{}; bool rearFilled = false; std::set<Frame*> all;
    unsigned steps = k < 4 ? 120 : (unsigned)r.range(20, c.thorough ? 3000 : 600);
    // phases bias the producer/consumer balance so that full, empty and wrap-around all occur
    int bias = 50;
    auto check = [&](const char* op) {
        unsigned el = q->getElements();
        VF_CHECK(el == m.size(), "elements", "after %s: %u elements reported, %zu queued (max %u)", op, el, m.size(), max);
        VF_CHECK(el <= max - 1, "capacity", "after %s: %u elements in a queue of %u", op, el, max);
        bool full = m.size() * 10 > max * 9 || m.size() + 1 == max;      // exactly 90 % may be answered either way (rounding)
        if (m.size() + 1 == max || m.size() * 10 != max * 9) VF_CHECK(q->isFull() == full, "is-full", "after %s: isFull %d with %zu of %u", op, q->isFull(), m.size(), max);
        VF_CHECK(q->getLostBlocs() == lost, "lost-count", "after %s: lost %zu, expected %llu", op, q->getLostBlocs(), (unsigned long long)lost);
        VF_CHECK(committed == delivered + lost + el, "conservation", "after %s: committed %llu delivered %llu lost %llu queued %u", op,
                 (unsigned long long)committed, (unsigned long long)delivered, (unsigned long long)lost, el);
    };
    check("create");
    for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        if (r.chance(1, 40)) bias = (int)r.pick({10, 30, 50, 50, 70, 90, 100, 0});
        int op = (int)r.below(100);
        if (op < bias) {                                   // producer side
            int po = (int)r.below(10);
            bool force = r.chance(1, 3);
            if (po < 6 || (!rearF && m.size() < max - 1)) {
                bool wasFull = m.size() >= max - 1;
                Frame* f = force ? q->forceGetRear() : q->getRear();
                if (!force) { VF_CHECK((f == NULL) == wasFull, "rear-full", "getRear %p with %zu of %u", (void*)f, m.size(), max); }
                else {
                    VF_CHECK(f != NULL, "force-null", "forceGetRear returned NULL");
                    if (wasFull) { m.pop_back(); lost++; rearFilled = false; vf::count("forced drops"); }
                }
                if (f) {
                    all.insert(f);
                    VF_CHECK(all.size() <= max, "frame-pool", "%zu distinct frames from a queue of %u", all.size(), max);
                    if (f != rearF) rearFilled = false;
                    rearF = f;
                    if (!rearFilled || r.chance(1, 2)) {
                        Meta x; x.tag = ++tag; unsigned cap = f->getMaxLength();
                        x.len = r.chance(1, 4) ? cap : (unsigned)r.range(0, cap); x.pts = r.range(-5, 1000000000); x.dts = r.chance(1, 2) ? -1 : r.range(0, 1000000000);
                        x.seq = r.u64(); x.org = r.range(0, 2000000000);
                        fillFrame(f, x); rearM = x; rearFilled = true;
                    }
                }
                check(force ? "forceGetRear" : "getRear");
            } else {
                bool full = m.size() >= max - 1;
                if (!full && !(rearF && rearFilled)) continue;       // never commit an unwritten frame
                if (!full && q->getRear() != rearF) continue;
                std::vector<int> ids = q->addFrame();
                if (!full) {
                    m.push_back(rearM); committed++; rearF = NULL; rearFilled = false;
                    VF_CHECK(ids == rids, "commit-ids", "commit returned %zu ids, expected the %zu readers in order", ids.size(), rids.size());
                    vf::count("commits");
                } else vf::count("refused commits");
                check("addFrame");
            }
        } else {                                          // consumer side
            int co = (int)r.below(10);
            if (co < 4) {
                Frame* f = q->getFront();
                VF_CHECK((f == NULL) == m.empty(), "front-empty", "getFront %p with %zu queued", (void*)f, m.size());
                if (f && !m.empty()) VF_CHECK(sameFrame(f, m.front()), "front-content", "front is not the oldest committed frame (tag %llu, seq %zu vs %zu, len %u vs %u)",
                                              (unsigned long long)m.front().tag, f->getSequenceNumber(), m.front().seq, f->getLength(), m.front().len);
                check("getFront");
            } else if (co < 8) {
                if (!m.empty()) { Frame* f = q->getFront(); VF_CHECK(f && sameFrame(f, m.front()), "front-content", "front is not the oldest committed frame before removal"); }
                int id = q->removeFrame();
                if (m.empty()) { VF_CHECK(id == -1, "remove-empty", "removal from an empty queue returned %d", id); vf::count("empty removals"); }
                else { VF_CHECK(id == cd.wFilterId, "remove-id", "removal returned %d, writer is %d", id, cd.wFilterId); last = m.front(); haveLast = true; m.pop_front(); delivered++; vf::count("deliveries"); }
                check("removeFrame");
            } else {
                Frame* f = q->forceGetFront();
                VF_CHECK(f != NULL, "force-front-null", "forceGetFront returned NULL");
                if (f && haveLast) VF_CHECK(sameFrame(f, last), "force-front", "the repeated frame is not the last one delivered (elements %zu of %u)", m.size(), max);
                check("forceGetFront");
            }
        }
        sig.add(m.size() * 4 + (lost != 0) * 2 + haveLast);
    }
    // drain: everything still queued comes out in order
    while (!m.empty() && !vf::failed()) {
        Frame* f = q->getFront();
        VF_CHECK(f && sameFrame(f, m.front()), "front-content", "drain: wrong frame");
        if (!f) break;
        q->removeFrame(); m.pop_front(); delivered++; vf::count("deliveries");
        check("drain");
    }
    // reader bookkeeping of the queue
    VF_CHECK(q->addReaderCData(5000, 7), "reader-add", "a new reader id was refused");
    VF_CHECK(!q->addReaderCData(5000, 8), "reader-dup", "a duplicate reader id was accepted");
    VF_CHECK(q->getCData().readers.size() == nread + 1 && q->getCData().readers.back().readerId == 7, "reader-list", "reader list not updated");
    VF_CHECK(q->removeReaderCData(5000) && !q->removeReaderCData(5000) && q->getCData().readers.size() == nread, "reader-del", "reader list not restored");
    delete q;
    vf::distinct(sig.h);
    if (c.idx < 3) vf::sample(vf::fmt("case %llu: %s max %u steps %u committed %llu delivered %llu lost %llu", (unsigned long long)c.idx, kind.c_str(), max, steps,
                                      (unsigned long long)committed, (unsigned long long)delivered, (unsigned long long)lost));
    // audio frame helpers stay inside their buffers
    if (k == 1) {
        SampleFmt fm = r.pick({U8, S16, FLT}); AudioFrame* a = InterleavedAudioFrame::createNew((int)r.range(1, 2), 8000, 160, PCM, fm); a->fillWithValue(3); delete a;
        AudioFrame* b = PlanarAudioFrame::createNew((int)r.range(1, 2), 8000, 160, PCM, r.pick({U8P, S16P, FLTP})); b->fillWithValue(3); delete b;
    }
}
