// P02: a shared Reader against a reference model, and under concurrent sharers.
#include "mini.hh"
#include "IOInterface.hh"
#include <deque>
#include <mutex>
using namespace mini;

static uint32_t frameN(Frame* f) { return (uint32_t)((Payload*)f->getDataBuf())->n; }
typedef std::chrono::system_clock Wall;
struct Stamp { us time; Wall::time_point origin; };
static bool put(Writer& w, MQueue* q, uint64_t n, vf::Rng& r, bool force, std::map<uint32_t, Stamp>* stamps = NULL) {
    Frame* f = w.getFrame(force);
    if (!f) return false;
    Payload* p = (Payload*)f->getDataBuf();
    p->seal(1, 1, n); f->setLength(sizeof(Payload)); f->setPresentationTime(us(n * 1000 + r.below(900)));
    f->setOriginTime(Wall::now());
    if (stamps) {                                                           // of any age, at times of its own
        Stamp st; st.time = us(n * 1000 + (r.chance(1, 6) ? -1000 : (int64_t)r.below(900))); st.origin = Wall::now() - us(r.below(r.chance(1, 5) ? 3000000 : 40000));
        f->setPresentationTime(st.time + us(r.below(3) * 500)); f->setDecodeTime(st.time); f->setOriginTime(st.origin); (*stamps)[(uint32_t)n] = st;
    }
    w.addFrame();
    return true;
}

// ---- random histories against the model ----
static void modelCase(vf::Ctx& c) {
    vf::Rng& r = c.rng;
    int wId = (int)r.range(0, 50);
    ConnectionData cd; cd.wFilterId = wId; cd.writerId = 1; ReaderData rd; rd.rFilterId = 100; rd.readerId = 4; cd.readers.push_back(rd);
    unsigned max = r.range(3, 12);
    MQueue* q = new MQueue(cd, max);
    long live0 = MQueue::live();
    Writer w; w.setQueue(q);
    us window(r.pick({0, 1000, 10000, 70000, 5000000}));
    auto reader = std::make_shared<Reader>(window);
    // the delay it reports: average age of the frames let go while the media time went on by a window
    std::map<uint32_t, Stamp> stamps; int64_t mediaLast = -1, media = 0, ageLo = 0, ageHi = 0, avgLo = 0, avgHi = 0; unsigned aged = 0;
    auto letGo = [&](uint32_t n, Wall::time_point b, Wall::time_point a) {
        const Stamp& st = stamps[n]; int64_t t = st.time.count(); if (mediaLast < 0) mediaLast = t; if (t == mediaLast) return;
        media += t - mediaLast; mediaLast = t;
        if (media >= window.count() && aged) { avgLo = ageLo / aged - 1; avgHi = ageHi / aged + 1; media = ageLo = ageHi = 0; aged = 0; vf::count("delays averaged"); }
        ageLo += std::chrono::duration_cast<us>(b - st.origin).count(); ageHi += std::chrono::duration_cast<us>(a - st.origin).count(); aged++;
    };
    bool nf = false;
    VF_CHECK(reader->getFrame(100, nf) == NULL, "unconnected", "a reader without queue returned a frame");
    VF_CHECK(reader->removeFrame(100) == -1, "unconnected", "a reader without queue removed a frame");
    VF_CHECK(w.connect(reader), "connect", "connection failed");
    struct F { bool pend, owe; };
    std::map<int, F> fs; fs[100] = F{false, false};
    std::deque<uint32_t> m; bool held = false; uint32_t next = 1, lastOut = 0; bool connected = true;
    std::map<int, uint32_t> seen;          // last frame shown as new to each filter
    uint64_t lost = 0; vf::Hash sig;
    unsigned steps = r.range(20, c.thorough ? 2500 : 500); int bias = 40;
    auto allRead = [&] { for (auto& f : fs) if (f.second.pend || f.second.owe) return false; return true; };
    for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        if (r.chance(1, 30)) bias = (int)r.pick({10, 25, 40, 40, 60, 90});
        int op = (int)r.below(100); uint32_t outBefore = lastOut; Wall::time_point before = Wall::now();
        if (op < bias) {
            bool force = r.chance(1, 4), full = m.size() >= max - 1;
            if (full && force) { m.pop_back(); lost++; }
            bool ok = put(w, q, next, r, force, &stamps);
            if (full && !force) { VF_CHECK(!ok, "write-full", "write into a full queue accepted"); continue; }
            if (!connected) { VF_CHECK(!ok, "write-disconnected", "write into a disconnected queue accepted"); continue; }
            VF_CHECK(ok, "write", "write refused with %zu of %u", m.size(), max);
            m.push_back(next++); vf::count("frames written");
        } else if (op < 92) {
            // a filter asks for and/or releases
            int id; bool attached;
            if (r.chance(1, 12)) { id = (int)r.range(500, 510); attached = false; }
            else { if (fs.empty()) { id = 100; attached = false; } else { auto it = fs.begin(); std::advance(it, r.below(fs.size())); id = it->first; attached = true; } }
            bool canRelease = attached && (!held || !fs[id].pend);
            if (!attached || r.chance(1, 2) || !canRelease) {
                bool mark = r.chance(1, 2), nf = mark; Frame* f = reader->getFrame(id, nf);
                if (!attached || !connected) { VF_CHECK(f == NULL, "unattached-get", "filter %d not attached but got a frame", id); vf::count("refused requests"); }
                else {
                    VF_CHECK(f != NULL, "get-null", "attached filter got no frame");
                    if (!held && !m.empty()) { held = true; for (auto& x : fs) x.second = F{true, true}; }
                    if (!held) { VF_CHECK(!nf, "new-on-empty", "frame flagged new with an empty queue");
                        if (f && lastOut) VF_CHECK(frameN(f) == lastOut, "repeat-last", "with an empty queue frame %u is repeated instead of %u", frameN(f), lastOut); vf::count("repeats on empty"); }
                    else {
                        VF_CHECK(nf == fs[id].pend, "new-flag", "frame %u flagged %s for filter %d, expected %s", f ? frameN(f) : 0, nf ? "new" : "old", id, fs[id].pend ? "new" : "old");
                        if (f) VF_CHECK(frameN(f) == m.front(), "wrong-frame", "filter %d got frame %u, expected %u", id, frameN(f), m.front());
                        if (nf) { seen[id] = m.front(); vf::count("frames shown as new"); } else vf::count("frames repeated");
                        fs[id].pend = false;
                    }
                }
            } else {
                int ret = reader->removeFrame(id);
                bool out = false;
                if (attached && held) { fs[id].owe = false; out = allRead(); }
                VF_CHECK(ret == (out ? wId : -1), "release-return", "release by %d returned %d (expected %d), %zu filters, held %d", id, ret, out ? wId : -1, fs.size(), held);
                if (out) { lastOut = m.front(); m.pop_front(); held = false; vf::count("frames released"); }
                else if (!held) vf::count("releases with nothing held"); else vf::count("partial releases");
            }
            if (!attached) { int ret = reader->removeFrame(id); VF_CHECK(ret == -1, "unattached-release", "release by filter %d, not attached, returned %d", id, ret); }
        } else if (op < 96) {
            int id = (int)r.range(100, 108);
            if (fs.count(id)) { reader->addReader(id, 9); VF_CHECK(q->getCData().readers.size() == fs.size(), "dup-reader", "attaching a filter twice changed the reader list"); }
            else if (connected && fs.size() < 6) { reader->addReader(id, (int)r.range(0, 5)); fs[id] = F{false, false}; vf::count("filters attached"); }
        } else {
            int id = (int)r.range(100, 108);
            bool was = fs.count(id), lastOne = was && fs.size() == 1;
            if (lastOne && !r.chance(1, 6)) continue;
            bool ret = reader->disconnect(id);
            VF_CHECK(ret == was, "disconnect-return", "disconnect of filter %d returned %d, attached %d", id, ret, was);
            if (was) {
                fs.erase(id); vf::count("filters detached");
                if (lastOne) { connected = false; break; }
                if (held && allRead()) { lastOut = m.front(); m.pop_front(); held = false; vf::count("frames released by departure"); }
            }
        }
        if (lastOut != outBefore) { letGo(lastOut, before, Wall::now()); stamps.erase(stamps.begin(), stamps.find(lastOut)); }
        int64_t avg = reader->getAvgDelay().count(); VF_CHECK(avg >= avgLo && avg <= avgHi, "delay", "average delay of %lld us, the frames let go were %lld to %lld us old", (long long)avg, (long long)avgLo, (long long)avgHi);
        VF_CHECK(reader->getQueueElements() == m.size(), "queue-size", "%zu frames queued, expected %zu", reader->getQueueElements(), m.size());
        VF_CHECK(reader->getLostBlocs() == lost, "lost", "lost count %zu, expected %llu", reader->getLostBlocs(), (unsigned long long)lost);
        VF_CHECK(reader->isConnected() == connected && w.isConnected() == connected, "connected", "connection state wrong");
        size_t n = q->getCData().readers.size();
        VF_CHECK(n == fs.size(), "readers-listed", "%zu readers listed, %zu attached", n, fs.size());
        sig.add(m.size() | held << 8); for (auto& f : fs) sig.add(f.first * 4 + f.second.pend * 2 + f.second.owe);
    }
    if (!connected) {   // last sharer left: nothing more is given to anybody
        bool nf = false;
        VF_CHECK(reader->getFrame(100, nf) == NULL && reader->removeFrame(100) == -1 && !reader->isConnected() && !w.isConnected(), "after-last", "a disconnected reader still serves");
        vf::count("readers disconnected");
    } else if (r.chance(1, 2)) {
        // writer goes first: readers get nothing any more
        w.disconnect(); bool nf = false;
        for (auto& f : fs) VF_CHECK(reader->getFrame(f.first, nf) == NULL, "writer-gone", "a frame was served after the writer had gone");
        VF_CHECK(!reader->isConnected(), "writer-gone", "reader still reports connected");
    }
    for (auto& f : fs) if (connected) reader->disconnect(f.first);
    w.disconnect();
    reader.reset();
    VF_CHECK(MQueue::live() == live0 - 1, "queue-freed", "%ld queues alive, expected %ld", MQueue::live(), live0 - 1);
    vf::distinct(sig.h);
    if (c.idx < 3) vf::sample(vf::fmt("model case %llu: max %u, %u steps, %u frames, %llu lost, %zu sharers at the end", (unsigned long long)c.idx, max, steps, next - 1, (unsigned long long)lost, fs.size()));
}

// ---- concurrent sharers ----
static void threadCase(vf::Ctx& c) {
    vf::Rng& r = c.rng;
    ConnectionData cd; cd.wFilterId = 3; cd.writerId = 1; ReaderData rd; rd.rFilterId = 100; rd.readerId = 4; cd.readers.push_back(rd);
    unsigned max = r.range(3, 20), nf = r.range(1, 4); uint64_t total = r.range(50, c.thorough ? 3000 : 600); bool force = r.chance(1, 3), churn = r.chance(1, 2);
    MQueue* q = new MQueue(cd, max);
    Writer w; w.setQueue(q);
    auto reader = std::make_shared<Reader>();
    w.connect(reader);
    for (unsigned i = 1; i < nf; i++) reader->addReader(100 + (int)i, (int)i);
    std::atomic<bool> done(false), stop(false); std::atomic<uint64_t> committed(0);
    std::vector<std::vector<uint32_t>> got(nf);
    std::vector<std::thread> th;
    uint64_t s0 = r.u64();
    for (unsigned i = 0; i < nf; i++) th.emplace_back([&, i] {
        vf::Rng tr(s0, i); int id = 100 + (int)i;
        while (true) {
            bool fin = done.load(); bool isNew = false;
            Frame* f = reader->getFrame(id, isNew);
            if (f && isNew) {
                Payload* p = (Payload*)f->getDataBuf();
                if (!p->ok()) vf::fail("torn-frame", "filter %d got a corrupt frame", id);
                uint64_t n = p->n;
                unsigned d = tr.below(6); for (unsigned k = 0; k < d; k++) std::this_thread::yield();
                if (!p->ok() || p->n != n) vf::fail("torn-frame", "frame %llu changed while filter %d held it", (unsigned long long)n, id);
                got[i].push_back((uint32_t)n);
                reader->removeFrame(id);
            } else { if (fin && reader->getQueueElements() == 0) break; if (stop) break; if (f && reader->getQueueElements() == 0) std::this_thread::sleep_for(us(20)); else std::this_thread::yield(); }
        }
    });
    std::thread prod([&] {
        vf::Rng tr(s0, 77); uint64_t n = 1;
        auto p0 = std::chrono::steady_clock::now();
        while (n <= total && std::chrono::steady_clock::now() - p0 < std::chrono::seconds(10)) {
            if (put(w, q, n, tr, force)) { n++; committed++; }
            if (tr.chance(1, 8)) std::this_thread::sleep_for(us(tr.below(60)));
        }
        done = true;
    });
    std::thread ch; std::atomic<uint64_t> churns(0), churnSaw(0);
    if (churn) ch = std::thread([&] {     // filters that come, look and leave again, even while holding a frame
        vf::Rng tr(s0, 99);
        while (!done) {
            int id = 200 + (int)tr.below(3);
            reader->addReader(id, 1);
            uint32_t last = 0; unsigned looks = tr.below(5);
            for (unsigned k = 0; k < looks; k++) {
                bool isNew = false; Frame* f = reader->getFrame(id, isNew);
                if (f && isNew) { Payload* p = (Payload*)f->getDataBuf(); if (!p->ok()) vf::fail("torn-frame", "late filter got a corrupt frame");
                    if (p->n <= last) vf::fail("order", "late filter got %llu after %u", (unsigned long long)p->n, last); last = (uint32_t)p->n; churnSaw++; if (k + 1 < looks) reader->removeFrame(id); }
                else std::this_thread::yield();
            }
            reader->disconnect(id); churns++;
        }
    });
    prod.join(); if (churn) ch.join();
    // every filter must drain by itself
    auto t0 = std::chrono::steady_clock::now();
    while (reader->getQueueElements() && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(8)) std::this_thread::sleep_for(us(200));
    if (reader->getQueueElements()) { vf::fail("stalled", "%zu frames stay in the queue although all %u filters ask for them", reader->getQueueElements(), nf); stop = true; }
    for (auto& t : th) t.join();
    size_t lost = q->getLostBlocs(); vf::Hash sig;
    for (unsigned i = 0; i < nf; i++) {
        for (size_t k = 1; k < got[i].size(); k++) if (got[i][k] <= got[i][k - 1]) { vf::fail("order", "filter %u got frame %u after %u", i, got[i][k], got[i][k - 1]); break; }
        VF_CHECK(got[i].size() + lost == committed, "conservation", "filter %u got %zu frames, %zu lost, %llu committed (queue %u, force %d)", i, got[i].size(), lost, (unsigned long long)committed.load(), max, force);
        VF_CHECK(got[i] == got[0], "sharers-differ", "sharing filters saw different frames");
        for (auto n : got[i]) sig.add(n);
    }
    vf::count("concurrent frames", committed); vf::count("concurrent deliveries", got[0].size() * nf); vf::count("attach/detach while running", churns); vf::count("frames seen by late filters", churnSaw);
    for (unsigned i = 0; i < nf; i++) reader->disconnect(100 + (int)i);
    w.disconnect();
    sig.add(lost).add(churns).add(churnSaw); vf::distinct(sig.h);
}

void vf_init(vf::Ctx&) {}
void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) {
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
    threadCase(c); return;
#endif
#endif
    if (c.idx % 40 == 39) threadCase(c); else modelCase(c);
}
