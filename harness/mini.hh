// Small real filters over small real queues, with self-checking payloads, used as workload
// around the real filter/reader/queue/pool code.
#ifndef MINI_HH
#define MINI_HH
#include "vf.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include <atomic>
#include <thread>
#include <chrono>

namespace mini {

typedef std::chrono::microseconds us;

struct Payload {          // lives in the frame's data buffer
    uint32_t src, writer;
    uint64_t n;
    uint64_t body[5];
    uint64_t sum;
    void seal(uint32_t s, uint32_t w, uint64_t num) {
        src = s; writer = w; n = num;
        vf::Rng r(((uint64_t)s << 32) ^ w, num);
        for (auto& b : body) b = r.u64();
        sum = calc();
    }
    uint64_t calc() const { vf::Hash h; h.add(this, offsetof(Payload, sum)); return h.h; }
    bool ok() const { return sum == calc(); }
};

class MFrame : public Frame {
public:
    explicit MFrame(unsigned cap = sizeof(Payload)) : buf(new unsigned char[cap]()), cap(cap), len(0) {}
    ~MFrame() { delete[] buf; }
    unsigned char* getDataBuf() { return buf; }
    unsigned char** getPlanarDataBuf() { return NULL; }
    unsigned int getLength() { return len; }
    unsigned int getMaxLength() { return cap; }
    void setLength(unsigned int l) { len = l; }
    bool isPlanar() { return false; }
private:
    unsigned char* buf; unsigned cap, len;
};

static StreamInfo miniInfo(ST_NONE);

class MQueue : public AVFramedQueue {
public:
    static std::atomic<long>& liveCount() { static std::atomic<long> n(0); return n; }
    static long live() { return liveCount(); }
    MQueue(ConnectionData c, unsigned max, unsigned cap = sizeof(Payload)) : AVFramedQueue(c, &miniInfo, max) {
        for (unsigned i = 0; i < this->max; i++) frames[i] = new MFrame(cap);
        liveCount()++;
    }
    ~MQueue() { liveCount()--; }
};

// The connected ends of a filter as part of its state report (called with its locks held).
template <class F> inline void reportEnds(F* f, Jzon::Object& o, std::map<int, uint64_t>& taken) {
    Jzon::Array r, w, t;
    for (auto& x : f->readers) { if (!x.second || !x.second->isConnected()) continue; r.Add(x.first); t.Add((int)(taken.count(x.first) ? taken[x.first] : 0)); }
    for (auto& x : f->writers) if (x.second->isConnected()) w.Add(x.first);
    o.Add("readers", r); o.Add("taken", t); o.Add("writers", w);
}
// ---- filters.  All virtual hooks can be steered by the harness. ----
struct Steer {
    unsigned queueSize;             // queue capacity to allocate (frames incl. the free one)
    bool refuseQueue, refuseReader, refuseWriter;
    unsigned busyUs;                // how long processing takes
    unsigned busyRnd;               // idem, random part
    std::map<int, int> rHook, wHook; // configured minus deleted, per reader/writer id
    std::map<int, std::map<std::pair<uint32_t, uint32_t>, uint64_t> > flows;   // per reader: last number seen per origin
    std::map<int, uint64_t> taken;                                              // per reader: frames received
    static std::atomic<uint64_t>& total() { static std::atomic<uint64_t> n(0); return n; }
    static bool& loops() { static bool b = false; return b; }                   // connections may form cycles: a frame may come round again
    void saw(int rid, const Payload* p, int fid) {
        auto& m = flows[rid]; auto k = std::make_pair(p->src, p->writer); auto it = m.find(k);
        if (!loops() && it != m.end() && p->n <= it->second) vf::fail("order", "filter %d reader %d got frame %llu of source %u/%u after %llu", fid, rid, (unsigned long long)p->n, p->src, p->writer, (unsigned long long)it->second);
        m[k] = p->n; taken[rid]++; total()++;
    }
    bool rCfg(int id) { if (refuseReader) return false; rHook[id]++; flows[id].clear(); taken[id] = 0; return true; }
    bool rDel(int id) { rHook[id]--; taken.erase(id); return true; }
    bool wCfg(int id) { if (refuseWriter) return false; wHook[id]++; return true; }
    bool wDel(int id) { wHook[id]--; return true; }
    Steer() : queueSize(4), refuseQueue(false), refuseReader(false), refuseWriter(false), busyUs(0), busyRnd(0) {}
};

inline void busy(const Steer& s, vf::Rng& r) {
    unsigned d = s.busyUs + (s.busyRnd ? r.below(s.busyRnd) : 0);
    if (!d) return;
    if (d < 20) for (unsigned i = 0; i < d; i++) std::this_thread::yield();
    else std::this_thread::sleep_for(us(d));
}

// Detects two executions of the same filter at once, and use after destruction (canary).
class Serial {
public:
    static std::atomic<long>& liveCount() { static std::atomic<long> n(0); return n; } static long live() { return liveCount(); }
    Serial() : inside(0), runs(0), canary(0xC0FFEE11u) { liveCount()++; }
    ~Serial() { canary = 0xDEADDEADu; liveCount()--; }
    void enter(const char* who) {
        if (canary != 0xC0FFEE11u) vf::fail("use-after-destroy", "%s processed after destruction", who);
        if (inside.fetch_add(1) != 0) vf::fail("concurrent-self", "%s running twice at the same time", who);
        runs++;
    }
    void leave() { inside.fetch_sub(1); }
    std::atomic<int> inside; std::atomic<uint64_t> runs; uint32_t canary;
};

// State changed by events, used while processing and reported by getState.
struct Poke {
    long a, b; uint64_t pokes;
    Poke() : a(0), b(0), pokes(0) {}
    bool set(Jzon::Node* p) { if (!p || !p->Has("v") || !p->Get("v").IsNumber()) return false; int v = p->Get("v").ToInt(); a = v; b = -v; pokes++; return true; }
    void use(int id) { if (a != -b) vf::fail("torn-config", "filter %d sees a half-applied configuration", id); a++; b--; }
    void report(Jzon::Object& o) { o.Add("a", (int)a); o.Add("b", (int)b); if (a != -b) vf::fail("torn-state", "a state report shows a half-applied configuration"); }
};
#define MINI_POKE Poke poke; void initPoke() { eventMap["poke"] = [this](Jzon::Node* p) { return poke.set(p); }; }

struct Got { uint32_t src, writer; uint64_t n; size_t seq; int64_t pts, dts; std::chrono::system_clock::time_point org; };
inline Got mkGot(const Payload* p, Frame* f) { return Got{p->src, p->writer, p->n, f->getSequenceNumber(), f->getPresentationTime().count(), f->getDecodeTime().count(), f->getOriginTime()}; }

class Source : public HeadFilter {
public:
    Source(unsigned writers = 16, bool periodic = true, FilterRole role = REGULAR) : HeadFilter(writers, role, periodic), limit(~0ull), retUs(0), rng(1, 7) { fType = RECEIVER; initPoke(); }
    MINI_POKE Steer st; std::map<int, uint64_t> made; std::atomic<uint64_t> limit; int retUs; vf::Rng rng; Serial ser;
    std::function<bool(int writer, uint64_t n)> produce;   // decides whether a frame is produced
    std::function<us(int writer, uint64_t n)> ptsOf, dtsOf; uint64_t calls = 0;
    std::map<int, uint64_t> committed() { return made; }
    using BaseFilter::getReader; using BaseFilter::setSyncTs; using BaseFilter::readers; using BaseFilter::writers;
protected:
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ser.enter("source"); poke.use(getId()); bool any = false; calls++;
        for (auto& it : d) {
            uint64_t& n = made[it.first];
            if (n >= limit || (produce && !produce(it.first, n))) continue;
            Payload* p = (Payload*)it.second->getDataBuf();
            p->seal((uint32_t)getId(), (uint32_t)it.first, n);
            it.second->setLength(sizeof(Payload));
            it.second->setPresentationTime(ptsOf ? ptsOf(it.first, n) : us((int64_t)n * 40000));
            it.second->setDecodeTime(dtsOf ? dtsOf(it.first, n) : NO_DTS);
            it.second->setConsumed(true);
            n++; any = true;
        }
        busy(st, rng);
        ret = retUs;
        ser.leave();
        return any;
    }
    FrameQueue* allocQueue(ConnectionData c) { return st.refuseQueue ? NULL : new MQueue(c, st.queueSize); }
    bool specificWriterConfig(int id) { return st.wCfg(id); }
    bool specificWriterDelete(int id) { return st.wDel(id); }
    void doGetState(Jzon::Object& o) { o.Add("kind", "source"); poke.report(o); reportEnds(this, o, st.taken); }
};

class Relay : public OneToOneFilter {
public:
    Relay(FilterRole role = REGULAR, bool periodic = false) : OneToOneFilter(role, periodic), rng(1, 8), drop(0) { fType = VIDEO_DECODER; initPoke(); }
    MINI_POKE Steer st; vf::Rng rng; Serial ser; unsigned drop;   // drop: percentage of frames not passed on
    std::vector<Got> got; uint64_t passed = 0; size_t maxLog = 4096; std::function<bool(uint64_t)> pass; uint64_t in = 0;
    using BaseFilter::getReader; using BaseFilter::setSyncTs; using BaseFilter::readers; using BaseFilter::writers;
protected:
    bool doProcessFrame(Frame* org, Frame* dst) {
        ser.enter("relay"); poke.use(getId()); bool ok = false;
        {
            Payload* p = (Payload*)org->getDataBuf();
            if (!p->ok()) vf::fail("torn-frame", "relay %d got a corrupt frame src=%u n=%llu", getId(), p->src, (unsigned long long)p->n);
            st.saw(st.taken.empty() ? 1 : st.taken.begin()->first, p, getId());
            busy(st, rng);
            if (!p->ok()) vf::fail("torn-frame", "frame held by relay %d was overwritten, src=%u n=%llu", getId(), p->src, (unsigned long long)p->n);
            if (got.size() < maxLog) got.push_back(mkGot(p, org));
            if (pass ? pass(in++) : !(drop && rng.below(100) < drop)) {
                memcpy(dst->getDataBuf(), p, sizeof(Payload));
                dst->setLength(org->getLength());
                dst->setPresentationTime(org->getPresentationTime());
                dst->setDecodeTime(org->getDecodeTime());
                dst->setOriginTime(org->getOriginTime());
                dst->setSequenceNumber(org->getSequenceNumber());
                dst->setConsumed(true);
                passed++; ok = true;
            }
        }
        ser.leave();
        return ok;
    }
    FrameQueue* allocQueue(ConnectionData c) { return st.refuseQueue ? NULL : new MQueue(c, st.queueSize); }
    bool specificReaderConfig(int id, FrameQueue*) { return st.rCfg(id); }
    bool specificReaderDelete(int id) { return st.rDel(id); }
    bool specificWriterConfig(int id) { return st.wCfg(id); }
    bool specificWriterDelete(int id) { return st.wDel(id); }
    void doGetState(Jzon::Object& o) { o.Add("kind", "relay"); poke.report(o); reportEnds(this, o, st.taken); }
};

class Split : public OneToManyFilter {
public:
    explicit Split(unsigned writers = 16, FilterRole role = REGULAR, bool periodic = false) : OneToManyFilter(writers, role, periodic), rng(1, 9) { fType = VIDEO_SPLITTER; initPoke(); }
    MINI_POKE Steer st; vf::Rng rng; Serial ser; std::map<int, uint64_t> made; std::function<bool(int, uint64_t)> produce; uint64_t in = 0; std::vector<Got> got; size_t maxLog = 4096;
    using BaseFilter::getReader; using BaseFilter::setSyncTs; using BaseFilter::readers; using BaseFilter::writers;
protected:
    bool doProcessFrame(Frame* org, std::map<int, Frame*>& d) {
        ser.enter("split"); poke.use(getId()); bool any = false;
        {
            Payload* p = (Payload*)org->getDataBuf();
            if (!p->ok()) vf::fail("torn-frame", "split %d got a corrupt frame", getId());
            st.saw(st.taken.empty() ? 1 : st.taken.begin()->first, p, getId());
            if (got.size() < maxLog) got.push_back(mkGot(p, org));
            for (auto& it : d) {
                if (produce && !produce(it.first, in)) continue;
                memcpy(it.second->getDataBuf(), p, sizeof(Payload));
                it.second->setLength(org->getLength());
                it.second->setPresentationTime(org->getPresentationTime());
                it.second->setConsumed(true); made[it.first]++; any = true;
            }
            in++;
        }
        busy(st, rng);
        ser.leave();
        return any;
    }
    FrameQueue* allocQueue(ConnectionData c) { return st.refuseQueue ? NULL : new MQueue(c, st.queueSize); }
    bool specificReaderConfig(int id, FrameQueue*) { return st.rCfg(id); }
    bool specificReaderDelete(int id) { return st.rDel(id); }
    bool specificWriterConfig(int id) { return st.wCfg(id); }
    bool specificWriterDelete(int id) { return st.wDel(id); }
    void doGetState(Jzon::Object& o) { o.Add("kind", "split"); poke.report(o); reportEnds(this, o, st.taken); }
};

class Merge : public ManyToOneFilter {
public:
    explicit Merge(unsigned readers = 16, FilterRole role = REGULAR, bool periodic = false) : ManyToOneFilter(readers, role, periodic), rng(1, 10), made(0), rounds(0) { fType = VIDEO_MIXER; initPoke(); }
    MINI_POKE Steer st; vf::Rng rng; Serial ser; uint64_t made, rounds; std::function<bool(uint64_t)> produce;
    std::map<int, std::vector<Got>> got; std::vector<std::vector<int>> newOf; size_t maxLog = 4096;
    using BaseFilter::getReader; using BaseFilter::setSyncTs; using BaseFilter::getSyncTs; using BaseFilter::setFrameTime; using BaseFilter::readers; using BaseFilter::writers;
    void sync(bool b) { setSync(b); }
protected:
    bool doProcessFrame(std::map<int, Frame*>& o, Frame* dst, std::vector<int> nf) {
        ser.enter("merge"); poke.use(getId());
        for (int id : nf) {
            Frame* f = o[id];
            Payload* p = (Payload*)f->getDataBuf();
            if (!p->ok()) vf::fail("torn-frame", "merge %d got a corrupt frame on reader %d", getId(), id);
            st.saw(id, p, getId());
            if (got[id].size() < maxLog) got[id].push_back(mkGot(p, f));
        }
        if (newOf.size() < maxLog) newOf.push_back(nf);
        bool ok = !produce || produce(rounds);
        rounds++;
        if (ok) {
            ((Payload*)dst->getDataBuf())->seal((uint32_t)getId(), 1, made);
            dst->setLength(sizeof(Payload));
            dst->setPresentationTime(us((int64_t)made * 40000));
            dst->setConsumed(true); made++;
        }
        busy(st, rng);
        ser.leave();
        return ok;
    }
    FrameQueue* allocQueue(ConnectionData c) { return st.refuseQueue ? NULL : new MQueue(c, st.queueSize); }
    bool specificReaderConfig(int id, FrameQueue*) { return st.rCfg(id); }
    bool specificReaderDelete(int id) { return st.rDel(id); }
    bool specificWriterConfig(int id) { return st.wCfg(id); }
    bool specificWriterDelete(int id) { return st.wDel(id); }
    void doGetState(Jzon::Object& o) { o.Add("kind", "merge"); poke.report(o); reportEnds(this, o, st.taken); }
};

class Sink : public TailFilter {
public:
    explicit Sink(unsigned readers = 16, bool sync = false, FilterRole role = REGULAR, bool periodic = false) : TailFilter(readers, role, periodic), rng(1, 11) { fType = TRANSMITTER; setSync(sync); initPoke(); }
    MINI_POKE Steer st; vf::Rng rng; Serial ser; std::map<int, std::vector<Got>> got; std::vector<std::vector<int>> newOf; size_t maxLog = 1u << 20;
    
    std::map<int, uint64_t> lastN; std::map<int, bool> seen;
    std::atomic<uint64_t> received{0}; bool talk = false; static std::atomic<uint64_t>& saidTotal() { static std::atomic<uint64_t> n(0); return n; }     // talk: sends events to the filters feeding it
    using BaseFilter::getReader; using BaseFilter::setSyncTs; using BaseFilter::getSyncTs; using BaseFilter::setFrameTime; using BaseFilter::readers; using BaseFilter::writers;
    void sync(bool b) { setSync(b); }
protected:
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> nf, int& ret) {
        ser.enter("sink"); poke.use(getId());
        for (int id : nf) {
            Frame* f = o[id];
            Payload* p = (Payload*)f->getDataBuf();
            if (!p->ok()) vf::fail("torn-frame", "sink %d got a corrupt frame on reader %d", getId(), id);
            st.saw(id, p, getId());
            Payload copy = *p;
            busy(st, rng);
            if (memcmp(&copy, p, sizeof copy)) vf::fail("torn-frame", "frame held by sink %d was overwritten", getId());
            if (got[id].size() < maxLog) got[id].push_back(mkGot(p, f));
            received++;
        }
        if (newOf.size() < maxLog) newOf.push_back(nf);
        if (talk && !nf.empty() && !rng.below(4)) {
            Jzon::Object root, p; p.Add("v", (int)rng.below(1000)); root.Add("action", "poke"); root.Add("params", p);
            saidTotal()++; sendEvent(Event(root, std::chrono::system_clock::now(), 0), nf[rng.below(nf.size())]);
        }
        ser.leave();
        return true;
    }
    bool specificReaderConfig(int id, FrameQueue*) { return st.rCfg(id); }
    bool specificReaderDelete(int id) { return st.rDel(id); }
    void doGetState(Jzon::Object& o) { o.Add("kind", "sink"); poke.report(o); reportEnds(this, o, st.taken); }
};
}
#endif
