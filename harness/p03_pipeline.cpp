// P03: real pipelines on the real worker pool; monitors in the filters of mini.hh.
//!wrap-mutex
#include "mini.hh"
#include "perturb.hh"
#include "WorkersPool.hh"
#include "Event.hh"
#include <memory>
#include <set>
#include <algorithm>
using namespace mini;

struct Nd { BaseFilter* f; Steer* st; char kind; unsigned maxR, maxW; std::set<int> usedR, usedW; };
struct Cn { int a, w; std::vector<std::pair<int, int>> readers; };

struct Net {
    std::map<int, Nd> n; std::vector<Cn> c; int next = 1; vf::Rng& r; unsigned busy; unsigned qmin = 3, qmax = 8; uint64_t limit = ~0ull; int srcRet;
    bool syncSinks;
    Net(vf::Rng& r) : r(r), busy(0), srcRet(0), syncSinks(false) {}
    int mk(char kind) {
        Nd d; d.kind = kind; d.maxR = d.maxW = 0;
        switch (kind) {
        case 'S': { d.maxW = 4; auto f = new Source(4, true); f->limit = limit; f->retUs = srcRet; int skip = (int)r.range(0, 3); f->rng = vf::Rng(r.u64(), 1); vf::Rng* fr = &f->rng; f->produce = [fr, skip](int, uint64_t) { return !skip || fr->below(4) >= (unsigned)skip; }; d.f = f; d.st = &f->st; f->rng = vf::Rng(r.u64(), 1); break; }
        case 'R': { d.maxR = d.maxW = 1; auto f = new Relay(); f->drop = r.chance(1, 3) ? 30 : 0; d.f = f; d.st = &f->st; f->rng = vf::Rng(r.u64(), 2); break; }
        case 'P': { d.maxW = 4; d.maxR = 1; auto f = new Split(4); d.f = f; d.st = &f->st; f->rng = vf::Rng(r.u64(), 3); break; }
        case 'M': { d.maxR = 4; d.maxW = 1; auto f = new Merge(4); d.f = f; d.st = &f->st; f->rng = vf::Rng(r.u64(), 4); break; }
        default: { d.maxR = 6; auto f = new Sink(6, syncSinks && r.chance(1, 2)); d.f = f; d.st = &f->st; f->rng = vf::Rng(r.u64(), 5); break; }
        }
        d.st->queueSize = r.range(qmin, qmax); if (r.chance(1, 2)) d.st->busyRnd = busy;
        int id = next++; d.f->setId(id); n[id] = d; return id;
    }
    int nextIdOf(std::set<int>& used, unsigned max) { if (max == 1) return used.empty() ? DEFAULT_ID : -1; if (used.size() >= max) return -1; int id = (int)r.range(1, 1000000); while (used.count(id)) id++; return id; }
    bool connect(int a, int b, const char* when) {
        Nd &A = n[a], &B = n[b]; int w = nextIdOf(A.usedW, A.maxW), rd = nextIdOf(B.usedR, B.maxR);
        if (w < 0 || rd < 0) return false;
        bool ok = A.f->connectManyToMany(B.f, rd, w);
        VF_CHECK(ok, "connect", "%s: legal connection %d/%d -> %d/%d refused", when, a, w, b, rd);
        if (ok) { A.usedW.insert(w); B.usedR.insert(rd); c.push_back(Cn{a, w, {{b, rd}}}); }
        return ok;
    }
    bool share(Cn& k, int b, const char* when) {
        Nd& B = n[b]; for (auto& x : k.readers) if (x.first == b) return false;
        if (b == k.a) return false;
        int rd = nextIdOf(B.usedR, B.maxR); if (rd < 0) return false;
        bool ok = n[k.readers[0].first].f->shareReader(B.f, rd, k.readers[0].second);
        VF_CHECK(ok, "share", "%s: legal sharing refused", when);
        if (ok) { B.usedR.insert(rd); k.readers.push_back({b, rd}); }
        return ok;
    }
    uint64_t produced(int a, int w) { Nd& A = n[a]; switch (A.kind) { case 'S': return ((Source*)A.f)->made[w]; case 'R': return ((Relay*)A.f)->passed; case 'P': return ((Split*)A.f)->made[w]; case 'M': return ((Merge*)A.f)->made; } return 0; }
};
static bool pending(BaseFilter* f) { return ((Runnable*)f)->pendingJobs(); }

static void staticCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; Net net(r); perturb::salt() = r.u64();
    unsigned threads = r.range(1, 8); net.busy = r.pick({0u, 8u, 60u, 300u}); net.limit = r.range(20, c.thorough ? 400 : 120); net.srcRet = (int)r.pick({0, 0, 50, 300}); net.syncSinks = r.chance(1, 3);
    if (r.chance(1, 4)) { net.qmin = 10; net.qmax = 60; }
    std::vector<int> open; unsigned ns = r.range(1, 3);
    for (unsigned i = 0; i < ns; i++) { int s = net.mk('S'); for (unsigned k = r.range(1, 3); k; k--) open.push_back(s); }
    unsigned inner = r.range(0, 7);
    for (unsigned i = 0; i < inner && !open.empty(); i++) {
        int a = open[r.below(open.size())]; char k = r.pick({'R', 'R', 'P', 'M'}); int b = net.mk(k);
        open.erase(std::find(open.begin(), open.end(), a));
        net.connect(a, b, "static");
        if (k == 'M') for (unsigned m = r.range(0, 2); m && !open.empty(); m--) { int x = open[r.below(open.size())]; open.erase(std::find(open.begin(), open.end(), x)); net.connect(x, b, "static"); }
        for (unsigned o = k == 'P' ? r.range(1, 3) : 1; o; o--) open.push_back(b);
    }
    std::vector<int> sinks;
    for (int a : open) { int t; if (!sinks.empty() && r.chance(1, 2)) t = sinks[r.below(sinks.size())]; else { t = net.mk('T'); sinks.push_back(t); } if (!net.connect(a, t, "static")) { t = net.mk('T'); sinks.push_back(t); net.connect(a, t, "static"); } }
    unsigned shares = r.range(0, 3), shared = 0;
    for (unsigned i = 0; i < shares; i++) { size_t ci = r.below(net.c.size()); char k = r.pick({'T', 'R'}); int b = net.mk(k); if (net.share(net.c[ci], b, "static")) shared++; if (k == 'R') { int t = net.mk('T'); net.connect(b, t, "static"); } }
    size_t nf = net.n.size();
    // a synchronised sink may legitimately hold frames back, and so do the filters sharing its readers
    std::set<int> holding; if (net.syncSinks) { for (auto& x : net.n) if (x.second.kind == 'T') holding.insert(x.first); for (auto& k : net.c) { bool h = false; for (auto& x : k.readers) h |= holding.count(x.first); if (h) for (auto& x : k.readers) holding.insert(x.first); } }
    perturb::level() = (int)r.pick({0, 0, 5, 30});
    bool drain = r.chance(2, 3); uint64_t frames = 0, lostAll = 0; vf::Hash sig;
    {
        WorkersPool pool(threads);
        for (auto& x : net.n) pool.addTask(x.second.f);
        auto t0 = std::chrono::steady_clock::now();
        if (drain) {
            // production ends by itself: everything must then flow out (unless held back for synchronisation)
            unsigned calm = 0; bool lim = false;
            while (calm < 12 && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(15) && !vf::failed()) {
                std::this_thread::sleep_for(us(1500));
                lim = true; for (auto& x : net.n) if (x.second.kind == 'S' && ((Source*)x.second.f)->ser.runs < net.limit * 5) lim = false;
                bool any = false; for (auto& x : net.n) if (!holding.count(x.first)) any |= pending(x.second.f);
                if (lim && !any) calm++; else calm = 0;
            }
            if (calm < 12 && c.verbose) {
                for (auto& k : net.c) for (auto& x : k.readers) fprintf(stderr, "conn %d(%c)/%d -> %d(%c)/%d taken %llu pending %d runs? ret\n", k.a, net.n[k.a].kind, k.w, x.first, net.n[x.first].kind, x.second, (unsigned long long)net.n[x.first].st->taken[x.second], pending(net.n[x.first].f));
            }
            if (!vf::failed()) VF_CHECK(calm >= 12, "stalled", "frames remain queued 15 s after the sources have stopped (%zu filters, %u threads, sources done %d)", nf, threads, lim);
        } else std::this_thread::sleep_for(us(r.range(500, 25000)));
        // state queries while running
        for (auto& x : net.n) { Jzon::Object o; if (r.chance(1, 3)) x.second.f->getState(o); }
        pool.stop();
    }
    perturb::level() = 0;
    for (auto& k : net.c) {
        uint64_t p = net.produced(k.a, k.w); frames += p;
        auto& first = k.readers[0]; size_t lost = net.n[first.first].f->getLostBlocs(first.second); lostAll += lost;
        VF_CHECK(lost <= p, "conservation", "%zu lost of %llu", lost, (unsigned long long)p);
        std::shared_ptr<Reader> rd; Nd& B = net.n[first.first];
        switch (B.kind) { case 'R': rd = ((Relay*)B.f)->getReader(first.second); break; case 'P': rd = ((Split*)B.f)->getReader(first.second); break; case 'M': rd = ((Merge*)B.f)->getReader(first.second); break; default: rd = ((Sink*)B.f)->getReader(first.second); }
        size_t queued = rd ? rd->getQueueElements() : 0;
        for (auto& x : k.readers) {
            uint64_t got = net.n[x.first].st->taken[x.second]; uint64_t lo = p - lost - queued;
            VF_CHECK(got >= lo && got <= lo + (k.readers.size() > 1 ? 1 : 0), "conservation", "filter %d (%c) committed %llu frames to filter %d (%c): %llu received, %zu lost, %zu queued, %zu sharers", k.a, net.n[k.a].kind, (unsigned long long)p, x.first, net.n[x.first].kind, (unsigned long long)got, lost, queued, k.readers.size());
            sig.add(got);
            if (drain && queued && !holding.count(x.first)) vf::fail("stalled", "%zu frames left in a queue after draining", queued);
        }
        sig.add(p).add(lost);
    }
    for (auto& x : net.n) { sig.add((uint64_t)x.second.kind); }
    for (auto& x : net.n) delete x.second.f;
    VF_CHECK(MQueue::live() == 0, "queues", "%ld queues alive after all filters are gone", MQueue::live()); MQueue::liveCount() = 0;
    vf::count("static pipelines"); vf::count("frames committed", frames); vf::count("frames lost and counted", lostAll); vf::count("connections accounted", net.c.size()); vf::count("shared readers", shared);
    vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: static, %zu filters, %u threads, %zu connections, %llu frames, %llu lost, drained %d", (unsigned long long)c.idx, nf, threads, net.c.size(), (unsigned long long)frames, (unsigned long long)lostAll, drain));
}

static Event pokeEvent(int v, int delay = -1) { Jzon::Object o, p; p.Add("v", v); o.Add("action", "poke"); o.Add("params", p); return Event(o, std::chrono::system_clock::now(), delay); }

static void dynamicCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; Net net(r); perturb::salt() = r.u64(); vf::Hash sig;
    unsigned threads = r.range(2, 8); net.busy = r.pick({0u, 8u, 60u, 400u}); net.srcRet = (int)r.pick({0, 50, 300}); net.syncSinks = r.chance(1, 2);
    perturb::level() = (int)r.pick({0, 5, 30, 60}); uint64_t recv = 0, ops = 0;
    {
        WorkersPool pool(threads);
        auto add = [&](char k) { int id = net.mk(k); VF_CHECK(pool.addTask(net.n[id].f), "addtask", "task refused"); return id; };
        add('S'); add('T'); add('R'); recv = Steer::total();
        if (r.chance(3, 4)) { net.connect(1, 3, "dynamic"); net.connect(3, 2, "dynamic"); if (r.chance(1, 2)) net.connect(1, 2, "dynamic"); }
        auto pickN = [&] { auto it = net.n.begin(); std::advance(it, r.below(net.n.size())); return it->first; };
        auto detach = [&](int b, int rd) { for (auto& k : net.c) k.readers.erase(std::remove(k.readers.begin(), k.readers.end(), std::make_pair(b, rd)), k.readers.end()); };
        unsigned steps = r.range(15, c.thorough ? 200 : 60);
        for (unsigned s = 0; s < steps && !vf::failed(); s++) {
            net.c.erase(std::remove_if(net.c.begin(), net.c.end(), [](const Cn& k) { return k.readers.empty() || k.w < 0; }), net.c.end());
            int op = (int)r.below(100); ops++;
            if (op < 15 && net.n.size() < 12) add(r.pick({'S', 'R', 'R', 'P', 'M', 'T', 'T'}));
            else if (op < 40) {
                int a = pickN(), b = pickN();
                // keep the graph acyclic: only connect towards younger filters or to sinks/from sources
                bool fwd = net.n[a].kind == 'S' || net.n[b].kind == 'T' || a < b;
                if (a != b && fwd && net.n[a].kind != 'T' && net.n[b].kind != 'S') { if (net.connect(a, b, "dynamic")) vf::count("connections made while running"); }
            } else if (op < 48 && !net.c.empty()) {
                Cn& k = net.c[r.below(net.c.size())]; int b = pickN();
                if (b > k.a && net.n[b].kind != 'S' && b != k.readers[0].first) { bool stillA = net.n[k.readers[0].first].f->isRConnected(k.readers[0].second); if (stillA && net.share(k, b, "dynamic")) vf::count("readers shared while running"); }
            } else if (op < 60 && !net.c.empty()) {
                Cn& k = net.c[r.below(net.c.size())]; auto x = k.readers[r.below(k.readers.size())];
                bool ok = net.n[x.first].f->disconnectReader(x.second); VF_CHECK(ok, "disconnect", "disconnectReader failed");
                net.n[x.first].usedR.erase(x.second); detach(x.first, x.second);
                if (k.readers.empty()) { net.n[k.a].f->disconnectWriter(k.w); net.n[k.a].usedW.erase(k.w); k.w = -1; }
                vf::count("readers disconnected while running");
            } else if (op < 67 && !net.c.empty()) {
                Cn& k = net.c[r.below(net.c.size())];
                bool ok = net.n[k.a].f->disconnectWriter(k.w); VF_CHECK(ok, "disconnect", "disconnectWriter failed");
                net.n[k.a].usedW.erase(k.w); k.w = -1;
                for (auto& x : k.readers) { net.n[x.first].f->disconnectReader(x.second); net.n[x.first].usedR.erase(x.second); }
                k.readers.clear(); vf::count("writers disconnected while running");
            } else if (op < 74 && net.n.size() > 3) {
                int a = pickN(); Nd d = net.n[a];
                if (r.chance(1, 2)) for (int rd : std::set<int>(d.usedR)) { d.f->disconnectReader(rd); }
                pool.removeTask(a);
                delete d.f; net.n.erase(a);
                // the other ends of its connections
                for (auto& k : net.c) {
                    for (auto& x : k.readers) if (x.first == a) { x.first = -1; }
                    k.readers.erase(std::remove_if(k.readers.begin(), k.readers.end(), [](const std::pair<int, int>& x) { return x.first == -1; }), k.readers.end());
                    if (k.a == a) { for (auto& x : k.readers) { net.n[x.first].f->disconnectReader(x.second); net.n[x.first].usedR.erase(x.second); } k.readers.clear(); k.w = -1; }
                    else if (k.readers.empty() && k.w >= 0) { net.n[k.a].f->disconnectWriter(k.w); net.n[k.a].usedW.erase(k.w); k.w = -1; }
                }
                vf::count("filters deleted while running");
            } else if (op < 84) { net.n[pickN()].f->pushEvent(pokeEvent((int)r.range(1, 1000), r.chance(1, 4) ? (int)r.below(4) : -1)); vf::count("events pushed while running"); }
            else if (op < 94) {
                Nd& d = net.n[pickN()]; Jzon::Object o; d.f->getState(o); VF_CHECK(o.Has("type") && o.Has("role") && o.Has("kind"), "state", "incomplete state");
                for (int id : d.usedR) { d.f->isRConnected(id); d.f->getAvgReaderDelay(id); d.f->getLostBlocs(id); }
                for (int id : d.usedW) { d.f->isWConnected(id); d.f->getWConnectionData(id); }
                vf::count("state queries while running");
            } else std::this_thread::sleep_for(us(r.below(1500)));
            if (r.chance(1, 2)) std::this_thread::sleep_for(us(r.below(900)));
            sig.add(net.n.size() << 8 | net.c.size());
        }
        pool.stop();
        for (auto& x : net.n) for (auto& t : x.second.st->taken) sig.add(t.second);
        for (auto& x : net.n) delete x.second.f;
    }
    perturb::level() = 0; recv = Steer::total() - recv;
    if (!vf::failed()) VF_CHECK(MQueue::live() == 0, "queues", "%ld queues alive after all filters are gone", MQueue::live());
    MQueue::liveCount() = 0;
    vf::count("dynamic pipelines"); vf::count("control operations", ops); vf::count("frames received in dynamic pipelines", recv); vf::count("injected delays", perturb::delays().exchange(0));
    vf::distinct(sig.h);
}

void vf_case(vf::Ctx& c) { if (c.idx % 2) dynamicCase(c); else staticCase(c); }
