// Reference model of filter processing over real filters (P05, P06): every processFrame call is
// predicted (inputs shown, frames committed with number/time, filters named as runnable, waiting time).
#ifndef GRAPH_HH
#define GRAPH_HH
#include "mini.hh"
#include <deque>
#include <set>
#include <algorithm>
namespace graph {
using namespace mini;
typedef std::chrono::system_clock Clock;

struct MF { uint32_t src, w; uint64_t n; size_t seq; int64_t pts, dts; Clock::time_point lo, hi; bool numbered; int64_t time() const { return dts != -1 && dts <= pts ? dts : pts; } };
struct MConn {
    int wf, wid; unsigned cap; std::deque<MF> q; std::vector<std::pair<int, int> > readers; std::map<int, std::pair<bool, bool> > fl; bool held; uint64_t lost;
    MConn() : held(false), lost(0) {}
    bool full() const { return q.size() >= cap - 1; }
    bool nearly() const { return full() || q.size() * 10 >= cap * 9; }
    int64_t cur() const { return q.empty() ? -1 : q.front().time(); }
};
struct Node {
    char kind; BaseFilter* f; Steer* st; bool server, periodic, sync; int64_t frameTime, syncTs; unsigned maxR, maxW;
    std::map<int, MConn*> r, w; std::map<int, size_t> seq, made; uint64_t made1, rounds, inN; std::set<int> prod; bool prodAll; int retUs;
    std::map<int, size_t> gotN; size_t logN, newN;
};

struct World {
    vf::Rng& r; std::map<int, Node> n; std::vector<MConn*> conns; int next; vf::Hash sig; uint64_t evProc, evIdle, evCommit, evNew, evLost, evHeldBack, evJump, evOutdated, evAdvance, evAligned, evLagging, evFull, evMiss;
    World(vf::Rng& r) : r(r), next(1), evProc(0), evIdle(0), evCommit(0), evNew(0), evLost(0), evHeldBack(0), evJump(0), evOutdated(0), evAdvance(0), evAligned(0), evLagging(0), evFull(0), evMiss(0) {}
    ~World() { for (auto& x : n) delete x.second.f; for (auto c : conns) delete c; }
    // production decisions are drawn before each call and shared with the filter through these
    std::map<int, std::set<int> > willMake; std::map<int, bool> willOne; std::map<std::pair<int, int>, int64_t> ptsOf, dtsOf;

    int mk(char kind, bool server = false, bool periodic = false) {
        Node d; d.kind = kind; d.server = server; d.periodic = periodic; d.sync = false; d.frameTime = d.syncTs = 0; d.made1 = d.rounds = d.inN = 0; d.retUs = 0; d.logN = d.newN = 0; d.maxR = d.maxW = 0;
        int id = next++; FilterRole role = server ? SERVER : REGULAR; World* W = this;
        switch (kind) {
        case 'S': { auto f = new Source(d.maxW = 4, periodic, role); f->produce = [W, id](int w, uint64_t) { return W->willMake[id].count(w) > 0; };
            f->ptsOf = [W, id](int w, uint64_t) { return us(W->ptsOf[std::make_pair(id, w)]); }; f->dtsOf = [W, id](int w, uint64_t) { return us(W->dtsOf[std::make_pair(id, w)]); }; d.f = f; d.st = &f->st; break; }
        case 'R': { auto f = new Relay(role, periodic); d.maxR = d.maxW = 1; f->maxLog = ~0u; f->pass = [W, id](uint64_t) { return W->willOne[id]; }; d.f = f; d.st = &f->st; break; }
        case 'P': { auto f = new Split(d.maxW = 4, role, periodic); d.maxR = 1; f->maxLog = ~0u; f->produce = [W, id](int w, uint64_t) { return W->willMake[id].count(w) > 0; }; d.f = f; d.st = &f->st; break; }
        case 'M': { auto f = new Merge(d.maxR = 16, role, periodic); d.maxW = 1; f->maxLog = ~0u; f->produce = [W, id](uint64_t) { return W->willOne[id]; }; d.f = f; d.st = &f->st; break; }
        default: { auto f = new Sink(d.maxR = 16, false, role, periodic); f->maxLog = ~0u; d.f = f; d.st = &f->st; break; }
        }
        d.st->queueSize = r.pick({(int64_t)r.range(3, 12), (int64_t)10, (int64_t)20, (int64_t)r.range(3, 40)}); d.f->setId(id); n[id] = d; return id;
    }
    int freeId(std::map<int, MConn*>& m, unsigned max) { if (max == 1) return m.empty() ? DEFAULT_ID : -1; if (m.size() >= max) return -1; for (;;) { int id = (int)r.range(1, 40); if (!m.count(id)) return id; } }
    MConn* connect(int a, int b) {
        Node &A = n[a], &B = n[b]; int w = freeId(A.w, A.maxW), rd = freeId(B.r, B.maxR); if (w < 0 || rd < 0 || a == b) return NULL;
        if (!A.f->connectManyToMany(B.f, rd, w)) { vf::fail("connect", "legal connection refused"); return NULL; }
        MConn* c = new MConn; c->wf = a; c->wid = w; c->cap = A.st->queueSize; c->readers.push_back(std::make_pair(b, rd)); c->fl[b]; conns.push_back(c);
        A.w[w] = c; A.seq[w] = 0; B.r[rd] = c; B.gotN[rd] = gotCount(B, rd); return c;
    }
    bool share(MConn* c, int b) {
        Node& B = n[b]; for (auto& x : c->readers) if (x.first == b) return false;
        if (b == c->wf) return false; int rd = freeId(B.r, B.maxR); if (rd < 0) return false;
        if (!n[c->readers[0].first].f->shareReader(B.f, rd, c->readers[0].second)) { vf::fail("share", "legal sharing refused"); return false; }
        c->readers.push_back(std::make_pair(b, rd)); c->fl[b]; B.r[rd] = c; B.gotN[rd] = gotCount(B, rd); return true;
    }
    void disconnect(MConn* c) {      // both ends, in either order
        Node& A = n[c->wf]; bool first = r.chance(1, 2);
        if (first) VF_CHECK(A.f->disconnectWriter(c->wid), "disconnect", "disconnectWriter failed");
        for (auto& x : c->readers) { VF_CHECK(n[x.first].f->disconnectReader(x.second), "disconnect", "disconnectReader failed"); n[x.first].r.erase(x.second); }
        if (!first) VF_CHECK(A.f->disconnectWriter(c->wid), "disconnect", "disconnectWriter failed");
        A.w.erase(c->wid); A.seq.erase(c->wid); conns.erase(std::find(conns.begin(), conns.end(), c)); delete c;
    }
    size_t gotCount(Node& d, int rd) { if (d.kind == 'M') return ((Merge*)d.f)->got[rd].size(); if (d.kind == 'T') return ((Sink*)d.f)->got[rd].size(); return 0; }

    void checkGot(int id, const Got& g, const MF& m, const char* what) {
        bool ok = g.src == m.src && g.writer == m.w && g.n == m.n; 
        VF_CHECK(ok, "wrong-frame", "filter %d %s: got frame %u/%u/%llu, expected %u/%u/%llu", id, what, g.src, g.writer, (unsigned long long)g.n, m.src, m.w, (unsigned long long)m.n);
        if (!ok) return;
        if (m.numbered) VF_CHECK(g.seq == m.seq, "sequence", "filter %d %s: frame %u/%u/%llu carries sequence number %zu, expected %zu", id, what, g.src, g.writer, (unsigned long long)g.n, g.seq, m.seq);
        VF_CHECK(g.pts == m.pts, "pts", "filter %d %s: pts %lld, expected %lld", id, what, (long long)g.pts, (long long)m.pts);
        VF_CHECK(g.org >= m.lo && g.org <= m.hi, "origin-time", "filter %d %s: frame %u/%u/%llu carries an origin time %lld us off the expected interval", id, what, g.src, g.writer, (unsigned long long)g.n, (long long)std::chrono::duration_cast<us>(g.org < m.lo ? m.lo - g.org : g.org - m.hi).count());
    }

    void process(int id) {
        Node& d = n[id];
        // what will be made
        std::set<int>& wm = willMake[id]; wm.clear(); for (auto& x : d.w) if (r.chance(3, 4)) wm.insert(x.first); willOne[id] = r.chance(4, 5);
        if (d.kind == 'S') { ((Source*)d.f)->retUs = d.retUs = (int)r.pick({0, 0, 17, 40000}); for (auto& x : d.w) if (!ptsSet.count(std::make_pair(id, x.first))) { ptsOf[std::make_pair(id, x.first)] = r.range(0, 1000000); dtsOf[std::make_pair(id, x.first)] = r.chance(1, 2) ? -1 : (int64_t)r.range(0, 1000000); } }
        // --- prediction: inputs
        struct In { int rid; MConn* c; bool has, isNew; MF f; }; std::vector<In> ins; std::vector<int> newIds; std::vector<std::pair<int, MConn*> > pass; bool origin;
        if (!d.maxR) origin = true;
        else {
            for (auto& x : d.r) pass.push_back(x);
            if (d.sync && !pass.empty()) {
                int64_t wall = 0; bool empty = false; std::vector<std::pair<int, MConn*> > sel;
                for (auto& x : d.r) wall = std::max(wall, x.second->cur());
                for (auto& x : d.r) { if (x.second->q.empty()) { empty = true; continue; } bool lag = wall - 40000 > x.second->cur(), nf = x.second->nearly(); if (lag || nf) { sel.push_back(x); if (lag) evLagging++; else evFull++; } }
                if (empty || !sel.empty()) { if (sel.size() < d.r.size()) evHeldBack++; pass = sel; } else evAligned++;
                if (empty && sel.empty()) evMiss++;
            }
            origin = false; bool valid = false, outdated = false; int64_t outOf = -1;
            if (!pass.empty()) {
                if (d.frameTime > 0) { pass.clear(); for (auto& x : d.r) pass.push_back(x); }
                for (auto& x : pass) {
                    MConn* c = x.second; In in; in.rid = x.first; in.c = c; in.has = !c->q.empty(); in.isNew = false;
                    if (!c->held && in.has) { c->held = true; for (auto& y : c->fl) y.second = std::make_pair(true, true); }
                    if (c->held) { in.f = c->q.front(); in.isNew = c->fl[id].first; c->fl[id].first = false; }
                    ins.push_back(in); if (in.isNew) newIds.push_back(x.first);
                    if (d.frameTime > 0 && in.isNew) { int64_t t = in.f.time(); if (t > d.syncTs + d.frameTime) outOf = outOf < 0 ? t : std::min(outOf, t); else if (t < d.syncTs) outdated = true; else valid = true; }
                }
                if (!newIds.empty()) {
                    if (d.frameTime <= 0) origin = true;
                    else if (valid) { d.syncTs += d.frameTime; origin = true; evAdvance++; }
                    else { if (outOf > d.syncTs && !outdated) { d.syncTs = outOf; evJump++; } origin = !outdated; if (outdated) evOutdated++; }
                }
            }
        }
        bool dest = false, asked = d.server || origin;
        if (asked) { if (!d.maxW) dest = true; for (auto& x : d.w) { dest = true; if (x.second->full()) { x.second->q.pop_back(); x.second->lost++; evLost++; } } }
        bool runs = d.server || (origin && dest);
        // --- the real thing
        uint64_t calls0 = callsOf(d); int ret = 0; Clock::time_point t0 = Clock::now();
        std::vector<int> en = d.f->processFrame(ret);
        Clock::time_point t1 = Clock::now(); uint64_t calls = callsOf(d) - calls0;
        VF_CHECK(calls == (runs ? 1u : 0u), "ran", "filter %d (%c%s) processed %llu times in one call, expected %d (inputs ready %d, outputs ready %d)", id, d.kind, d.server ? ", server" : "", (unsigned long long)calls, runs, origin, dest);
        int expRet = runs ? (d.kind == 'S' ? d.retUs : 0) : 1000;
        VF_CHECK(ret == expRet, "wait", "filter %d (%c) asked to wait %d us, expected %d", id, d.kind, ret, expRet);
        // --- inputs as shown
        if (runs && calls == 1) {
            if (d.kind == 'M' || d.kind == 'T') {
                auto& no = d.kind == 'M' ? ((Merge*)d.f)->newOf : ((Sink*)d.f)->newOf; std::vector<int> shown = no.empty() ? std::vector<int>() : no.back(), want = newIds; std::sort(shown.begin(), shown.end()); std::sort(want.begin(), want.end());
                VF_CHECK(shown == want, "new-inputs", "filter %d (%c) got %zu new inputs, expected %zu", id, d.kind, shown.size(), want.size());
                for (auto& in : ins) {
                    auto& g = d.kind == 'M' ? ((Merge*)d.f)->got[in.rid] : ((Sink*)d.f)->got[in.rid];
                    VF_CHECK(g.size() == d.gotN[in.rid] + in.isNew, "consumed-once", "filter %d reader %d received %zu frames, expected %zu", id, in.rid, g.size(), d.gotN[in.rid] + in.isNew);
                    d.gotN[in.rid] = g.size(); if (in.isNew && !g.empty()) checkGot(id, g.back(), in.f, "consumes");
                }
            } else if (d.kind == 'R' || d.kind == 'P') { auto& g = d.kind == 'R' ? ((Relay*)d.f)->got : ((Split*)d.f)->got; if (!newIds.empty() && !g.empty()) { checkGot(id, g.back(), ins[0].f, "consumes"); lastOrg[id] = g.back(); } }
            evProc++;
        } else evIdle++;
        // --- outputs
        std::vector<int> want;
        if (runs) for (auto& x : d.w) {
            MConn* c = x.second; MF m; m.numbered = true; m.dts = -1; bool made = false; Got& lo = lastOrg[id];
            switch (d.kind) {
            case 'S': made = wm.count(x.first); if (made) { m.src = id; m.w = x.first; m.n = d.made[x.first]++; m.seq = d.seq[x.first]++; m.pts = ptsOf[std::make_pair(id, x.first)]; m.dts = dtsOf[std::make_pair(id, x.first)]; m.lo = t0; m.hi = t1; } break;
            case 'M': made = willOne[id]; if (made) { m.src = id; m.w = 1; m.n = d.made1++; m.pts = (int64_t)m.n * 40000; m.seq = d.seq[x.first]++; m.lo = t0; m.hi = t1; } break;
            case 'R': made = willOne[id]; if (made) { m = ins[0].f; m.dts = lo.dts; m.lo = m.hi = lo.org; } break;
            case 'P': made = wm.count(x.first); if (made) { m = ins[0].f; m.dts = -1; m.lo = m.hi = lo.org; } break;
            }
            if (!made) continue;
            c->q.push_back(m); evCommit++; for (auto& y : c->readers) want.push_back(y.first);
        }
        if (d.periodic) want.push_back(id);
        { auto a = en, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::string A, B; for (int v : a) A += vf::fmt(" %d", v); for (int v : b) B += vf::fmt(" %d", v);
          VF_CHECK(a == b, "runnable", "filter %d (%c) names as runnable {%s }, expected {%s }", id, d.kind, A.c_str(), B.c_str()); }
        // --- release
        for (auto& in : ins) if (in.isNew) { MConn* c = in.c; evNew++; c->fl[id].second = false; bool all = true; for (auto& y : c->fl) if (y.second.first || y.second.second) all = false; if (all) { c->q.pop_front(); c->held = false; } }
        for (auto c : conns) { auto& x = c->readers[0]; size_t real = rd(n[x.first], x.second)->getQueueElements();
            VF_CHECK(real == c->q.size(), "queue", "after processing filter %d (%c): %zu frames queued from %d/%d, expected %zu", id, d.kind, real, c->wf, c->wid, c->q.size());
            VF_CHECK(n[x.first].f->getLostBlocs(x.second) == c->lost, "lost", "after processing filter %d: %zu lost, expected %llu", id, n[x.first].f->getLostBlocs(x.second), (unsigned long long)c->lost);
            sig.add(c->q.size()); }
        if (d.frameTime > 0 && d.kind == 'M') VF_CHECK(((Merge*)d.f)->getSyncTs().count() == d.syncTs, "clock", "frame-time clock of filter %d at %lld, expected %lld", id, (long long)((Merge*)d.f)->getSyncTs().count(), (long long)d.syncTs);
        if (d.maxR) { bool p = false; for (auto& x : d.r) p |= !x.second->q.empty(); VF_CHECK(((Runnable*)d.f)->pendingJobs() == p, "pending", "filter %d reports pending work %d, expected %d", id, !p, p); }
    }
    uint64_t callsOf(Node& d) { switch (d.kind) { case 'S': return ((Source*)d.f)->ser.runs; case 'R': return ((Relay*)d.f)->ser.runs; case 'P': return ((Split*)d.f)->ser.runs; case 'M': return ((Merge*)d.f)->ser.runs; } return ((Sink*)d.f)->ser.runs; }
    std::shared_ptr<Reader> rd(Node& d, int id) { switch (d.kind) { case 'R': return ((Relay*)d.f)->getReader(id); case 'P': return ((Split*)d.f)->getReader(id); case 'M': return ((Merge*)d.f)->getReader(id); } return ((Sink*)d.f)->getReader(id); }
    std::map<int, Got> lastOrg; std::set<std::pair<int, int> > ptsSet;
    void setTime(int src, int w, int64_t pts, int64_t dts) { auto k = std::make_pair(src, w); ptsOf[k] = pts; dtsOf[k] = dts; ptsSet.insert(k); }
};
}
#endif
