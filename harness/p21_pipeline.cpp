// P21: histories of manager commands (through the JSON protocol or the methods) on the real pipeline
// manager with its pool running, compared after every step with a model of filters, paths and links.
//!wrap-mutex
#include "mini.hh"
#include "perturb.hh"
#include "PipelineManager.hh"
#include <set>
#include <algorithm>
#include <unistd.h>
using namespace mini;
typedef PipelineManager PM;

struct Conn;
struct MFilt { char kind; int maxR, maxW; std::string type; std::map<int, Conn*> r, w; };
struct Conn { int wf, wid; std::vector<std::pair<int, int> > rd; };
struct Link { int wf, wid, rf, rid; };
struct MPath { int org, dst, ow, dr; std::vector<int> mids; std::vector<Link> links; bool has(int f) const { return f == org || f == dst || std::count(mids.begin(), mids.end(), f); } };
static int anon = -1000;      // stands for ids the filters choose at random

struct Model {
    std::map<int, MFilt> f; std::map<int, MPath> p; std::vector<Conn*> cs;
    ~Model() { for (auto c : cs) delete c; }
    bool link(int wf, int wid, int rf, int rid, bool grouping, std::vector<Link>& ls) {
        MFilt &W = f[wf], &R = f[rf];
        auto done = [&]() { Link l = {wf, wid, rf, rid}; ls.push_back(l); return true; };
        if (wf != rf && !R.r.count(rid) && (int)W.w.size() < W.maxW && !W.w.count(wid) && (int)R.r.size() < R.maxR) {
            Conn* c = new Conn; c->wf = wf; c->wid = wid; c->rd.push_back(std::make_pair(rf, rid)); cs.push_back(c); W.w[wid] = c; R.r[rid] = c; return done();
        }
        if (!grouping || !W.w.count(wid)) return false;
        if (wf == rf) { vf::count("connections to itself refused"); return false; }
        Conn* c = W.w[wid]; for (auto& x : c->rd) if (x.first == rf) return false;
        if (wf != c->wf || R.r.count(rid) || (int)R.r.size() >= R.maxR) return false;
        c->rd.push_back(std::make_pair(rf, rid)); R.r[rid] = c; vf::count("writers shared by paths"); return done();
    }
    void unlink(std::vector<Link>& ls) {
        for (auto l = ls.rbegin(); l != ls.rend(); ++l) {
            Conn* c = f[l->rf].r[l->rid]; f[l->rf].r.erase(l->rid); c->rd.erase(std::find(c->rd.begin(), c->rd.end(), std::make_pair(l->rf, l->rid)));
            if (c->rd.empty()) { f[c->wf].w.erase(c->wid); cs.erase(std::find(cs.begin(), cs.end(), c)); delete c; }
        }
        ls.clear();
    }
    int genR(int x) { return f[x].maxR == 1 ? DEFAULT_ID : anon--; }
    int genW(int x) { return f[x].maxW == 1 ? DEFAULT_ID : anon--; }
    bool canCreate(int id, const MPath& q) {
        if (p.count(id) || !f.count(q.org) || !f.count(q.dst)) return false;
        std::set<int> u; for (int m : q.mids) { if (!f.count(m) || m == q.org || m == q.dst || !u.insert(m).second) return false; }
        return true;
    }
    bool connect(MPath& q) {
        if (!q.links.empty()) return false;
        std::vector<Link> ls; bool ok = true;
        if (q.mids.empty()) ok = link(q.org, q.ow, q.dst, q.dr, true, ls);
        else {
            ok = link(q.org, q.ow, q.mids[0], genR(q.mids[0]), true, ls);
            for (size_t i = 0; ok && i + 1 < q.mids.size(); i++) ok = link(q.mids[i], genW(q.mids[i]), q.mids[i + 1], genR(q.mids[i + 1]), false, ls);
            if (ok) ok = link(q.mids.back(), genW(q.mids.back()), q.dst, q.dr, false, ls);
        }
        if (!ok) { if (!ls.empty()) vf::count("half-made connections undone"); unlink(ls); } else q.links = ls;
        return ok;
    }
    bool used(int x) { for (auto& q : p) if (q.second.has(x)) return true; return false; }
    void drop(int id) {
        MPath q = p[id]; unlink(q.links); p.erase(id);
        std::set<int> c(q.mids.begin(), q.mids.end()); c.insert(q.org); c.insert(q.dst);
        for (int x : c) { if (!used(x)) f.erase(x); else if (x != q.org && x != q.dst) vf::count("intermediate filters kept for another path"); else vf::count("ends kept for another path"); }
    }
    // filters that process frames over and over, hence the readers that must keep getting frames
    std::set<int> active() {
        std::set<int> a; for (bool more = true; more;) {
            more = false;
            for (auto& x : f) {
                if (a.count(x.first)) continue; MFilt& m = x.second;
                if (m.maxW && m.w.empty()) continue;
                bool fed = !m.maxR; for (auto& r : m.r) if (a.count(r.second->wf)) fed = true;
                if (fed) { a.insert(x.first); more = true; }
            }
        }
        return a;
    }
    std::string show() { std::string s; for (auto& x : f) { s += vf::fmt("%d%c[r", x.first, x.second.kind); for (auto& r : x.second.r) s += vf::fmt(" %d", r.first); s += " w"; for (auto& r : x.second.w) s += vf::fmt(" %d", r.first); s += "] "; } for (auto& q : p) s += vf::fmt("path%d:%d/%d->%zu->%d/%d%s ", q.first, q.second.org, q.second.ow, q.second.mids.size(), q.second.dst, q.second.dr, q.second.links.empty() ? "(unconnected)" : ""); return s; }
};

struct Case {
    vf::Rng& r; Model m; PM* pm; int down; vf::Hash sig;
    Case(vf::Rng& r) : r(r), pm(PM::getInstance()), down(0) {}
    void send(Jzon::Object& out, const std::string& action, Jzon::Object& params, int filter = -1) {
        Jzon::Object ev; ev.Add("action", action); ev.Add("params", params); if (filter >= 0) ev.Add("filterId", filter); pm->processEvent(ev, out);
    }
    bool cmd(const std::string& action, Jzon::Object& params, int filter = -1) {
        Jzon::Object o; send(o, action, params, filter);
        if (!o.Has("error")) { vf::fail("no-answer", "%s was not answered", action.c_str()); return false; }
        return o.Get("error").IsNull();
    }
    int fid() { if (!m.f.empty() && r.chance(5, 6)) { auto it = m.f.begin(); std::advance(it, r.below(m.f.size())); return it->first; } return (int)r.range(-1, 12); }
    int pid() { if (!m.p.empty() && r.chance(4, 5)) { auto it = m.p.begin(); std::advance(it, r.below(m.p.size())); return it->first; } return (int)r.range(0, 8); }

    void createFilter() {
        int id = (int)r.range(r.chance(1, 20) ? -3 : 0, 12); MFilt n; n.maxR = n.maxW = 0; bool ok = id >= 0 && !m.f.count(id), got;
        if (r.chance(1, 12)) { Jzon::Object p; p.Add("id", id); p.Add("type", r.pick({"nothing", "", "videoEncodr"})); got = cmd("createFilter", p); VF_CHECK(!got, "accepted", "a filter of unknown type was created"); vf::count("commands refused"); return; }
        unsigned k = (unsigned)r.below(9); BaseFilter* add = NULL;
        switch (k) {
        case 0: case 1: n.kind = 'S'; n.maxW = 16; n.type = k ? "receiver" : "demuxer"; break;
        case 2: case 3: n.kind = 'T'; n.maxR = 16; n.type = "transmitter"; break;
        case 4: n.kind = 'R'; n.maxR = n.maxW = 1; n.type = "videoDecoder"; break;
        case 5: n.kind = 'R'; n.maxR = n.maxW = 1; n.type = r.chance(1, 2) ? "audioDecoder" : "audioEncoder"; break;
        case 6: n.kind = 'M'; n.maxR = (int)r.range(1, 3); n.maxW = 1; n.type = "videoMixer"; add = new Merge(n.maxR); break;
        case 7: n.kind = 'P'; n.maxR = 1; n.maxW = (int)r.range(1, 3); n.type = "videoSplitter"; add = new Split(n.maxW); break;
        default: n.kind = 'T'; n.maxR = (int)r.range(1, 2); n.type = "transmitter"; { Sink* s = new Sink(n.maxR, r.chance(1, 2)); s->maxLog = 16; s->talk = r.chance(1, 2); add = s; } break;
        }
        if (add) { got = pm->addFilter(id, add); if (!got) delete add; }
        else { Jzon::Object p; p.Add("id", id); p.Add("type", n.type); got = cmd("createFilter", p); }
        VF_CHECK(got == ok, got ? "accepted" : "refused", "creating filter %d (%s): %s, expected %s; %s", id, n.type.c_str(), got ? "done" : "refused", ok ? "done" : "refused", m.show().c_str());
        if (ok) { m.f[id] = n; vf::count("filters created"); } else vf::count("commands refused");
    }
    // would copies of a frame go round for ever (no mixer in the loop)?
    bool loops(const MPath& q) {
        std::map<int, std::set<int> > to; for (auto c : m.cs) for (auto& x : c->rd) to[c->wf].insert(x.first);
        for (auto& p : m.p) if (p.second.links.empty()) hops(p.second, to);
        hops(q, to);
        for (auto& x : m.f) { std::set<int> seen; std::vector<int> st(1, x.first); while (!st.empty()) { int v = st.back(); st.pop_back(); if (m.f.count(v) && m.f[v].kind == 'M') continue; for (int n : to[v]) { if (n == x.first) return true; if (seen.insert(n).second) st.push_back(n); } } }
        return false;
    }
    void hops(const MPath& q, std::map<int, std::set<int> >& to) { int at = q.org; for (int x : q.mids) { to[at].insert(x); at = x; } if (at != q.dst) to[at].insert(q.dst); }
    // a path that is likely to be possible: free filters in between, now and then an origin writer already in use
    void sensible(int& id, MPath& q) {
        std::vector<int> o, d, mid; for (auto& x : m.f) { MFilt& y = x.second; if ((int)y.w.size() < y.maxW || (y.maxW && r.chance(1, 2))) o.push_back(x.first); if ((int)y.r.size() < y.maxR) { d.push_back(x.first); if ((int)y.w.size() < y.maxW && !m.used(x.first)) mid.push_back(x.first); } }
        if (o.empty() || d.empty()) return;
        q.org = r.pick(o); q.dst = r.pick(d); q.ow = q.dr = -1; MFilt& y = m.f[q.org];
        if (!y.w.empty() && r.chance(1, 2)) { auto it = y.w.begin(); std::advance(it, r.below(y.w.size())); if (it->first >= 0) q.ow = it->first; }
        for (id = 0; m.p.count(id);) id++;
        q.mids.clear(); for (unsigned k = (unsigned)r.below(4); k && !mid.empty(); k--) { int x = r.pick(mid); if (x != q.org && x != q.dst && !std::count(q.mids.begin(), q.mids.end(), x)) q.mids.push_back(x); }
    }
    void createPath() {
        int id = r.chance(1, 8) ? pid() : (int)r.range(0, 8); MPath q; q.org = fid(); q.dst = fid();
        // prefer sensible ends
        for (int t = 0; t < 6 && m.f.count(q.org) && !m.f[q.org].maxW; t++) q.org = fid();
        for (int t = 0; t < 6 && m.f.count(q.dst) && (!m.f[q.dst].maxR || q.dst == q.org); t++) q.dst = fid();
        q.ow = (int)r.pick({-1, -1, 1, 2, 3, (int)r.range(0, 20)}); q.dr = (int)r.pick({-1, -1, 1, 2, 3, (int)r.range(0, 20)});
        for (unsigned k = (unsigned)r.pick({0, 0, 1, 1, 2, 3}); k; k--) { int x = fid(); if (r.chance(4, 5)) for (int t = 0; t < 5 && m.f.count(x) && (x == q.org || x == q.dst || !m.f[x].maxR || !m.f[x].maxW || std::count(q.mids.begin(), q.mids.end(), x)); t++) x = fid(); if (r.chance(4, 5) && m.f.count(x) && (x == q.org || x == q.dst || !m.f[x].maxR || !m.f[x].maxW || std::count(q.mids.begin(), q.mids.end(), x))) continue; q.mids.push_back(x); }
        if (r.chance(1, 2)) sensible(id, q);
        if (loops(q)) return;
        bool can = m.canCreate(id, q); MPath w = q;
        if (can) { if (q.ow < 0) w.ow = m.genW(q.org); if (q.dr < 0) w.dr = m.genR(q.dst); }
        bool apart = r.chance(1, 5);      // with the methods, in two steps
        if (apart) {
            bool got = pm->createPath(id, q.org, q.dst, q.ow, q.dr, q.mids);
            VF_CHECK(got == can, got ? "accepted" : "refused", "registering path %d %d/%d->%zu->%d/%d: %s; %s", id, q.org, q.ow, q.mids.size(), q.dst, q.dr, got ? "done" : "refused", m.show().c_str());
            if (can) { m.p[id] = w; vf::count("paths registered apart"); } else { vf::count("commands refused"); return; }
            adopt(id); check("registering a path"); if (r.chance(1, 3) || vf::failed()) return;
            connect(id); return;
        }
        bool ok = can; if (can) { ok = m.connect(w); }
        Jzon::Object p; Jzon::Array a; for (int x : q.mids) a.Add(x); p.Add("id", id); p.Add("orgFilterId", q.org); p.Add("dstFilterId", q.dst); p.Add("orgWriterId", q.ow); p.Add("dstReaderId", q.dr); p.Add("midFiltersIds", a);
        bool got = cmd("createPath", p);
        VF_CHECK(got == ok, got ? "accepted" : "refused", "creating path %d %d/%d->%zu->%d/%d: %s, expected %s; %s", id, q.org, q.ow, q.mids.size(), q.dst, q.dr, got ? "done" : "refused", ok ? "done" : "refused", m.show().c_str());
        if (ok) { m.p[id] = w; adopt(id); vf::count("paths created"); if (q.mids.size() > 1) vf::count("paths of several hops"); } else { vf::count("commands refused"); if (can) vf::count("paths that cannot be connected"); }
    }
    void connect(int id) {
        bool ok = m.p.count(id) && m.connect(m.p[id]), got = pm->connectPath(id);
        VF_CHECK(got == ok, got ? "accepted" : "refused", "connecting path %d: %s, expected %s; %s", id, got ? "done" : "refused", ok ? "done" : "refused", m.show().c_str());
        vf::count(ok ? "paths connected apart" : "commands refused");
    }
    // the ids the manager chose take the place of the anonymous ones
    void adopt(int id) {
        Path* p = pm->getPath(id); if (!p) { vf::fail("missing", "path %d is not there", id); return; }
        MPath& q = m.p[id]; rename(q, q.ow, p->getOrgWriterID(), true); rename(q, q.dr, p->getDstReaderID(), false);
    }
    void rename(MPath& q, int& v, int now, bool writer) {
        if (v >= -999) return;
        for (auto& l : q.links) { if (writer && l.wf == q.org && l.wid == v) l.wid = now; if (!writer && l.rf == q.dst && l.rid == v) l.rid = now; }
        MFilt& f = m.f[writer ? q.org : q.dst]; auto& mp = writer ? f.w : f.r;
        if (mp.count(v)) { Conn* c = mp[v]; mp.erase(v); VF_CHECK(!mp.count(now), "id-clash", "the id chosen for a new end is already in use"); mp[now] = c; if (writer) c->wid = now; else for (auto& x : c->rd) if (x.first == q.dst && x.second == v) x.second = now; }
        v = now;
    }
    void removePath() {
        int id = pid(); bool known = m.p.count(id), got;
        if (r.chance(1, 5)) got = pm->removePath(id); else { Jzon::Object p; p.Add("id", id); got = cmd("removePath", p); }
        VF_CHECK(got, "refused", "removing path %d was refused; %s", id, m.show().c_str());
        if (known) { if (m.p[id].links.empty()) vf::count("unconnected paths removed"); m.drop(id); vf::count("paths removed"); }
    }
    void removeFilter() {
        int id = fid(); bool ok = m.f.count(id) && !m.used(id), got; if (ok && r.chance(2, 3)) return;
        if (r.chance(1, 5)) got = pm->removeFilter(id); else { Jzon::Object p; p.Add("id", id); got = cmd("removeFilter", p); }
        VF_CHECK(got == ok, got ? "accepted" : "refused", "removing filter %d: %s, expected %s; %s", id, got ? "done" : "refused", ok ? "done" : "refused", m.show().c_str());
        if (ok) { m.f.erase(id); vf::count("filters removed"); } else vf::count(m.f.count(id) ? "removals of filters in use refused" : "commands refused");
    }
    void stop() {
        Jzon::Object p; bool got = r.chance(1, 2) ? pm->stop() : cmd("stop", p);
        VF_CHECK(got == !down, got ? "accepted" : "refused", "stopping was %s", got ? "done" : "refused");
        while (!m.p.empty()) m.drop(m.p.begin()->first);
        m.f.clear(); down = 1; vf::count("stops"); 
        VF_CHECK(MQueue::live() == 0 && Serial::live() == 0, "left-behind", "after stopping, %ld queues and %ld filters are left", MQueue::live(), Serial::live());
    }
    void poke() { int id = fid(); Jzon::Object p; p.Add("v", (int)r.range(0, 99)); if (id < 0) return; bool got = cmd("poke", p, id); VF_CHECK(got == (m.f.count(id) > 0), "event", "an event for filter %d was %s", id, got ? "taken" : "refused"); vf::count("events for filters"); }

    // ---- what the manager reports
    std::map<std::pair<int, int>, int> taken;
    bool state(Jzon::Object& out) { Jzon::Object p; out.Clear(); send(out, "getState", p); if (!out.Has("filters") || !out.Has("paths")) { vf::fail("state", "no state"); return false; } return true; }
    // what the readers along each path have measured: losses only grow; a delay that is the same before and after was that in between
    struct Stat { int64_t lost, midLost, age; bool known; Stat() : lost(0), midLost(0), age(0), known(true) {} };
    std::map<int, Stat> stats() {
        std::map<int, Stat> v; for (auto& x : m.p) { MPath& q = x.second; Stat& s = v[x.first]; BaseFilter* d = pm->getFilter(q.dst); if (!d) continue; s.age = d->getAvgReaderDelay(q.dr).count();
            std::vector<int> hops(1, q.org); hops.insert(hops.end(), q.mids.begin(), q.mids.end()); hops.push_back(q.dst); Path* p = pm->getPath(x.first); if (q.links.empty() || !p) continue;
            for (size_t i = 0; i + 1 < hops.size(); i++) { BaseFilter *w = pm->getFilter(hops[i]), *r = pm->getFilter(hops[i + 1]); if (!w || !r) continue; ConnectionData c; if (i + 2 == hops.size()) { s.lost += (int64_t)r->getLostBlocs(q.dr); continue; } 
                int rid = -1, wid = i ? DEFAULT_ID : q.ow; if (m.f[hops[i + 1]].maxR == 1) rid = DEFAULT_ID; else if (i && m.f[hops[i]].maxW > 1) { s.known = false; break; } else { c = w->getWConnectionData(wid); for (auto& y : c.readers) if (y.rFilterId == hops[i + 1]) rid = y.readerId; }
                int64_t n = (int64_t)r->getLostBlocs(rid); s.lost += n; s.midLost += n; }
        }
        return v;
    }
    void check(const char* after) {
        auto stats0 = stats(); Jzon::Object o; if (!state(o)) return; auto stats1 = stats();
        std::set<int> seen; auto& fs = o.Get("filters").AsArray();
        taken.clear();
        for (auto it = fs.begin(); it != fs.end(); ++it) {
            int id = (*it).Get("id").ToInt(); if (!m.f.count(id) || !seen.insert(id).second) { vf::fail("filters", "after %s, filter %d is reported; %s", after, id, m.show().c_str()); return; }
            MFilt& f = m.f[id]; VF_CHECK((*it).Get("type").ToString() == f.type, "type", "filter %d is reported as %s", id, (*it).Get("type").ToString().c_str());
            VF_CHECK(pm->getFilter(id) != NULL, "filters", "filter %d is reported but not there", id);
            auto& rs = (*it).Get("readers").AsArray(); auto& ws = (*it).Get("writers").AsArray(); auto& tk = (*it).Get("taken").AsArray();
            std::set<int> ra, wa; for (size_t i = 0; i < rs.GetCount(); i++) { ra.insert(rs.Get(i).ToInt()); taken[std::make_pair(id, rs.Get(i).ToInt())] = tk.Get(i).ToInt(); } for (size_t i = 0; i < ws.GetCount(); i++) wa.insert(ws.Get(i).ToInt());
            bool same = ra.size() == f.r.size() && wa.size() == f.w.size(); for (auto& x : f.r) if (x.first >= -999 && !ra.count(x.first)) same = false; for (auto& x : f.w) if (x.first >= -999 && !wa.count(x.first)) same = false;
            VF_CHECK(same, "ends", "after %s, filter %d has %zu readers and %zu writers connected, expected %zu and %zu; %s", after, id, ra.size(), wa.size(), f.r.size(), f.w.size(), m.show().c_str());
            VF_CHECK((*it).Get("role").ToString() == "regular", "role", "filter %d is reported in role %s", id, (*it).Get("role").ToString().c_str());
        }
        VF_CHECK(seen.size() == m.f.size(), "filters", "after %s, %zu filters are reported, expected %zu; %s", after, seen.size(), m.f.size(), m.show().c_str());
        seen.clear(); auto& ps = o.Get("paths").AsArray();
        for (auto it = ps.begin(); it != ps.end(); ++it) {
            int id = (*it).Get("id").ToInt(); if (!m.p.count(id) || !seen.insert(id).second) { vf::fail("paths", "after %s, path %d is reported; %s", after, id, m.show().c_str()); return; }
            MPath& q = m.p[id]; bool same = (*it).Get("originFilter").ToInt() == q.org && (*it).Get("destinationFilter").ToInt() == q.dst && (*it).Get("originWriter").ToInt() == q.ow && (*it).Get("destinationReader").ToInt() == q.dr;
            auto& ms = (*it).Get("filters").AsArray(); same = same && ms.GetCount() == q.mids.size(); for (size_t i = 0; same && i < q.mids.size(); i++) same = ms.Get(i).ToInt() == q.mids[i];
            VF_CHECK(same, "path", "after %s, path %d is reported as %d/%d -> %zu -> %d/%d; %s", after, id, (*it).Get("originFilter").ToInt(), (*it).Get("originWriter").ToInt(), ms.GetCount(), (*it).Get("destinationFilter").ToInt(), (*it).Get("destinationReader").ToInt(), m.show().c_str());
            VF_CHECK((*it).Has("avgDelay") && (*it).Has("lostBlocs") && (*it).Get("lostBlocs").ToInt() >= 0, "path", "path %d is reported without its delay and losses", id);
            int64_t lost = (*it).Get("lostBlocs").ToInt(), age = (*it).Get("avgDelay").ToInt(); Stat &a = stats0[id], &b = stats1[id];
            VF_CHECK(!a.known || !b.known || (lost >= a.lost && lost <= b.lost), "losses", "after %s, path %d is reported with %lld frames lost, its %zu hops lost %lld before and %lld after; %s", after, id, (long long)lost, q.mids.size() + 1, (long long)a.lost, (long long)b.lost, m.show().c_str());
            if (b.lost) vf::count("paths with losses"); if (a.known && a.midLost) vf::count("paths with losses on the way");
            if (a.age == b.age) { VF_CHECK(age == a.age, "delay", "after %s, path %d is reported with a delay of %lld us, its destination measured %lld; %s", after, id, (long long)age, (long long)a.age, m.show().c_str()); if (a.age > 0) vf::count("paths with a delay"); }
            if (q.links.empty()) continue;
            // along the path, every filter reads from the one before it
            std::vector<int> hops(1, q.org); hops.insert(hops.end(), q.mids.begin(), q.mids.end()); hops.push_back(q.dst);
            for (size_t i = 0; i + 1 < hops.size(); i++) {
                if (q.links[i].wid < -999) continue;
                ConnectionData c = pm->getFilter(hops[i])->getWConnectionData(q.links[i].wid); bool found = false;
                for (auto& x : c.readers) if (x.rFilterId == hops[i + 1]) { found = pm->getFilter(hops[i + 1])->isRConnected(x.readerId); if (i + 2 == hops.size()) found = found && x.readerId == q.dr; }
                VF_CHECK(found, "unconnected", "after %s, filter %d of path %d does not read from filter %d; %s", after, hops[i + 1], id, hops[i], m.show().c_str());
            }
        }
        VF_CHECK(seen.size() == m.p.size(), "paths", "after %s, %zu paths are reported, expected %zu; %s", after, seen.size(), m.p.size(), m.show().c_str());
        VF_CHECK(pm->getFilters().size() == m.f.size() && pm->getPaths().size() == m.p.size(), "reported", "the lists of filters and paths differ from the state");
        VF_CHECK(MQueue::live() == (long)m.cs.size(), "queues", "after %s, %ld queues are alive, expected %zu; %s", after, MQueue::live(), m.cs.size(), m.show().c_str());
        VF_CHECK(Serial::live() == (long)m.f.size(), "objects", "after %s, %ld filters are alive, expected %zu", after, Serial::live(), m.f.size());
        vf::count("states compared"); for (auto& x : m.f) sig.add((uint64_t)x.first * 64 + x.second.r.size() * 8 + x.second.w.size()); sig.add(m.p.size());
    }
    void flow() {
        std::set<int> act = m.active(); std::set<std::pair<int, int> > want; size_t n = 0;
        for (auto& q : m.p) if (!q.second.links.empty() && act.count(q.second.org) && act.count(q.second.dst)) { want.insert(std::make_pair(q.second.dst, q.second.dr)); n++; }
        if (want.empty()) return;
        Jzon::Object o; check("a while"); auto before = taken;
        for (int t = 0; t < 6000 && !want.empty() && !vf::failed(); t++) {
            usleep(t < 20 ? 1000 : 5000); if (!state(o)) return;
            auto& fs = o.Get("filters").AsArray();
            for (auto it = fs.begin(); it != fs.end(); ++it) { int id = (*it).Get("id").ToInt(); auto& rs = (*it).Get("readers").AsArray(); auto& tk = (*it).Get("taken").AsArray(); for (size_t i = 0; i < rs.GetCount(); i++) { auto k = std::make_pair(id, rs.Get(i).ToInt()); if (tk.Get(i).ToInt() > before[k]) want.erase(k); } }
        }
        if (!vf::failed()) for (auto& w : want) { vf::fail("stalled", "nothing reaches reader %d of filter %d any more; %s", w.second, w.first, m.show().c_str()); break; }
        vf::count("paths seen working", n);
    }
};

void vf_init(vf::Ctx& c) { vf::quiet(); }
void vf_done(vf::Ctx& c) {}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; perturb::salt() = r.u64(); perturb::level() = (int)r.pick({0, 0, 5, 20}); uint64_t d0 = perturb::delays();
    PM::destroyInstance(); PM::getInstance((unsigned)r.range(1, 6));
    {
        Case k(r); unsigned steps = (unsigned)r.range(6, 40), weight = (unsigned)r.below(3);
        for (unsigned i = 0; i < steps && !vf::failed(); i++) {
            unsigned x = (unsigned)r.below(100); const char* what;
            if (x < (weight ? 30u : 20u) || (k.m.f.size() < 3 && r.chance(2, 3))) { k.createFilter(); k.down = k.m.f.empty() ? k.down : 0; what = "creating a filter"; }
            else if (x < 70) { k.createPath(); what = "creating a path"; }
            else if (x < 82) { k.removePath(); what = "removing a path"; }
            else if (x < 86) { k.removeFilter(); what = "removing a filter"; }
            else if (x < 94) { k.poke(); what = "an event"; }
            else if (x < 96) { k.connect(k.pid()); what = "connecting a path"; }
            else if (x < 97 && r.chance(1, 3)) { k.stop(); what = "stopping"; }
            else { k.flow(); what = "a while"; }
            if (c.verbose) fprintf(stderr, "%s: %s\n", what, k.m.show().c_str());
            if (!vf::failed()) k.check(what);
        }
        if (!vf::failed()) k.flow();
        vf::distinct(k.sig.h);
        if (r.chance(1, 2) && !vf::failed()) { k.stop(); if (!vf::failed()) k.check("stopping"); }
    }
    perturb::level() = 0; vf::count("events sent by filters", Sink::saidTotal().exchange(0));
    PM::destroyInstance();
    VF_CHECK(MQueue::live() == 0 && Serial::live() == 0, "left-behind", "after destroying the manager, %ld queues and %ld filters are left", MQueue::live(), Serial::live());
    vf::count("injected delays", perturb::delays() - d0);
}
