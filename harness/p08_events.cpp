// P08: events pushed to real filters, with scripted actions, against a model of the event queue.
#include "mini.hh"
#include <memory>
#include <mutex>
#include <algorithm>
using namespace mini;
typedef std::chrono::system_clock Clock;
struct Exec { int id; std::string action; int v; std::string s; };
template <class F> struct E : public F { using F::F; using BaseFilter::eventMap; };
struct Target { std::unique_ptr<BaseFilter> f; std::map<std::string, std::function<bool(Jzon::Node*)> >* map; bool immediate; char kind; };
static Target mk(char k) {
    Target t; t.kind = k; t.immediate = k == 'S' || k == 'T';
    switch (k) {
    case 'S': { auto f = new E<Source>(4, true); t.map = &f->eventMap; t.f.reset(f); break; }
    case 'R': { auto f = new E<Relay>(); t.map = &f->eventMap; t.f.reset(f); break; }
    case 'P': { auto f = new E<Split>(); t.map = &f->eventMap; t.f.reset(f); break; }
    case 'M': { auto f = new E<Merge>(); t.map = &f->eventMap; t.f.reset(f); break; }
    default: { auto f = new E<Sink>(); t.map = &f->eventMap; t.f.reset(f); break; }
    }
    t.f->setId(1); return t;
}
struct Ev { int id; Clock::time_point ts; int delay; std::string action; int v; std::string s; bool runs; };
struct Rec { std::mutex m; std::vector<Exec> log; void add(int id, const std::string& a, int v, const std::string& s) { std::lock_guard<std::mutex> g(m); log.push_back(Exec{id, a, v, s}); } };

static void install(Target& t, Rec& rec) {
    auto& m = *t.map; Rec* R = &rec;
    for (std::string a : {"alpha", "beta", "gamma"}) m[a] = [R, a](Jzon::Node* p) { if (!p) { return false; } int id = p->Get("id").ToInt(), v = p->Get("v").ToInt(); std::string s = p->Get("s").ToString(); R->add(id, a, v, s); return true; };
    m["fails"] = [R](Jzon::Node* p) { R->add(p->Get("id").ToInt(), "fails", 0, ""); return false; };
    m["noparams"] = [R](Jzon::Node* p) { R->add(-1, "noparams", p != NULL, ""); return true; };
}
// builds the event; returns whether it must be recorded
static Event build(vf::Rng& r, Ev& e, bool allowBad) {
    Jzon::Object o; e.runs = true; e.v = (int)r.range(-1000000, 1000000); e.s = vf::fmt("text%d \"q\" ", (int)r.below(100000));
    e.action = r.pick({"alpha", "beta", "gamma"});
    Jzon::Object p; p.Add("id", e.id); p.Add("v", e.v); p.Add("s", Jzon::Value(Jzon::Value::VT_STRING, e.s));
    int shape = allowBad ? (int)r.below(24) : 99; Jzon::Array arr; arr.Add(1); Jzon::Value str("x"), num(4), nul, bo(true); Jzon::Object empty;
    switch (shape) {
    case 0: e.action = "unknown"; e.runs = false; break;
    case 1: e.action = ""; e.runs = false; break;
    case 2: o.Add("action", arr); e.action = "-"; e.runs = false; break;
    case 3: o.Add("action", p); e.action = "-"; e.runs = false; break;
    case 4: o.Add("action", Jzon::Value()); e.action = "-"; e.runs = false; break;
    case 5: e.action = "-"; e.runs = false; break;                                  // no action at all
    case 6: p.Remove("v"); e.runs = false; break;
    case 7: p.Remove("v"); p.Add("v", str); e.runs = false; break;
    case 8: p.Remove("v"); p.Add("v", arr); e.runs = false; break;
    case 9: p.Remove("v"); p.Add("v", empty); e.runs = false; break;
    case 10: p.Remove("s"); p.Add("s", arr); e.runs = false; break;
    case 11: p.Remove("v"); p.Add("v", bo); e.runs = false; break;
    case 12: e.action = "fails"; break;
    default: break;
    }
    if (e.action != "-") o.Add("action", Jzon::Value(Jzon::Value::VT_STRING, e.action));
    switch (shape) {
    case 13: e.runs = false; break;                                                 // no params
    case 14: o.Add("params", arr); e.runs = false; break;
    case 15: o.Add("params", str); e.runs = false; break;
    case 16: o.Add("params", nul); e.runs = false; break;
    case 17: o.Add("params", num); e.runs = false; break;
    default: o.Add("params", p); break;
    }
    return Event(o, e.ts, e.delay);
}
static void compare(const Exec& x, const Ev& e) {
    VF_CHECK(x.id == e.id, "order", "event %d executed where %d was due", x.id, e.id);
    if (x.id == e.id && e.action != "fails") VF_CHECK(x.action == e.action && x.v == e.v && x.s == e.s, "params", "event %d executed as %s(%d,'%s'), pushed as %s(%d,'%s')", e.id, x.action.c_str(), x.v, x.s.c_str(), e.action.c_str(), e.v, e.s.c_str());
}

static void sequential(vf::Ctx& c) {
    vf::Rng& r = c.rng; Rec rec; Target t = mk(r.pick({'S', 'R', 'P', 'M', 'T'})); install(t, rec); vf::Hash sig; sig.add((uint64_t)t.kind);
    int next = 1; uint64_t ns = 0; auto base = Clock::now(); uint64_t ran = 0, bad = 0, early = 0, blocked = 0;
    auto less = [](const Ev& a, const Ev& b) { return a.ts < b.ts; }; std::vector<Ev> q; (void)base;
    unsigned steps = r.range(3, c.thorough ? 120 : 40); bool waits = r.chance(1, 4);
    for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        if (r.chance(3, 5)) {
            for (unsigned k = r.range(1, 4); k; k--) {
                Ev e; e.id = next++; int64_t off = r.chance(1, 2) ? 0 : -(int64_t)r.below(2000); e.ts = Clock::now() + std::chrono::milliseconds(off) + std::chrono::nanoseconds(++ns);
                for (bool again = true; again;) { again = false; for (auto& x : q) if (x.ts == e.ts) { e.ts += std::chrono::nanoseconds(1); again = true; } }
                int kind = (int)r.below(10); e.delay = kind < 4 ? 0 : kind < 5 ? -1 : kind < 9 ? (int)(-off) + (int)r.range(-5, waits ? 8 : 1) : (int)(-off) + (waits ? 4 : 2);
                size_t before = rec.log.size(); { Event ev = build(r, e, true); t.f->pushEvent(ev); }
                if (t.immediate) {
                    VF_CHECK(rec.log.size() == before + (e.runs ? 1 : 0), "immediate", "event %d (%s) pushed to a %c filter: %zu executions, expected %d", e.id, e.action.c_str(), t.kind, rec.log.size() - before, e.runs);
                    if (e.runs && rec.log.size() > before) { compare(rec.log.back(), e); ran++; vf::count("immediate executions"); } else bad++;
                } else { VF_CHECK(rec.log.size() == before, "on-push", "event %d executed by the push", e.id); q.insert(std::upper_bound(q.begin(), q.end(), e, less), e); }
            }
        } else if (waits && r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::milliseconds(r.range(1, 3)));
        size_t done = rec.log.size(); auto t0 = Clock::now(); int ret = 0;
        t.f->processFrame(ret);
        auto t1 = Clock::now();
        if (t.immediate) { VF_CHECK(rec.log.size() == done, "twice", "an event was executed again by processing"); continue; }
        auto due = [](const Ev& e, Clock::time_point n) { return std::chrono::duration_cast<std::chrono::milliseconds>(n - e.ts).count() >= e.delay; };
        // the executed ones are the longest due prefix at some moment between t0 and t1
        size_t must = 0, may = 0; while (must < q.size() && due(q[must], t0)) must++; while (may < q.size() && due(q[may], t1)) may++;
        size_t mustRun = 0, mayRun = 0; for (size_t i = 0; i < may; i++) { if (q[i].runs) { mayRun++; if (i < must) mustRun++; } }
        size_t got = rec.log.size() - done;
        VF_CHECK(got >= mustRun, "not-executed", "%zu events due were not executed (%zu executed, queue %zu)", mustRun - got, got, q.size());
        VF_CHECK(got <= mayRun, "early", "%zu events executed but only %zu were due", got, mayRun);
        size_t i = 0, k = done; for (; i < may && k <= rec.log.size(); i++) { if (!q[i].runs) { if (i >= must && k == rec.log.size()) break; bad++; continue; } if (k == rec.log.size()) break; compare(rec.log[k], q[i]); k++; ran++; }
        if (i < must) i = must;
        q.erase(q.begin(), q.begin() + i); if (!q.empty()) { early++; for (size_t j = 1; j < q.size(); j++) if (due(q[j], t0)) { blocked++; break; } }
        sig.add(got).add(q.size());
    }
    // everything left is executed in the end
    if (!vf::failed() && !t.immediate) {
        auto t0 = Clock::now(); size_t done = rec.log.size(), want = 0; std::vector<Ev> w; for (auto& e : q) if (e.runs) { want++; w.push_back(e); } else bad++;
        bool longDelay = false; for (auto& e : q) if (std::chrono::duration_cast<std::chrono::milliseconds>(t0 - e.ts).count() + 200 < e.delay) longDelay = true;
        if (!longDelay) { int ret; while (rec.log.size() < done + want && Clock::now() - t0 < std::chrono::seconds(5)) { t.f->processFrame(ret); if (rec.log.size() < done + want) std::this_thread::sleep_for(std::chrono::microseconds(200)); }
            t.f->processFrame(ret); VF_CHECK(rec.log.size() == done + want, "lost-event", "%zu of %zu pending events executed in the end", rec.log.size() - done, want);
            for (size_t i = 0; i < w.size() && done + i < rec.log.size(); i++) { compare(rec.log[done + i], w[i]); ran++; } }
    }
    vf::count("events executed", ran); vf::count("ill-formed events discarded", bad); vf::count("rounds with a pending event", early); vf::count("rounds with events behind a delayed one", blocked); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %c filter, %llu executed, %llu ill-formed", (unsigned long long)c.idx, t.kind, (unsigned long long)ran, (unsigned long long)bad));
}

static void concurrent(vf::Ctx& c) {
    vf::Rng& r = c.rng; Rec rec; Target t = mk(r.pick({'S', 'R', 'P', 'M', 'T'})); install(t, rec);
    unsigned nt = r.range(1, 4), per = r.range(5, 60); std::atomic<bool> stop(false); std::atomic<int> live((int)nt);
    std::vector<std::thread> th; std::vector<std::map<int, Ev> > pushed(nt);
    for (unsigned k = 0; k < nt; k++) { uint64_t sd = r.u64(); th.emplace_back([&, k, sd] { vf::Rng q(sd, k); for (unsigned i = 0; i < per; i++) { Ev e; e.id = (int)(k * 100000 + i); e.ts = Clock::now(); e.delay = q.chance(1, 4) ? (int)q.below(3) : 0; { Event ev = build(q, e, true); t.f->pushEvent(ev); } pushed[k][e.id] = e; if (q.chance(1, 5)) std::this_thread::yield(); if (q.chance(1, 20)) { Jzon::Object o; t.f->getState(o); } } live--; }); }
    std::thread pr([&] { int ret; while (!stop) { t.f->processFrame(ret); } t.f->processFrame(ret); });
    for (auto& x : th) x.join();
    std::this_thread::sleep_for(std::chrono::milliseconds(4)); stop = true; pr.join();
    std::map<int, int> n; vf::Hash sig; for (auto& x : rec.log) { n[x.id]++; sig.add((uint64_t)x.id); auto& m = pushed[x.id / 100000]; if (!m.count(x.id)) vf::fail("unknown", "event %d executed but never pushed", x.id); else compare(x, m[x.id]); }
    std::map<int, Clock::time_point> last; for (auto& m : pushed) for (auto& e : m) VF_CHECK(n[e.first] == (e.second.runs ? 1 : 0), "exactly-once", "event %d (%s) executed %d times, expected %d", e.first, e.second.action.c_str(), n[e.first], e.second.runs);
    std::map<int, int> prev; for (auto& x : rec.log) { int k = x.id / 100000; if (prev.count(k)) VF_CHECK(x.id > prev[k], "order", "event %d executed after %d of the same sender", x.id, prev[k]); prev[k] = x.id; }
    vf::count("concurrent executions", rec.log.size()); vf::distinct(sig.h);
}
void vf_case(vf::Ctx& c) { if (c.idx % 8 == 7) concurrent(c); else sequential(c); }
