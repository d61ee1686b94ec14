// P06: synchronised terminal filters and frame-time paced merging filters against the reference model.
#include "graph.hh"
using namespace graph;
void vf_init(vf::Ctx&) {} void vf_done(vf::Ctx&) {}
static void frameTimes(vf::Rng& r) {
    for (int i = 0; i < 20; i++) { MFrame f; int64_t p = r.range(0, 1 << 30), d = r.pick({(int64_t)-1, p, p + 1, p - 1, (int64_t)r.range(0, 1 << 30), (int64_t)0});
        f.setPresentationTime(us(p)); if (d != -1 || r.chance(1, 2)) f.setDecodeTime(us(d)); int64_t e = d != -1 && d <= p ? d : p;
        VF_CHECK(f.getFrameTime().count() == e, "frame-time", "frame time %lld of pts %lld dts %lld, expected %lld", (long long)f.getFrameTime().count(), (long long)p, (long long)d, (long long)e); }
}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; frameTimes(r);
    { World w(r); bool sync = r.chance(1, 2); int64_t far = r.chance(1, 2) ? 0 : (int64_t)r.below(1ull << 45);
      int target = w.mk(sync ? 'T' : 'M'); Node& T = w.n[target];
      if (sync) { T.sync = true; ((Sink*)T.f)->sync(true); }
      else { T.frameTime = r.pick({(int64_t)1, (int64_t)1000, (int64_t)20000, (int64_t)40000, (int64_t)r.range(1, 200000)}); T.f->setFrameTime(us(T.frameTime)); if (r.chance(1, 4)) { T.syncTs = far + r.range(0, 1000000); ((Merge*)T.f)->setSyncTs(us(T.syncTs)); } int s = w.mk('T'); w.connect(target, s); w.n[s].st->queueSize = 8; }
      unsigned ni = r.range(1, r.chance(1, 5) ? 16 : 5); struct S { int id, w; int64_t t, step; int jitter; bool dts; }; std::vector<S> src; int64_t base = far + r.range(0, 3000000);
      int64_t common = r.pick({(int64_t)40000, (int64_t)20000, (int64_t)21333, (int64_t)33333, (int64_t)r.range(1000, 100000)}), spread = r.pick({(int64_t)0, (int64_t)5000, (int64_t)39999, (int64_t)40001, (int64_t)100000, (int64_t)1000000});
      for (unsigned i = 0; i < ni; i++) { int s = w.mk('S'); MConn* m = w.connect(s, target); if (!m) continue; S x; x.id = s; x.w = m->wid; x.t = base + (int64_t)r.below((uint64_t)spread + 1); x.step = r.chance(2, 3) ? common : (int64_t)r.range(1000, 100000); x.jitter = (int)r.pick({0, 0, 300, 15000}); x.dts = r.chance(1, 2); src.push_back(x);
          if (sync && r.chance(1, 8)) { int t2 = w.mk('T'); if (r.chance(1, 2)) { w.n[t2].sync = true; ((Sink*)w.n[t2].f)->sync(true); } w.share(m, t2); } }
      unsigned steps = r.range(30, c.thorough ? 800 : 200); int feed = (int)r.pick({30, 50, 65, 80});
      for (unsigned s = 0; s < steps && !vf::failed(); s++) {
          if (r.chance(feed, 100) && !src.empty()) {
              S& x = r.chance(1, 2) ? src[s % src.size()] : src[r.below(src.size())];
              if (r.chance(1, 60)) x.t += r.pick({(int64_t)500000, (int64_t)-200000, (int64_t)40000, (int64_t)100}); if (x.t < 0) x.t = 0;
              // exact margins on purpose
              if (r.chance(1, 10)) { int64_t o = src[r.below(src.size())].t; x.t = std::max<int64_t>(0, o + r.pick({(int64_t)40000, (int64_t)-40000, (int64_t)40001, (int64_t)-40001, (int64_t)0, (int64_t)39999, T.frameTime, -T.frameTime})); }
              int64_t t = x.t + (x.jitter ? (int64_t)r.below(x.jitter) : 0);
              if (x.dts) w.setTime(x.id, x.w, t + r.pick({(int64_t)0, (int64_t)40000, (int64_t)-1000}) , r.chance(1, 6) ? -1 : t); else w.setTime(x.id, x.w, t, -1);
              w.process(x.id); x.t += x.step;
          } else { std::vector<int> t; for (auto& x : w.n) if (x.second.kind != 'S') t.push_back(x.first); w.process(r.chance(3, 4) ? target : r.pick(t)); }
      }
      if (sync) { vf::count("aligned rounds", w.evAligned); vf::count("lagging inputs passed", w.evLagging); vf::count("full inputs passed", w.evFull); vf::count("rounds holding inputs back", w.evHeldBack); vf::count("rounds waiting for an input", w.evMiss); }
      else { vf::count("frame-time rounds", w.evAdvance); vf::count("clock jumps", w.evJump); vf::count("outdated rounds", w.evOutdated); }
      vf::count("inputs consumed", w.evNew); vf::count("frames lost", w.evLost); vf::distinct(w.sig.h);
      if (c.idx < 3) vf::sample(vf::fmt("case %llu: %s, %u inputs, %llu rounds, %llu consumed", (unsigned long long)c.idx, sync ? "synchronised sink" : "frame-time merge", ni, (unsigned long long)w.evProc, (unsigned long long)w.evNew)); }
    VF_CHECK(MQueue::live() == 0, "queues", "queues left over"); MQueue::liveCount() = 0;
}
