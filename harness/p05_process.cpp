// P05: random graphs of real filters, processed step by step against the reference model.
#include "graph.hh"
using namespace graph;
void vf_init(vf::Ctx&) {} void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; uint64_t disc = 0, shares = 0, conn = 0; 
    { World w(r);
      unsigned k = r.range(2, 9); w.mk('S', r.chance(1, 6), r.chance(1, 2));
      for (unsigned i = 0; i < k; i++) { char kd = r.pick({'S', 'R', 'R', 'P', 'M', 'T', 'T'}); bool serverOk = kd == 'S' || kd == 'T'; w.mk(kd, serverOk && r.chance(1, 5), r.chance(1, 4)); }
      auto pick = [&] { auto it = w.n.begin(); std::advance(it, r.below(w.n.size())); return it->first; };
      unsigned steps = r.range(30, c.thorough ? 600 : 150);
      for (unsigned s = 0; s < steps && !vf::failed(); s++) {
          int op = (int)r.below(100);
          if (s < 2 * k || op < 6) { int a = pick(), b = pick(); bool fwd = w.n[a].kind == 'S' || w.n[b].kind == 'T' || a < b; if (a != b && fwd && w.n[a].kind != 'T' && w.n[b].kind != 'S' && w.connect(a, b)) conn++; }
          else if (op < 9 && !w.conns.empty()) { MConn* m = w.conns[r.below(w.conns.size())]; int b = pick(); if (b > m->wf && w.n[b].kind != 'S' && w.share(m, b)) shares++; }
          else if (op < 12 && !w.conns.empty()) { w.disconnect(w.conns[r.below(w.conns.size())]); disc++; }
          else { int id = pick(); for (unsigned q = r.range(1, 3); q && !vf::failed(); q--) w.process(id); }
      }
      vf::count("processing rounds", w.evProc); vf::count("idle rounds", w.evIdle); vf::count("frames committed", w.evCommit); vf::count("inputs consumed", w.evNew); vf::count("frames lost", w.evLost);
      vf::count("connections", conn); vf::count("shared readers", shares); vf::count("disconnections", disc); vf::distinct(w.sig.h);
      if (c.idx < 3) vf::sample(vf::fmt("case %llu: %zu filters, %llu rounds, %llu commits, %llu consumed", (unsigned long long)c.idx, w.n.size(), (unsigned long long)w.evProc, (unsigned long long)w.evCommit, (unsigned long long)w.evNew)); }
    VF_CHECK(MQueue::live() == 0, "queues", "queues left over"); MQueue::liveCount() = 0;
}
