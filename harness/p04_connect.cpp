// P04: random connect / share / disconnect / delete / process histories against a model of the
// connection graph.
#include "mini.hh"
#include <set>
#include <algorithm>
using namespace mini;

struct Conn { int wf, wid; bool writerThere; std::list<std::pair<int, int>> readers; uint64_t committed = 0; };   // readers still attached, in order
struct Node { BaseFilter* f; Steer* st; unsigned maxR, maxW; std::map<int, Conn*> w, r; char kind; };            // w/r: entries, possibly stale (other end gone)

static std::map<int, Node> nodes; static std::set<Conn*> conns;
static bool live(Conn* c) { return c->writerThere && !c->readers.empty(); }
static bool wConn(Node& n, int id) { return n.w.count(id) && live(n.w[id]); }
static bool rConn(Node& n, int id) { return n.r.count(id) && live(n.r[id]); }
static void reap(Conn* c) { if (!c->writerThere && c->readers.empty()) { conns.erase(c); delete c; } }
// the model's clean-up of an end
static void dropW(Node& n, int id) { Conn* c = n.w[id]; n.w.erase(id); c->writerThere = false; reap(c); }
static void dropR(int fid, Node& n, int id) { Conn* c = n.r[id]; n.r.erase(id); c->readers.remove(std::make_pair(fid, id)); reap(c); }

void vf_init(vf::Ctx&) { Steer::loops() = true; }
static Source* asSource(Node& n) { return n.kind == 'S' ? static_cast<Source*>(n.f) : NULL; }

static void compare(const char* op, vf::Rng& r) {
    for (auto& it : nodes) {
        Node& n = it.second;
        for (int id = 0; id <= 5; id++) {
            bool wc = n.f->isWConnected(id), rc = n.f->isRConnected(id);
            VF_CHECK(wc == wConn(n, id), "writer-state", "after %s: filter %d (%c) writer %d reports connected=%d, expected %d", op, it.first, n.kind, id, wc, wConn(n, id));
            VF_CHECK(rc == rConn(n, id), "reader-state", "after %s: filter %d (%c) reader %d reports connected=%d, expected %d", op, it.first, n.kind, id, rc, rConn(n, id));
            ConnectionData d = n.f->getWConnectionData(id);
            if (wConn(n, id)) {
                Conn* c = n.w[id]; bool same = d.wFilterId == c->wf && d.writerId == c->wid && d.readers.size() == c->readers.size();
                auto a = d.readers.begin(); auto b = c->readers.begin();
                for (; same && b != c->readers.end(); ++a, ++b) same = a->rFilterId == b->first && a->readerId == b->second;
                VF_CHECK(same, "connection-data", "after %s: connection data of filter %d writer %d: from %d/%d to %zu readers, expected %d/%d to %zu", op, it.first, id, d.wFilterId, d.writerId, d.readers.size(), c->wf, c->wid, c->readers.size());
            } else VF_CHECK(d.wFilterId == -1 && d.writerId == -1 && d.readers.empty(), "connection-data-unconnected", "after %s: unconnected writer %d of filter %d has connection data", op, id, it.first);
            int rh = n.st->rHook.count(id) ? n.st->rHook[id] : 0, wh = n.st->wHook.count(id) ? n.st->wHook[id] : 0;
            if (!n.r.count(id) || live(n.r[id])) VF_CHECK(rh == (int)n.r.count(id), "reader-hooks", "after %s: reader %d of filter %d configured %d times more than deleted, %zu there", op, id, it.first, rh, n.r.count(id));
            if (!n.w.count(id) || live(n.w[id])) VF_CHECK(wh == (int)n.w.count(id), "writer-hooks", "after %s: writer %d of filter %d configured %d times more than deleted, %zu there", op, id, it.first, wh, n.w.count(id));
        }
    }
    VF_CHECK(MQueue::live() == (long)conns.size(), "queues", "after %s: %ld queues alive, %zu have a user", op, MQueue::live(), conns.size());
    (void)r;
}

void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; vf::Hash sig;
    nodes.clear(); for (auto x : conns) delete x; conns.clear(); int nextId = 1;
    VF_CHECK(MQueue::live() == 0, "queues", "queues left over");
    auto mk = [&] {
        Node n; int k = (int)r.below(5); n.maxR = n.maxW = 0;
        switch (k) {
        case 0: { n.maxW = r.range(1, 4); auto f = new Source(n.maxW, r.chance(1, 2)); n.f = f; n.st = &f->st; n.kind = 'S'; break; }
        case 1: { auto f = new Relay(); n.maxR = n.maxW = 1; n.f = f; n.st = &f->st; n.kind = 'R'; break; }
        case 2: { n.maxW = r.range(1, 4); auto f = new Split(n.maxW); n.maxR = 1; n.f = f; n.st = &f->st; n.kind = 'P'; break; }
        case 3: { n.maxR = r.range(1, 4); auto f = new Merge(n.maxR); n.maxW = 1; n.f = f; n.st = &f->st; n.kind = 'M'; break; }
        default: { n.maxR = r.range(1, 4); auto f = new Sink(n.maxR, r.chance(1, 2)); n.f = f; n.st = &f->st; n.kind = 'T'; break; }
        }
        n.st->queueSize = r.range(3, 6);
        int id = nextId++; n.f->setId(id); nodes[id] = n; return id;
    };
    unsigned nf = r.range(2, 6); for (unsigned i = 0; i < nf; i++) mk();
    auto pickNode = [&] { auto it = nodes.begin(); std::advance(it, r.below(nodes.size())); return it->first; };
    auto cleanup = [&](int a, bool seen = true) {
            Node& A = nodes[a];
            // processing may clean up ends whose other side has gone
            std::vector<int> ids; bool hadStale = false;
            for (auto& x : A.w) if (!live(x.second)) ids.push_back(x.first);
            for (int id : ids) { hadStale = true; if (A.st->wHook[id] == 0) dropW(A, id); }
            ids.clear(); for (auto& x : A.r) if (!live(x.second)) ids.push_back(x.first);
            for (int id : ids) { hadStale = true; if (A.st->rHook[id] == 0) dropR(a, A, id); }
            if (hadStale && seen) vf::count("processed with a vanished neighbour");
    };
    unsigned steps = r.range(10, c.thorough ? 300 : 90);
    for (unsigned s = 0; s < steps && !vf::failed(); s++) {
        int op = (int)r.below(100); char what[96] = "";
        if (op < 34) {                                   // connect
            int a = pickNode(), b = pickNode(); Node &A = nodes[a], &B = nodes[b];
            int mode = (int)r.below(4), wid = (int)r.range(0, 5), rid = (int)r.range(0, 5);
            if ((mode == 0 || mode == 3) && A.maxW != 1) mode = mode == 0 ? 1 : 2;    // generated ids are random: keep them predictable
            if ((mode == 0 || mode == 1) && B.maxR != 1) mode = 2;
            if (mode == 2 && false) mode = 2;
            if (mode == 3 && A.maxW != 1) mode = 2;
            if (mode == 0) { wid = rid = DEFAULT_ID; } else if (mode == 1) rid = DEFAULT_ID; else if (mode == 3) wid = DEFAULT_ID;
            A.st->refuseQueue = r.chance(1, 12); A.st->refuseWriter = r.chance(1, 12); B.st->refuseReader = r.chance(1, 12);
            snprintf(what, sizeof what, "connect mode %d %d/%d -> %d/%d", mode, a, wid, b, rid);
            bool stale = (A.w.count(wid) && !live(A.w[wid])) || (B.r.count(rid) && !live(B.r[rid]));
            for (auto& x : A.w) stale |= !live(x.second); for (auto& x : B.r) stale |= !live(x.second);
            bool legal = a != b && A.w.size() < A.maxW && !A.w.count(wid) && B.r.size() < B.maxR && !B.r.count(rid) && !A.st->refuseQueue && !A.st->refuseWriter && !B.st->refuseReader;
            bool ok = mode == 0 ? A.f->connectOneToOne(B.f) : mode == 1 ? A.f->connectManyToOne(B.f, wid) : mode == 2 ? A.f->connectManyToMany(B.f, rid, wid) : A.f->connectOneToMany(B.f, rid);
            A.st->refuseQueue = A.st->refuseWriter = B.st->refuseReader = false;
            if (!stale) VF_CHECK(ok == legal, "connect-result", "%s (%c -> %c) returned %d, expected %d", what, A.kind, B.kind, ok, legal);
            else if (ok) VF_CHECK(!wConn(A, wid) && !rConn(B, rid) && a != b, "connect-result", "%s succeeded on a used end", what);
            if (ok) {
                if (A.w.count(wid)) dropW(A, wid);
                if (B.r.count(rid)) dropR(b, B, rid);
                Conn* cn = new Conn; cn->wf = a; cn->wid = wid; cn->writerThere = true; cn->readers.push_back({b, rid}); conns.insert(cn); A.w[wid] = cn; B.r[rid] = cn;
                vf::count("connections made");
            } else vf::count("connections refused");
        } else if (op < 50) {                            // share
            int a = pickNode(), b = pickNode(); Node &A = nodes[a], &B = nodes[b]; int org = (int)r.range(0, 5), sh = (int)r.range(0, 5);
            if (!A.r.empty() && r.chance(3, 4)) { auto it = A.r.begin(); std::advance(it, r.below(A.r.size())); org = it->first; }
            if (r.chance(1, 2)) sh = DEFAULT_ID;
            B.st->refuseReader = r.chance(1, 12);
            snprintf(what, sizeof what, "share %d/%d with %d/%d", a, org, b, sh);
            bool already = false; if (A.r.count(org)) for (auto& x : A.r[org]->readers) already |= x.first == b;
            bool stale = false; for (auto& x : B.r) stale |= !live(x.second);
            bool legal = a != b && rConn(A, org) && !B.r.count(sh) && B.r.size() < B.maxR && !already && !B.st->refuseReader;
            bool ok = A.f->shareReader(B.f, sh, org);
            if (!ok) cleanup(b, false);
            B.st->refuseReader = false;
            if (!stale) VF_CHECK(ok == legal, "share-result", "%s (%c, %c) returned %d, expected %d (sharing filter has %zu of %u readers, already sharing %d)", what, A.kind, B.kind, ok, legal, B.r.size(), B.maxR, already);
            else if (ok) VF_CHECK(rConn(A, org) && !rConn(B, sh) && a != b, "share-result", "%s succeeded on a used or unconnected end", what);
            if (ok) { if (B.r.count(sh)) dropR(b, B, sh); Conn* cn = A.r[org]; cn->readers.push_back({b, sh}); B.r[sh] = cn; vf::count("readers shared"); } else vf::count("sharings refused");
        } else if (op < 62) {
            int a = pickNode(); Node& A = nodes[a]; int wid = (int)r.range(0, 5); if (!A.w.empty() && r.chance(3, 4)) wid = A.w.begin()->first;
            snprintf(what, sizeof what, "disconnect writer %d/%d", a, wid);
            bool ok = A.f->disconnectWriter(wid); VF_CHECK(ok, "disconnect-result", "%s returned false", what);
            if (A.w.count(wid)) { dropW(A, wid); vf::count("writers disconnected"); } else vf::count("nothing to disconnect");
        } else if (op < 76) {
            int a = pickNode(); Node& A = nodes[a]; int rid = (int)r.range(0, 5); if (!A.r.empty() && r.chance(3, 4)) { auto it = A.r.begin(); std::advance(it, r.below(A.r.size())); rid = it->first; }
            snprintf(what, sizeof what, "disconnect reader %d/%d", a, rid);
            bool ok = A.f->disconnectReader(rid); VF_CHECK(ok, "disconnect-result", "%s returned false", what);
            if (A.r.count(rid)) { if (A.r[rid]->readers.size() > 1) vf::count("sharers disconnected"); dropR(a, A, rid); vf::count("readers disconnected"); }
        } else if (op < 92) {
            int a = pickNode(); Node& A = nodes[a];
            snprintf(what, sizeof what, "processing %d (%c)", a, A.kind);
            int ret = 0; A.f->processFrame(ret); vf::count("filters processed");
            cleanup(a);
        } else if (op < 96 && nodes.size() > 1) {
            int a = pickNode(); Node n = nodes[a]; snprintf(what, sizeof what, "deletion of filter %d (%c)", a, n.kind);
            while (!n.w.empty()) { int id = n.w.begin()->first; dropW(n, id); } while (!n.r.empty()) { int id = n.r.begin()->first; dropR(a, n, id); }
            nodes.erase(a); delete n.f; vf::count("filters deleted");
        } else if (nodes.size() < 8) { mk(); snprintf(what, sizeof what, "creation"); }
        compare(what, r);
        sig.add(conns.size()); for (auto& x : conns) sig.add((uint64_t)x->wf << 32 | x->wid << 16 | x->readers.size() << 1 | x->writerThere);
    }
    // data really flows over every live connection, to all sharers
    if (!vf::failed()) for (auto cn : std::vector<Conn*>(conns.begin(), conns.end())) {
        if (!conns.count(cn) || !live(cn)) continue;
        Node& A = nodes[cn->wf]; Source* src = asSource(A); if (!src) continue;
        std::vector<int> expect; int ret = 0; for (auto& x : cn->readers) expect.push_back(x.first);
        std::vector<int> got = A.f->processFrame(ret);
        cleanup(cn->wf);
        for (int e : expect) VF_CHECK(std::count(got.begin(), got.end(), e) > 0, "flow", "source %d produced on writer %d but reader filter %d was not reported runnable", cn->wf, cn->wid, e);
        for (auto& x : cn->readers) { Node& B = nodes[x.first]; VF_CHECK(((Runnable*)B.f)->pendingJobs(), "flow", "filter %d shares a queue with frames but reports no pending job", x.first); }
        vf::count("flows checked");
    }
    while (!nodes.empty() && !vf::failed()) { int a = pickNode(); Node n = nodes[a]; while (!n.w.empty()) { int id = n.w.begin()->first; dropW(n, id); } while (!n.r.empty()) { int id = n.r.begin()->first; dropR(a, n, id); } nodes.erase(a); delete n.f; if (!nodes.empty()) compare("final deletion", r); }
    if (!vf::failed()) VF_CHECK(MQueue::live() == 0, "queues", "%ld queues alive after all filters are gone", MQueue::live());
    vf::distinct(sig.h);
    if (vf::failed()) { /* leave no state behind for the next case */ nodes.clear(); MQueue::liveCount() = 0; }
    if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u filters at first, %u steps", (unsigned long long)c.idx, nf, steps));
}
