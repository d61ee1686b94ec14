// P22: the real controller on a loopback socket, with the real pipeline manager behind it and hostile clients in front.
//!wrap-mutex
#include "json_ref.hh"
#include "perturb.hh"
#include <thread>
#include <unordered_map>
#include <sstream>
#include <chrono>
#include <mutex>
#include <queue>
#include <deque>
#include <condition_variable>
#include <list>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <atomic>
#include <set>
#include <map>
#include <cmath>
#include <climits>
#include <functional>
#include <memory>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/stat.h>
#define private public
#include "Controller.hh"
#undef private
using std::string; using vf::Rng;
static int fds() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
// ---- one client
static bool tight = false;      // the buffers between client and server are as small as they get
struct Client { int fd; Client(int port) { fd = socket(AF_INET, SOCK_STREAM, 0); if (tight) { int n = 1; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &n, sizeof n); } sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); if (connect(fd, (sockaddr*)&a, sizeof a)) vf::fail("connect", "the control port does not take connections"); }
    ~Client() { if (fd >= 0) close(fd); }
    void send(const string& x, Rng* pieces = NULL) { size_t i = 0; while (i < x.size()) { size_t n = pieces ? 1 + pieces->below(pieces->chance(1, 3) ? 3 : x.size()) : x.size(); if (n > x.size() - i) n = x.size() - i; ssize_t w = ::send(fd, x.data() + i, n, MSG_NOSIGNAL); if (w <= 0) return; i += w; if (pieces && i < x.size()) usleep(pieces->below(pieces->chance(1, 6) ? 8000 : 800)); } }
    bool late;      // the client itself kept the server waiting
    bool answer(string& out, bool slow = false) { out.clear(); late = false; char b[4096]; auto last = std::chrono::steady_clock::now(); for (;;) { pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, 20000) <= 0) { vf::fail("no answer", "no answer and end of connection within 20 s; so far: %s", show(out).c_str()); return false; } auto now = std::chrono::steady_clock::now(); if (!out.empty() && now - last > std::chrono::milliseconds(50)) late = true; last = now; ssize_t n = recv(fd, b, slow ? 7 : tight ? 500 : sizeof b, 0); if (n < 0) { vf::fail("reset", "the connection was reset after %zu bytes of answer", out.size()); return false; } if (n == 0) return true; out.append(b, n); if (slow && out.size() < 300) usleep(300); if (tight && out.size() % 5000 < 500) usleep(1000); } } };
// ---- what a request means
struct Verdict { bool error, state; Verdict() : error(false), state(false) {} };
static const M* get(const M& o, const string& k) { for (auto& c : o.k) if (c.first == k) return &c.second; return NULL; }
static int toInt(const M& m) { double d = strtod(m.s.c_str(), 0); return d >= INT_MAX ? INT_MAX : d <= INT_MIN ? INT_MIN : (int)d; }
static const std::set<string>& kinds() { static std::set<string> k = {"videoDecoder", "videoEncoder", "videoMixer", "videoResampler", "audioDecoder", "audioEncoder", "audioMixer", "receiver", "transmitter", "sharedMemory", "dasher", "demuxer", "videoSplitter", "v4lcapture"}; return k; }
struct MPath { int of, df; std::vector<int> mid; };
struct Model { std::map<int, string> f; std::map<int, MPath> p; bool pool, sure, alone, made; int maybe; MPath maybePath; Model() : pool(true), sure(true), alone(false), made(false), maybe(0) {}
    bool uses(int id) { for (auto& x : p) { if (x.second.of == id || x.second.df == id) return true; for (int m : x.second.mid) if (m == id) return true; } return false; }
    // 0: must be answered with an error; 1: must be accepted; 2: either; 3: a state report
    int event(const M& e) {
        if (e.t != 'o') return 0; const M* act = get(e, "action"); const M* par = get(e, "params"); const M* fid = get(e, "filterId"); if (!act || !par) return 0;
        if (fid && fid->t != 'n') { const M* del = get(e, "delay"); if (fid->t != 'd' || act->t != 's' || (del && del->t != 'd')) return 0; if (f.count(toInt(*fid))) { vf::count("events for filters"); return sure ? 1 : 2; } return sure ? 0 : 2; }
        if (act->t != 's' || par->t != 'o') return 0; if (!sure) return act->s == "getState" ? 3 : 2; const string& a = act->s; const M* id = get(*par, "id");
        if (a == "getState") return 3;
        if (a == "createFilter") { const M* ty = get(*par, "type"); if (!id || id->t != 'd' || !ty || ty->t != 's' || !kinds().count(ty->s)) return 0; int n = toInt(*id); if (n < 0 || f.count(n)) return 0; f[n] = ty->s; pool = true; vf::count("filters created"); return 1; }
        if (a == "removeFilter") { if (!id || id->t != 'd') return 0; int n = toInt(*id); if (!f.count(n) || uses(n)) return 0; f.erase(n); vf::count("filters removed"); return 1; }
        if (a == "createPath") { MPath q; const char* names[] = {"id", "orgFilterId", "dstFilterId", "orgWriterId", "dstReaderId"}; for (const char* n : names) { const M* v = get(*par, n); if (!v || v->t != 'd') return 0; } q.of = toInt(*get(*par, "orgFilterId")); q.df = toInt(*get(*par, "dstFilterId")); const M* mid = get(*par, "midFiltersIds"); if (!mid || mid->t != 'a') return 0; for (auto& v : mid->k) { if (v.second.t != 'd') return 0; q.mid.push_back(toInt(v.second)); if (!f.count(q.mid.back())) return 0; } if (!f.count(q.of) || !f.count(q.df) || p.count(toInt(*id))) return 0; maybe = toInt(*id); maybePath = q; return 2; }
        if (a == "removePath") { if (!id || id->t != 'd') return 0; auto i = p.find(toInt(*id)); if (i != p.end()) { MPath q = i->second; p.erase(i); q.mid.push_back(q.of); q.mid.push_back(q.df); for (int n : q.mid) if (!uses(n)) f.erase(n); vf::count("paths removed"); } return 1; }
        if (a == "stop") { if (!pool) return 0; pool = false; f.clear(); p.clear(); vf::count("stops"); return 1; }
        return 0; }
};
struct Case { Rng& r; vf::Ctx& c; int port; Model m; vf::Hash sig; std::atomic<bool> over{false}; std::thread server; string last; int next;
    Case(vf::Ctx& c) : r(c.rng), c(c), next(1) {}
    void start() { Controller* k = Controller::getInstance(); k->pipelineManager(); if (!k->createSocket(0)) { vf::fail("socket", "no port"); return; } if (tight) { int n = 1; setsockopt(k->listeningSocket, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); } listen(k->listeningSocket, 5); sockaddr_in a; socklen_t l = sizeof a; getsockname(k->listeningSocket, (sockaddr*)&a, &l); port = ntohs(a.sin_port);
        server = std::thread([this, k] { while (!over && k->run()) { if (!k->listenSocket()) continue; if (!k->readAndParse()) continue; k->processRequest(); } }); }
    void stop() { over = true; if (server.joinable()) server.join(); Controller::getInstance()->stopAndCloseSocket(); }
    // ---- requests
    int fid() { if (!m.f.empty() && r.chance(5, 6)) { auto i = m.f.begin(); std::advance(i, r.below(m.f.size())); return i->first; } return r.chance(1, 6) ? -1 : (int)r.range(0, 12); }
    int like(std::initializer_list<const char*> want) { std::vector<int> c; for (auto& x : m.f) for (const char* w : want) if (x.second == w) c.push_back(x.first); return c.empty() || r.chance(1, 8) ? fid() : c[r.below(c.size())]; }
    int pid() { if (!m.p.empty() && r.chance(2, 3)) { auto i = m.p.begin(); std::advance(i, r.below(m.p.size())); return i->first; } return (int)r.range(1, 6); }
    static M num(int64_t n) { return M('d', std::to_string(n)); }
    M obj(std::vector<std::pair<string, M>> k) { M o('o'); o.k = k; if (r.chance(1, 4)) for (size_t i = o.k.size(); i > 1; i--) std::swap(o.k[i - 1], o.k[r.below(i)]); return o; }
    M odd(int depth = 2) { switch (r.below(depth ? 8 : 6)) { case 0: return M('n'); case 1: return M('b', "true"); case 2: return num(r.range(-3, 12)); case 3: return M('s', r.pick({"", "zz", "getState", "createFilter", "stop", "videoMixer", "3", "\\", "\"", "\n"})); case 4: return M('d', r.pick({"1e9", "99999999999", "-1e300", "0.5", "-0", "2147483648", "1e1"})); case 5: return M('s', string(r.below(60), 'q')); case 6: { M o('o'); for (int i = r.below(4); i--;) o.k.push_back({r.pick({"id", "type", "action", "params", "x", ""}), odd(depth - 1)}); return o; } default: { M a('a'); for (int i = r.below(4); i--;) a.k.push_back({"", odd(depth - 1)}); return a; } } }
    M config() { M p('o'); static const char* keys[] = {"width", "height", "channel", "id", "x", "y", "opacity", "enabled", "volume", "codec", "bitrate", "fps", "gop", "lookahead", "bFrames", "threads", "annexb", "preset", "folder", "baseName", "segDurInSec", "minBuffTime", "maxSeg", "pixelFormat", "discartPeriod", "fTime", "sampleRate", "channels", "sampleFmt", "device", "fFormat", "forceFormat", "muted", "sync", "readerId"}; for (int i = r.below(7); i--;) p.k.push_back({keys[r.below(sizeof keys / sizeof *keys)], r.chance(1, 2) ? odd() : r.chance(1, 2) ? num(r.range(-2, 64)) : M('s', r.pick({"h264", "rgb24", "s16", "true", "zz", "fltp"}))}); return p; }
    M valid() { switch (r.below(14)) {
        case 0: case 1: case 2: { auto i = kinds().begin(); std::advance(i, r.below(kinds().size())); return obj({{"action", M('s', "createFilter")}, {"params", obj({{"id", num(r.chance(3, 4) ? next++ : fid())}, {"type", M('s', r.chance(1, 10) ? "nothing" : r.chance(1, 2) ? r.pick({"receiver", "transmitter", "audioDecoder"}) : *i)}})}}); }
        case 3: return obj({{"action", M('s', "removeFilter")}, {"params", obj({{"id", num(fid())}})}});
        case 4: case 5: { M mid('a'); if (r.chance(1, 3)) mid.k.push_back({"", num(like({"audioDecoder", "videoDecoder", "audioEncoder"}))}); return obj({{"action", M('s', "createPath")}, {"params", obj({{"id", num(r.chance(2, 3) ? next++ : pid())}, {"orgFilterId", num(like({"receiver", "demuxer"}))}, {"dstFilterId", num(like({"transmitter"}))}, {"orgWriterId", num(r.chance(3, 4) ? -1 : r.range(0, 2))}, {"dstReaderId", num(r.chance(3, 4) ? -1 : r.range(0, 2))}, {"midFiltersIds", mid}})}}); }
        case 6: return obj({{"action", M('s', "removePath")}, {"params", obj({{"id", num(pid())}})}});
        case 7: if (r.chance(1, 8)) return obj({{"action", M('s', "stop")}, {"params", M('o')}});
        case 8: case 9: return obj({{"action", M('s', "getState")}, {"params", M('o')}});
        default: { static const char* acts[] = {"configure", "configChannel", "addSession", "stop", "changeVolume", "muteChannel", "soloChannel", "mixChannel", "configAudioEncoder", "setBitrate", "setFps", "force", "forceIDR", "configChannel0", "configureLayout", "addRTSPConnection", "addSegmenter", "removeSegmenter", "addCrop", "removeCrop", "setMasterVolume", "changeMasterVolume", "muteMaster", "zz"}; M e = obj({{"action", M('s', acts[r.below(sizeof acts / sizeof *acts)])}, {"filterId", num(fid())}, {"params", r.chance(1, 5) ? odd() : config()}}); if (r.chance(1, 3)) e.k.push_back({"delay", num(r.range(0, 40))}); return e; } } }
    M request() { M ev('a'); int n = r.chance(1, 12) ? 0 : r.chance(2, 3) ? 1 : r.range(2, 5); while (n--) ev.k.push_back({"", valid()}); M o('o'); if (r.chance(1, 15)) o.k.push_back({"other", odd()}); o.k.push_back({"events", ev}); return o; }
    void spoil(M& m) { // puts something else somewhere
        M* at = &m; while (!at->k.empty() && r.chance(6, 7)) { size_t i = r.below(at->k.size()); if (r.chance(1, 7)) { at->k.erase(at->k.begin() + i); return; } if (at->t == 'o' && r.chance(1, 10)) { at->k[i].first += "x"; return; } at = &at->k[i].second; } if (at != &m || r.chance(1, 4)) *at = odd(); }
    static void text(const M& m, string& o) { switch (m.t) { case 'n': o += "null"; break; case 's': o += "\"" + Jzon::Value::EscapeString(m.s) + "\""; break; case 'o': case 'a': { o += m.t == 'o' ? "{" : "["; bool first = true; for (auto& k : m.k) { if (!first) o += ","; first = false; if (m.t == 'o') o += "\"" + k.first + "\":"; text(k.second, o); } o += m.t == 'o' ? "}" : "]"; break; } default: o += m.s; } }
    string mangled(string x) { static const char* junk[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\n", "-", "e", "1", "null", "tru", "\xff", "\x01"}; for (int n = r.range(1, 4); n--;) { size_t at = r.below(x.size() + 1); switch (r.below(4)) { case 0: if (at < x.size()) x.erase(at, r.range(1, 4)); break; case 1: x.insert(at, junk[r.below(sizeof junk / sizeof *junk)]); break; case 2: x.resize(at); break; default: if (!x.empty()) { size_t b = r.below(x.size()); x.insert(at, x.substr(b, r.range(1, 20))); } } } return x; }
    // ---- what the answer must be
    void judge(const string& x, const string& ans) {
        M a; Strict s(ans); if (!s.doc(a) || a.t != 'o') { vf::fail("answer", "the answer to %s is not one JSON object: %s", show(x).c_str(), show(ans).c_str()); return; }
        std::set<string> keys; for (auto& k : a.k) VF_CHECK(keys.insert(k.first).second, "answer keys", "the answer to %s has '%s' twice: %s", show(x).c_str(), k.first.c_str(), show(ans).c_str());
        vf::count("answers"); const M* err = get(a, "error"); VF_CHECK(!err || err->t == 'n' || err->t == 's', "error type", "error is not a text: %s", show(ans).c_str());
        string cstr = x.c_str(); bool long_ = cstr.size() > 4096 * 4 - 1; Jzon::Object root; Jzon::Parser p(root, long_ ? cstr.substr(0, 4096 * 4 - 1) : cstr); bool parsed = p.Parse(); M req('n'); if (parsed) req = read(root); const M* ev = get(req, "events");
        if (!parsed) vf::count("requests that cannot be parsed"); if (long_) vf::count("requests beyond the limit");
        if (!parsed || !ev || ev->t != 'a') { VF_CHECK(err && err->t == 's', "no error", "the impossible request %s is answered with %s", show(x).c_str(), show(ans).c_str()); return; }
        bool must = false, either = false, state = false, known = m.sure; size_t at = 0;
        for (auto& e : ev->k) { int v = m.event(e.second); at++; if (v == 0) { must = true; vf::count("events refused"); } if (v == 1) vf::count("commands accepted"); if (v == 3) { state = true; vf::count("state requests"); } if (v == 2) { either = true; vf::count("path requests");
            // whether the path could be made is seen in the manager itself; what it holds then is checked with the state
            settle(); } }
        m.alone = known && either && ev->k.size() == 1; m.made = err && err->t == 'n'; if (m.alone) VF_CHECK(err, "neither", "%s is answered with %s", show(x).c_str(), show(ans).c_str());
        if (must) VF_CHECK(err && err->t == 's', "no error", "%s is answered with %s", show(x).c_str(), show(ans).c_str());
        else if (!either) { if (err) VF_CHECK(err->t == 'n', "error", "%s is answered with %s", show(x).c_str(), show(ans).c_str()); else VF_CHECK(state, "neither", "%s is answered with neither an error nor a state: %s", show(x).c_str(), show(ans).c_str()); }
        if (state) VF_CHECK(get(a, "filters") && get(a, "paths"), "state", "%s asks for the state, the answer is %s", show(x).c_str(), show(ans).c_str()); }
    void settle() { m.sure = false; }
    void check(const char* what, bool slow = false) {   // the state, through another connection
        Client k(port); k.send("{\"events\":[{\"action\":\"getState\",\"params\":{}}]}"); string ans; if (!k.answer(ans, slow)) return; if (tight) { if (k.late) { vf::count("long answers read too slowly to judge"); return; } vf::count("long answers read in pieces"); } M a; Strict s(ans); if (!s.doc(a)) { vf::fail("state", "after %s the state is not JSON: %s", what, show(ans, 2000).c_str()); return; }
        const M* fl = get(a, "filters"); const M* pl = get(a, "paths"); if (!fl || fl->t != 'a' || !pl || pl->t != 'a') { vf::fail("state", "after %s the state is %s", what, show(ans).c_str()); return; }
        std::map<int, string> gf; std::map<int, MPath> gp; for (auto& f : fl->k) { const M* i = get(f.second, "id"); const M* t = get(f.second, "type"); if (!i || !t || !get(f.second, "role")) { vf::fail("state", "a filter without id, type or role in %s", show(ans, 1000).c_str()); return; } VF_CHECK(gf.insert({toInt(*i), t->s}).second, "state", "filter %s twice", i->s.c_str()); }
        for (auto& q : pl->k) { const M* i = get(q.second, "id"); MPath x; x.of = toInt(*get(q.second, "originFilter")); x.df = toInt(*get(q.second, "destinationFilter")); for (auto& v : get(q.second, "filters")->k) x.mid.push_back(toInt(v.second)); VF_CHECK(gp.insert({toInt(*i), x}).second, "state", "path %s twice", i->s.c_str()); }
        if (!m.sure && m.alone) {      // one path asked for: it is there if the answer said so, and nothing else has changed
            std::map<int, MPath> e = m.p; if (m.made) e[m.maybe] = m.maybePath; auto line = [](const std::map<int, MPath>& p, const std::map<int, string>& f) { string s; for (auto& x : p) { s += vf::fmt(" %d:%d>", x.first, x.second.of); for (int i : x.second.mid) s += vf::fmt("%d>", i); s += std::to_string(x.second.df); } for (auto& x : f) s += " " + std::to_string(x.first) + ":" + x.second; return s; };
            string w = line(e, m.f), g = line(gp, gf); VF_CHECK(w == g, "path answer", "asked for path %d, the answer was %s; there is%s instead of%s", m.maybe, m.made ? "that it is made" : "an error", g.c_str(), w.c_str()); vf::count(m.made ? "paths made as answered" : "paths refused without a trace"); }
        m.alone = false;
        if (!m.sure) { m.p = gp; m.f = gf; if (!gf.empty()) m.pool = true; m.sure = true; if (!gp.empty()) vf::count("paths seen"); }      // paths that could or could not be made
        string want, got; for (auto& x : m.f) want += " " + std::to_string(x.first) + ":" + x.second; for (auto& x : gf) got += " " + std::to_string(x.first) + ":" + x.second; VF_CHECK(want == got, "filters", "after %s the filters are%s instead of%s", what, got.c_str(), want.c_str());
        want = got = ""; for (auto& x : m.p) want += vf::fmt(" %d:%d>%d", x.first, x.second.of, x.second.df); for (auto& x : gp) got += vf::fmt(" %d:%d>%d", x.first, x.second.of, x.second.df); VF_CHECK(want == got, "paths", "after %s the paths are%s instead of%s", what, got.c_str(), want.c_str()); vf::count("states compared"); }
    void exchange(const string& x, bool pieces, bool half, bool slow) { if (c.verbose) fprintf(stderr, "request: %s\n", show(x, 1000).c_str()); sig.add(x.substr(0, 4000)); Client k(port); k.send(x, pieces ? &r : NULL); if (pieces) vf::count("requests in pieces"); if (half) { shutdown(k.fd, SHUT_WR); vf::count("half-closed connections"); } string ans; if (!k.answer(ans, slow)) return; if (tight && k.late) { m.sure = false; return; } judge(x, ans); }
    // Several at a time, none changing anything
    void crowd() { int n = (int)r.range(2, 5); std::vector<std::thread> t; std::vector<uint64_t> seed; for (int i = 0; i < n; i++) seed.push_back(r.u64());
        for (int i = 0; i < n; i++) t.push_back(std::thread([this, i, &seed] { Rng q(seed[i], 3); for (int j = 0; j < 3; j++) { Client k(port); int kind = q.below(6); string x = kind == 0 ? "{\"events\":[{\"action\":\"getState\",\"params\":{}}]}" : kind == 1 ? "{\"events\":[{\"action\":\"nothing\",\"params\":{}}]}" : kind == 2 ? "{\"events\":7}" : kind == 3 ? "[" : kind == 4 ? "" : "{\"events\":[]}"; if (kind == 5) { k.send("{\"ev"); close(k.fd); k.fd = -1; vf::count("clients gone"); continue; } k.send(x, q.chance(1, 3) ? &q : NULL); if (kind == 4) { vf::count("silent clients"); if (q.chance(1, 2)) continue; } string ans; if (!k.answer(ans)) return; M a; Strict s(ans); bool ok = s.doc(a) && a.t == 'o' && (kind == 0 ? get(a, "filters") != NULL : get(a, "error") && get(a, "error")->t == 's'); if (!ok) vf::fail("answer", "one of several clients sent '%s' and got %s", x.c_str(), show(ans).c_str()); vf::count("answers to simultaneous clients"); } }));
        for (auto& x : t) x.join(); }
    void vanish() { string x; M q = request(); if (r.chance(1, 2)) spoil(q); text(q, x); M probe; bool harmless = r.chance(1, 2); if (harmless) x = "{\"events\":[{\"action\":\"getState\",\"params\":{}}]}"; else x = x.substr(0, x.size() / 2); 
        { Client k(port); k.send(x); if (r.chance(1, 2)) { linger l = {1, 0}; setsockopt(k.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } } vf::count("clients gone"); }
    void flood() { string x = "{\"events\":[{\"action\":\"getState\",\"params\":{}"; int kind = r.below(3); size_t n = r.pick({16382, 16383, 16384, 16385, 20000, 60000}); if (kind == 0) { x += "}]}"; x.insert(0, string(n - x.size(), ' ')); } else if (kind == 1) { x += ",\"pad\":\"" + string(n, 'x') + "\"}]}"; } else { x.clear(); while (x.size() < n) x += r.pick({"[", "{\"a\":", "}", "1,"}); }
        exchange(x, false, r.chance(1, 2), false); }
    void fill() { for (int j = 0; j < 3; j++) { M ev('a'); for (int i = 0; i < 150; i++) ev.k.push_back({"", obj({{"action", M('s', "createFilter")}, {"params", obj({{"id", num(1000 + j * 150 + i)}, {"type", M('s', "transmitter")}})}})}); M o('o'); o.k.push_back({"events", ev}); string x; text(o, x); exchange(x, false, false, false); check("many filters"); } }
    void queue() { // a silent client holds its connection while others are served
        Client a(port); if (r.chance(1, 2)) a.send("{\"events\":[{\"action\":\"stop\",\"params\":{}}"); Client b(port); b.send("{\"events\":[{\"action\":\"getState\",\"params\":{}}]}"); string ans; if (!b.answer(ans)) return; vf::count("answers behind a silent client"); string x; if (!a.answer(x)) return; M t; Strict s(x); VF_CHECK(s.doc(t) && get(t, "error") && get(t, "error")->t == 's', "answer", "a silent client gets %s", show(x).c_str()); vf::count("silent clients"); }
};
void vf_init(vf::Ctx& c) { vf::quiet(); if (chdir(c.dir.c_str())) {} }
void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) {
    Rng& r = c.rng; perturb::salt() = r.u64(); perturb::level() = (int)r.pick({0, 0, 5}); PipelineManager::destroyInstance(); PipelineManager::getInstance((unsigned)r.range(1, 4)); int before = fds();
    tight = c.idx % 16 == 5;
    { Case k(c); k.start(); unsigned steps = tight ? 4 : (unsigned)r.range(8, 25); if (tight) k.fill();
        for (unsigned i = 0; i < steps && !vf::failed(); i++) { unsigned x = (unsigned)r.below(100); const char* what;
            if (x < 45) { string t; Case::text(k.request(), t); k.exchange(t, r.chance(1, 5), r.chance(1, 8), r.chance(1, 10)); what = "a request"; }
            else if (x < 70) { M q = k.request(); for (int n = r.range(1, 3); n--;) k.spoil(q); string t; Case::text(q, t); k.exchange(t, r.chance(1, 8), r.chance(1, 4), false); what = "an ill-typed request"; }
            else if (x < 84) { string t; Case::text(k.request(), t); k.exchange(k.mangled(t), false, r.chance(4, 5), false); what = "a garbled request"; }
            else if (x < 88) { k.vanish(); what = "a client gone"; } else if (x < 91) { k.flood(); what = "a long request"; } else if (x < 93) { k.queue(); what = "a silent client"; } else if (x < 96) { k.crowd(); what = "several clients"; }
            else { usleep(3000); what = "a while"; }
            if (!vf::failed()) k.check(what, r.chance(1, 20)); }
        k.stop(); vf::distinct(k.sig.h); }
    Controller* k = Controller::getInstance(); Controller::destroyInstance(); VF_CHECK(Controller::ctrlInstance == NULL, "instance", "the destroyed controller %p is still the instance", (void*)k); PipelineManager::destroyInstance(); perturb::level() = 0;
    int after = fds(); VF_CHECK(after <= before, "descriptors", "%d descriptors before, %d after", before, after); vf::count("controllers destroyed");
}
