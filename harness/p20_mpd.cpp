// P20: random histories of manifest updates against a model, the document written after any of
// them read back with an XML parser.
#include "vf.hh"
#include "modules/dasher/MpdManager.hh"
#include <algorithm>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <dirent.h>
struct MRep { std::string codec; int w, h, rate, ch, bw; };
struct MSet { bool video; int scale, fps; std::string media, init; std::vector<std::pair<uint64_t, uint64_t>> line; std::map<std::string, MRep> reps; int everW, everH; };
typedef std::map<std::string, std::string> Attrs;
static Attrs attrs(const tinyxml2::XMLElement* e) { Attrs m; for (auto* a = e->FirstAttribute(); a; a = a->Next()) m[a->Name()] = a->Value(); return m; }
static unsigned elements(const tinyxml2::XMLElement* e) { unsigned n = 0; for (auto* c = e->FirstChildElement(); c; c = c->NextSiblingElement()) n++; return n; }
struct World {
    vf::Ctx& c; vf::Rng& r; MpdManager m; std::map<std::string, MSet> sets; unsigned window = 2, minBuf = 0, dur = 0; bool configured = false; std::string avail; vf::Hash sig; std::string file;
    World(vf::Ctx& cc) : c(cc), r(cc.rng) { file = c.dir + "/m.mpd"; }
    std::string text() { static const char* A[] = { "a", "Z", "0", "9", "_", "-", ".", "$", "/", " ", "&", "<", ">", "\"", "'", "\xC3\xA9", "\xE2\x82\xAC", ";", "%", "]]>" , "&amp;", "$Time$" }; std::string s = r.chance(1, 2) ? "x" : ""; unsigned n = (unsigned)r.below(12); for (unsigned i = 0; i < n; i++) s += A[r.below(sizeof A / sizeof *A)]; return s; }
    std::string id() { return r.chance(1, 12) ? text() : std::to_string(r.below(4)); }
    void configure() { unsigned mb = (unsigned)r.below(40), mx = (unsigned)r.below(10); dur = (unsigned)r.range(1, 10); m.configure(mb, mx, dur); window = std::max(2u, mx); minBuf = std::min(window * dur, std::max(mb, 2 * dur)); configured = true; VF_CHECK(m.getMaxSeg() == window && m.getMinBuffTime() == minBuf, "configure", "window %u, buffer %u; %u and %u were due", m.getMaxSeg(), m.getMinBuffTime(), window, minBuf); vf::count("configurations"); }
    void check() {
        if (!configured) return; bool fault = r.chance(1, 12); struct stat before; bool had = stat(file.c_str(), &before) == 0;
        if (fault && had) { std::string old; { FILE* f = fopen(file.c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) old.append(b, n); fclose(f); } struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); rlim_t keep = l.rlim_cur; l.rlim_cur = r.below(old.size() < 400 ? 1 : 300); setrlimit(RLIMIT_FSIZE, &l); bool ok = m.writeToDisk(file.c_str()); l.rlim_cur = keep; setrlimit(RLIMIT_FSIZE, &l); std::string now; { FILE* f = fopen(file.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) now.append(b, n); fclose(f); } } VF_CHECK(!ok, "fault", "a manifest that could not be written was reported as written"); VF_CHECK(now == old, "fault", "a failed write replaced the manifest"); vf::count("failed writes"); return; }
        if (r.chance(1, 30)) { VF_CHECK(!m.writeToDisk((c.dir + "/none/m.mpd").c_str()), "fault", "writing to a folder that does not exist succeeded"); }
        if (!m.writeToDisk(file.c_str())) { vf::fail("write", "the manifest was not written"); return; } tinyxml2::XMLDocument d; if (d.LoadFile(file.c_str()) != tinyxml2::XML_SUCCESS) { vf::fail("malformed", "the manifest is not XML"); return; } vf::count("manifests read back");
        const tinyxml2::XMLElement* root = d.RootElement(); if (!root || strcmp(root->Name(), "MPD")) { vf::fail("malformed", "no MPD element"); return; } Attrs a = attrs(root); VF_CHECK(a["type"] == "dynamic" && a["minimumUpdatePeriod"] == "PT" + std::to_string(dur) + ".0S" && a["timeShiftBufferDepth"] == "PT" + std::to_string(window * dur) + ".0S" && a["minBufferTime"] == "PT" + std::to_string(minBuf) + ".0S", "root", "period %s, depth %s, buffer %s with %u segments of %u s", a["minimumUpdatePeriod"].c_str(), a["timeShiftBufferDepth"].c_str(), a["minBufferTime"].c_str(), window, dur); if (avail.empty()) avail = a["availabilityStartTime"]; VF_CHECK(avail.size() == 19 && a["availabilityStartTime"] == avail, "root", "available since %s, then %s", avail.c_str(), a["availabilityStartTime"].c_str());
        const tinyxml2::XMLElement* p = root->FirstChildElement("Period"); if (!p || p->NextSiblingElement("Period")) { vf::fail("malformed", "not one Period"); return; } std::set<std::string> seen;
        for (auto* e = p->FirstChildElement(); e; e = e->NextSiblingElement()) { Attrs x = attrs(e); if (strcmp(e->Name(), "AdaptationSet") || !sets.count(x["id"]) || !seen.insert(x["id"]).second) { vf::fail("sets", "unexpected %s %s", e->Name(), x["id"].c_str()); return; } MSet& s = sets[x["id"]]; VF_CHECK(x["mimeType"] == (s.video ? "video/mp4" : "audio/mp4"), "set", "set %s is %s", x["id"].c_str(), x["mimeType"].c_str()); if (s.video) { int mw = 0, mh = 0; for (auto& q : s.reps) { mw = std::max(mw, q.second.w); mh = std::max(mh, q.second.h); } int W = atoi(x["maxWidth"].c_str()), H = atoi(x["maxHeight"].c_str()); VF_CHECK(W >= mw && W <= s.everW && H >= mh && H <= s.everH && atoi(x["frameRate"].c_str()) == s.fps, "set", "largest picture %dx%d at %s, there is one of %dx%d at %d", W, H, x["frameRate"].c_str(), mw, mh, s.fps); }
            const tinyxml2::XMLElement* t = e->FirstChildElement("SegmentTemplate"); if (!t || t->NextSiblingElement("SegmentTemplate")) { vf::fail("set", "not one SegmentTemplate"); return; } Attrs y = attrs(t); VF_CHECK(atoi(y["timescale"].c_str()) == s.scale && y["media"] == s.media && y["initialization"] == s.init, "template", "set %s has %s, %s, %s; %d, %s, %s was set", x["id"].c_str(), y["timescale"].c_str(), y["media"].c_str(), y["initialization"].c_str(), s.scale, s.media.c_str(), s.init.c_str()); const tinyxml2::XMLElement* l = t->FirstChildElement("SegmentTimeline"); if (!l) { vf::fail("set", "no SegmentTimeline"); return; } std::vector<std::pair<uint64_t, uint64_t>> line; for (auto* q = l->FirstChildElement(); q; q = q->NextSiblingElement()) line.push_back({ strtoull(q->Attribute("t"), NULL, 10), strtoull(q->Attribute("d"), NULL, 10) }); VF_CHECK(line == s.line, "timeline", "set %s lists %zu segments, not the %zu it should", x["id"].c_str(), line.size(), s.line.size());
            std::set<std::string> rs; for (auto* q = e->FirstChildElement("Representation"); q; q = q->NextSiblingElement("Representation")) { Attrs z = attrs(q); if (!s.reps.count(z["id"]) || !rs.insert(z["id"]).second) { vf::fail("representations", "unexpected representation %s in set %s", z["id"].c_str(), x["id"].c_str()); return; } MRep& v = s.reps[z["id"]]; bool ok = z["codecs"] == v.codec && atoi(z["bandwidth"].c_str()) == v.bw; if (s.video) ok = ok && atoi(z["width"].c_str()) == v.w && atoi(z["height"].c_str()) == v.h; else { auto* cc = q->FirstChildElement("AudioChannelConfiguration"); ok = ok && atoi(z["audioSamplingRate"].c_str()) == v.rate && cc && cc->IntAttribute("value") == v.ch; } VF_CHECK(ok, "representations", "representation %s of set %s has other attributes than last set", z["id"].c_str(), x["id"].c_str()); vf::count("representations compared"); } VF_CHECK(rs.size() == s.reps.size(), "representations", "set %s has %zu representations, not %zu", x["id"].c_str(), rs.size(), s.reps.size()); vf::count("sets compared"); }
        VF_CHECK(seen.size() == sets.size(), "sets", "%zu sets are listed, there are %zu", seen.size(), sets.size()); DIR* dd = opendir(c.dir.c_str()); if (dd) { while (dirent* e = readdir(dd)) { std::string n = e->d_name; if (n.size() > 6 && n.compare(0, 5, "m.mpd") == 0) vf::fail("stale", "%s was left behind", n.c_str()); } closedir(dd); }
    }
    void step() {
        unsigned k = (unsigned)r.below(12); std::string i = id(); bool known = sets.count(i); sig.add(k).add(known);
        if (k == 0) configure();
        else if (k <= 2) { bool v = k == 1; int sc = r.pick({ 12800, 48000, 44100, 1, 90000, 2147483647 }); std::string a = text(), b = text(); if (v) m.updateVideoAdaptationSet(i, sc, a, b); else m.updateAudioAdaptationSet(i, sc, a, b); if (!known) { sets[i].video = v; sets[i].fps = 0; sets[i].everW = sets[i].everH = 0; } sets[i].scale = sc; sets[i].media = a; sets[i].init = b; }
        else if (k <= 4) { bool v = known ? (r.chance(9, 10) ? sets[i].video : !sets[i].video) : r.chance(1, 2); std::string q = id(); MRep x = { text(), (int)r.below(5000), (int)r.below(3000), (int)r.below(100000), (int)r.below(9), (int)r.below(100000000) }; int fps = (int)r.below(100); if (v) m.updateVideoRepresentation(i, q, x.codec, x.w, x.h, x.bw, fps); else m.updateAudioRepresentation(i, q, x.codec, x.rate, x.bw, x.ch); if (known && sets[i].video == v) { MSet& s = sets[i]; s.reps[q] = x; s.fps = fps; s.everW = std::max(s.everW, x.w); s.everH = std::max(s.everH, x.h); } else vf::count("refused updates"); }
        else if (k == 5) { std::string q = id(); bool due = known && sets[i].reps.count(q); bool ok = m.removeRepresentation(i, q); VF_CHECK(ok == due, "remove", "removing %s of %s returned %d", q.c_str(), i.c_str(), ok); if (due) { sets[i].reps.erase(q); vf::count("representations removed"); } else vf::count("refused updates"); }
        else if (k == 6) { if (r.chance(1, 3)) { bool ok = m.flushAdaptationSetTimestamps(i); VF_CHECK(ok == known, "flush", "flushing %s returned %d", i.c_str(), ok); if (known) { sets[i].line.clear(); vf::count("timelines flushed"); } } }
        else { std::vector<uint64_t> out, due; uint64_t t = r.chance(1, 6) ? 0 : r.chance(1, 6) ? r.u64() : r.below(100000), d = r.chance(1, 8) ? r.below(1ull << 32) : r.below(1000); if (known) { auto& l = sets[i].line; for (size_t j = l.size(); j--;) if (l[j].first == t) { l.erase(l.begin() + j); vf::count("starts listed before"); } while (l.size() >= window) { due.push_back(l.front().first); l.erase(l.begin()); } l.push_back({ t, (uint64_t)(unsigned)d }); } bool all = r.chance(3, 4); uint64_t ret = all ? m.updateAdaptationSetTimestamp(i, t, (unsigned)d, &out) : m.updateAdaptationSetTimestamp(i, t, (unsigned)d); if (all) VF_CHECK(out == due, "removed", "%zu times were reported as removed, %zu were", out.size(), due.size()); VF_CHECK(ret == (due.empty() ? 0 : due.back()), "removed", "the last time removed was reported as %llu", (unsigned long long)ret); vf::count("times leaving the window", due.size()); if (due.size() > 1) vf::count("several times leaving at once"); if (!known) vf::count("refused updates"); }
    }
};
void vf_init(vf::Ctx&) { vf::quiet(); signal(SIGXFSZ, SIG_IGN); }
void vf_done(vf::Ctx&) {}
void vf_case(vf::Ctx& c) { World w(c); unlink(w.file.c_str()); if (c.rng.chance(4, 5)) w.configure(); unsigned n = (unsigned)c.rng.range(5, c.thorough ? 400 : 120), every = (unsigned)c.rng.range(1, 10); for (unsigned i = 0; i < n && !vf::failed(); i++) { w.step(); if (!vf::failed() && c.rng.chance(1, (int)every)) w.check(); } if (!vf::failed()) w.check(); vf::distinct(w.sig.h); if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u updates, %zu sets at the end, window of %u", (unsigned long long)c.idx, n, w.sets.size(), w.window)); unlink(w.file.c_str()); }
