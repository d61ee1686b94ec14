// What the segmenter leaves in its folder, read back with a parser of our own: boxes, segments, init segments, manifests.
#ifndef DASH_HH
#define DASH_HH
#include "mod.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "modules/dasher/Dasher.hh"
#include <tinyxml2.h>
#include <deque>
#include <set>
#include <algorithm>
#include <fstream>
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
typedef std::vector<uint8_t> Bytes;

class VQ : public VideoFrameQueue { public: VQ(ConnectionData c, const StreamInfo* si, unsigned n, unsigned cap) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(si->video.codec, cap); } void fit(unsigned n) { delete frames[rear]; frames[rear] = InterleavedVideoFrame::createNew(streamInfo->video.codec, n ? n : 1); } };
class AQ : public AudioFrameQueue { public: AQ(ConnectionData c, const StreamInfo* si, unsigned n) : AudioFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(2, 48000, 4096, AAC, S16); } };
class Probe : public Dasher { public: Probe() { setSync(false); } void step() { int r = 0; processFrame(r); } };
static uint32_t u32(const uint8_t* p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint64_t u64(const uint8_t* p) { return (uint64_t)u32(p) << 32 | u32(p + 4); }
static unsigned u16(const uint8_t* p) { return p[0] << 8 | p[1]; }
static bool slurp(const std::string& p, Bytes& b) { int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; struct stat st; fstat(fd, &st); b.resize(st.st_size); size_t g = 0; while (g < b.size()) { ssize_t n = read(fd, b.data() + g, b.size() - g); if (n <= 0) break; g += n; } close(fd); return g == b.size(); }

// ---- the independent reader of what is on disk ----
struct Box { std::string type; const uint8_t* p; size_t n; };      // contents without the header
static bool boxes(const uint8_t* p, size_t n, std::vector<Box>& out) { while (n) { if (n < 8) return false; uint32_t s = u32(p); if (s < 8 || s > n) return false; Box b = { std::string((const char*)p + 4, 4), p + 8, s - 8 }; out.push_back(b); p += s; n -= s; } return true; }
static const Box* find(const std::vector<Box>& v, const char* t) { for (auto& b : v) if (b.type == t) return &b; return NULL; }
struct Smp { uint32_t dur, size, flags; int32_t cto; Bytes b; };
struct Seg { uint32_t scale, seq, refSize, subDur; uint64_t ept, tfdt; std::vector<Smp> s; };
#define NEED(c, ...) do { if (!(c)) { err = vf::fmt(__VA_ARGS__); return false; } } while (0)
static bool parseSeg(const Bytes& f, bool video, Seg& o, std::string& err) {
    std::vector<Box> top; NEED(boxes(f.data(), f.size(), top), "box sizes do not add up to the file"); NEED(top.size() == 4 && top[0].type == "styp" && top[1].type == "sidx" && top[2].type == "moof" && top[3].type == "mdat", "boxes are not styp sidx moof mdat");
    const Box& x = top[1]; NEED(x.n >= 44 && x.p[0] == 1, "sidx version or size"); o.scale = u32(x.p + 8); o.ept = u64(x.p + 12); NEED(u64(x.p + 20) == 0, "sidx first offset"); NEED(u16(x.p + 30) == 1 && x.n == 44, "sidx reference count"); o.refSize = u32(x.p + 32); o.subDur = u32(x.p + 36); NEED(o.refSize == top[2].n + top[3].n + 16, "sidx refers to %u bytes of %zu", o.refSize, top[2].n + top[3].n + 16); NEED((u32(x.p + 40) >> 28) == 9, "sidx does not declare a stream access point");
    std::vector<Box> mf, tr; NEED(boxes(top[2].p, top[2].n, mf) && mf.size() == 2, "moof"); const Box *mfhd = find(mf, "mfhd"), *traf = find(mf, "traf"); NEED(mfhd && traf && mfhd->n == 8, "moof contents"); o.seq = u32(mfhd->p + 4); NEED(boxes(traf->p, traf->n, tr) && tr.size() == 3, "traf");
    const Box *tfhd = find(tr, "tfhd"), *tfdt = find(tr, "tfdt"), *trun = find(tr, "trun"); NEED(tfhd && tfdt && trun, "traf contents"); NEED(tfhd->n == 8 && u32(tfhd->p) == 0x20000 && u32(tfhd->p + 4) == 1, "tfhd"); NEED(tfdt->n == 12 && tfdt->p[0] == 1, "tfdt"); o.tfdt = u64(tfdt->p + 4);
    uint32_t fl = u32(trun->p) & 0xFFFFFF, cnt = u32(trun->p + 4); NEED(fl == (video ? 0xF01u : 0x301u), "trun flags %x", fl); unsigned per = video ? 16 : 8; NEED(trun->n == 12 + (size_t)cnt * per, "trun size"); NEED(u32(trun->p + 8) == top[2].n + 16, "data offset %u, the payload is at %zu", u32(trun->p + 8), top[2].n + 16);
    const uint8_t *e = trun->p + 12, *d = top[3].p; size_t left = top[3].n; for (uint32_t i = 0; i < cnt; i++, e += per) { Smp s; s.dur = u32(e); s.size = u32(e + 4); s.flags = video ? u32(e + 8) : 0; s.cto = video ? (int32_t)u32(e + 12) : 0; NEED(s.size <= left, "sample %u beyond the payload", i); s.b.assign(d, d + s.size); d += s.size; left -= s.size; o.s.push_back(s); } NEED(left == 0, "%zu bytes of payload belong to no sample", left); NEED(cnt, "no samples"); return true;
}
struct Init { uint32_t scale; unsigned w, h, ch, rate; std::string fourcc; Bytes cfg; };
static bool parseInit(const Bytes& f, Init& o, std::string& err) {
    std::vector<Box> top, mv, tk, md, mi, sb; NEED(boxes(f.data(), f.size(), top) && top.size() == 2 && top[0].type == "ftyp" && top[1].type == "moov", "not ftyp moov"); NEED(boxes(top[1].p, top[1].n, mv), "moov"); NEED(find(mv, "mvhd") && find(mv, "mvex") && find(mv, "trak"), "moov contents"); std::vector<Box> ex; NEED(boxes(find(mv, "mvex")->p, find(mv, "mvex")->n, ex) && find(ex, "trex"), "mvex"); NEED(u32(find(ex, "trex")->p + 4) == 1, "trex track");
    const Box* t = find(mv, "trak"); NEED(boxes(t->p, t->n, tk) && find(tk, "tkhd") && find(tk, "mdia"), "trak"); const Box* th = find(tk, "tkhd"); NEED(th->n == 84 && th->p[0] == 0 && u32(th->p + 12) == 1, "tkhd"); o.w = u32(th->p + 76) >> 16; o.h = u32(th->p + 80) >> 16; const Box* m = find(tk, "mdia"); NEED(boxes(m->p, m->n, md) && find(md, "mdhd") && find(md, "hdlr") && find(md, "minf"), "mdia"); const Box* mh = find(md, "mdhd"); NEED(mh->n == 24 && mh->p[0] == 0, "mdhd"); o.scale = u32(mh->p + 12);
    const Box* n = find(md, "minf"); NEED(boxes(n->p, n->n, mi) && find(mi, "stbl") && find(mi, "dinf"), "minf"); const Box* s = find(mi, "stbl"); NEED(boxes(s->p, s->n, sb) && find(sb, "stsd") && find(sb, "stts") && find(sb, "stsc") && find(sb, "stsz") && find(sb, "stco"), "stbl"); const Box* sd = find(sb, "stsd"); std::vector<Box> en; NEED(sd->n > 8 && u32(sd->p + 4) == 1 && boxes(sd->p + 8, sd->n - 8, en) && en.size() == 1, "stsd"); o.fourcc = en[0].type; std::string h((const char*)find(md, "hdlr")->p + 8, 4);
    size_t skip = h == "vide" ? 78 : 28; NEED(h == "vide" || h == "soun", "handler %s", h.c_str()); NEED(en[0].n > skip, "sample entry"); std::vector<Box> cf; NEED(boxes(en[0].p + skip, en[0].n - skip, cf) && !cf.empty(), "sample entry boxes"); o.cfg.assign(cf[0].p, cf[0].p + cf[0].n); o.ch = o.rate = 0;
    if (h == "vide") { NEED(u16(en[0].p + 24) == o.w && u16(en[0].p + 26) == o.h, "sample entry is %ux%u, track is %ux%u", u16(en[0].p + 24), u16(en[0].p + 26), o.w, o.h); NEED(cf[0].type == (o.fourcc == "avc1" ? "avcC" : "hvcC"), "configuration box %s in %s", cf[0].type.c_str(), o.fourcc.c_str()); } else { NEED(o.fourcc == "mp4a" && cf[0].type == "esds", "audio entry"); o.ch = u16(en[0].p + 16); o.rate = u16(en[0].p + 24); }
    return true;
}
typedef std::vector<std::pair<uint64_t, uint64_t>> Line;
struct Rep { std::map<std::string, std::string> a; int channels; };
struct Set { std::map<std::string, std::string> a, tmpl; Line line; std::map<int, Rep> reps; };
struct Mpd { std::map<std::string, std::string> a; std::map<std::string, Set> sets; };
static void attrs(const tinyxml2::XMLElement* e, std::map<std::string, std::string>& m) { for (auto* a = e->FirstAttribute(); a; a = a->Next()) m[a->Name()] = a->Value(); }
static bool parseMpd(const Bytes& f, Mpd& o, std::string& err) {
    tinyxml2::XMLDocument d; NEED(d.Parse((const char*)f.data(), f.size()) == tinyxml2::XML_SUCCESS, "the manifest (%zu bytes) is not XML", f.size()); auto* r = d.FirstChildElement("MPD"); NEED(r, "no MPD element"); attrs(r, o.a); auto* p = r->FirstChildElement("Period"); NEED(p, "no Period");
    for (auto* s = p->FirstChildElement("AdaptationSet"); s; s = s->NextSiblingElement("AdaptationSet")) { Set x; attrs(s, x.a); auto* t = s->FirstChildElement("SegmentTemplate"); NEED(t, "no SegmentTemplate"); attrs(t, x.tmpl); auto* l = t->FirstChildElement("SegmentTimeline"); NEED(l, "no SegmentTimeline"); for (auto* e = l->FirstChildElement("S"); e; e = e->NextSiblingElement("S")) x.line.push_back({ strtoull(e->Attribute("t"), NULL, 10), strtoull(e->Attribute("d"), NULL, 10) });
        for (auto* e = s->FirstChildElement("Representation"); e; e = e->NextSiblingElement("Representation")) { Rep y; attrs(e, y.a); y.channels = -1; if (auto* c = e->FirstChildElement("AudioChannelConfiguration")) y.channels = c->IntAttribute("value"); x.reps[atoi(y.a["id"].c_str())] = y; } NEED(!o.sets.count(x.a["id"]), "adaptation set twice"); o.sets[x.a["id"]] = x; }
    return true;
}
static std::set<std::string> list(const std::string& dir) { std::set<std::string> r; DIR* d = opendir(dir.c_str()); if (!d) return r; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(d); return r; }
static std::string subst(std::string t, int id, uint64_t time) { auto rep = [&](const std::string& k, const std::string& v) { size_t i = t.find(k); if (i != std::string::npos) t.replace(i, k.size(), v); }; rep("$RepresentationID$", std::to_string(id)); rep("$Time$", std::to_string(time)); return t; }
// what a client that looks at any moment may rely on: a complete manifest, whose segments and init segments are there and complete
static bool clientView(const std::string& dir, const std::string& base, std::string& err, const std::map<int, uint64_t>& from, uint64_t* segs) {
    Bytes f; if (!slurp(dir + "/" + base + ".mpd", f)) return true; Mpd m; if (!parseMpd(f, m, err)) return false;
    for (auto& s : m.sets) for (auto& r : s.second.reps) { bool video = s.second.a["mimeType"] == "video/mp4"; auto fr = from.find(r.first); Bytes b; Init in; std::string name = subst(s.second.tmpl["initialization"], r.first, 0); NEED(slurp(dir + "/" + name, b), "init segment %s is missing", name.c_str()); if (!parseInit(b, in, err)) { err = name + ": " + err; return false; }
        for (auto& l : s.second.line) { if (fr != from.end() && l.first < fr->second) continue; name = subst(s.second.tmpl["media"], r.first, l.first); NEED(slurp(dir + "/" + name, b), "listed segment %s is missing", name.c_str()); Seg g; if (!parseSeg(b, video, g, err)) { err = name + ": " + err; return false; } if (segs) ++*segs; } }
    return true;
}

#endif
