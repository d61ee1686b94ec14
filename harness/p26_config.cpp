// P26: requests to the real filters are either carried out exactly or leave everything as it was, and what a filter reports is
// what was requested.  Every kind of filter that can be built has a model of its configuration; requests are composed from the
// tables of parameters below with values that are usual, extreme, out of range, of another type or left out, and after every
// request the reported state (read by a strict JSON reader), the frame time and the ends the filter lists are compared.
// Some cases send their requests while other threads execute the filter and read its state: every state read must be one of the
// states between two requests, and never an older one than before.
#include "mod.hh"
#include "json_ref.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "AudioCircularBuffer.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include "modules/dasher/Dasher.hh"
#include "modules/sharedMemory/SharedMemory.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include "modules/videoMixer/VideoMixer.hh"
#include "modules/videoResampler/VideoResampler.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
#include <opencv2/core.hpp>
#include <atomic>
#include <cmath>
#include <dirent.h>
#include <set>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using mod::us;
using std::string;

// ---- access to the frame time of a filter and the segmenters of a dasher
template <class Tag, typename Tag::type member> struct Open { friend typename Tag::type reach(Tag) { return member; } };
struct FrameTime { typedef us (BaseFilter::*type)(); friend type reach(FrameTime); };
template struct Open<FrameTime, &BaseFilter::getFrameTime>;
struct Segmenter { typedef DashSegmenter* (Dasher::*type)(unsigned); friend type reach(Segmenter); };
template struct Open<Segmenter, &Dasher::getSegmenter>;
static long frameTime(BaseFilter* f) { return (long)(f->*reach(FrameTime()))().count(); }

// ---- requests
struct Val {
    char t; double n; string s;                     // i(nteger) f(raction) b(ool) s(tring); x: null, array or object
    Val(char t = 'x', double n = 0, string s = "") : t(t), n(n), s(s) {}
};
typedef std::map<string, Val> Request;
struct Par { string name; char t; bool need; std::vector<double> usual, odd; std::vector<string> texts; };
struct Action { string name; std::vector<Par> pars; };

// ---- models
struct Model {
    std::vector<Action> actions; std::set<int> ends; long ft = 0;
    virtual ~Model() {}
    virtual void apply(const string& action, const Request& q) = 0;       // only parameters of the right type
    virtual M state() const = 0;                                          // what the filter has to report
    virtual void join(int) {}
    virtual void leave(int) {}
    virtual Model* copy() const = 0;
    bool good(const string& a, const Request& q) const {                  // every needed parameter present
        for (const Action& x : actions) if (x.name == a) { for (const Par& p : x.pars) if (p.need && !q.count(p.name)) return false; return true; }
        return false;
    }
};
static M num(double v) { return M('d', vf::fmt("%.12g", v)); }
static M txt(const string& s) { return M('s', s); }
static M flag(bool b) { return M('b', b ? "true" : "false"); }
static M obj(std::vector<std::pair<string, M>> k) { M m('o'); m.k = k; return m; }
static long whole(const Val& v) { return (long)v.n; }
static std::vector<double> none;

struct SplitterModel : Model {
    struct Crop { long w, h, x, y, deg; }; std::map<int, Crop> crops;
    SplitterModel() {
        std::vector<double> id = {1, 2, 3, 4}, oddId = {0, -1, 99, 2147483647};
        actions = {{"configCrop", {{"id", 'i', true, id, oddId, {}}, {"width", 'i', true, {1, 16, 64, 640, 1920}, {0, -1, 1921, 2147483647}, {}}, {"height", 'i', true, {1, 16, 48, 480, 1080}, {0, -5, 1081, -2147483647}, {}},
                                   {"x", 'i', true, {0, 8, 100, 1919}, {-1, -2147483647}, {}}, {"y", 'i', true, {0, 4, 50, 1079}, {-1, -77}, {}}, {"degree", 'i', false, {0, 90, -90, 45, 360, -360}, {361, -361, 2147483647}, {}}}},
                   {"configure", {{"fTime", 'i', false, {0, 1, 40000, 1000000}, {-1, -40000}, {}}}}};
    }
    Model* copy() const { return new SplitterModel(*this); }
    void join(int e) { crops[e] = Crop{0, 0, -1, -1, 0}; }
    void leave(int e) { crops.erase(e); }
    void apply(const string& a, const Request& q) {
        if (a == "configure") { if (q.count("fTime") && whole(q.at("fTime")) >= 0) ft = whole(q.at("fTime")); return; }
        auto it = crops.find((int)whole(q.at("id"))); if (it == crops.end()) return;
        Crop k = it->second; k.w = whole(q.at("width")); k.h = whole(q.at("height")); k.x = whole(q.at("x")); k.y = whole(q.at("y")); if (q.count("degree")) k.deg = whole(q.at("degree"));
        if (k.w > 0 && k.w <= 1920 && k.h > 0 && k.h <= 1080 && k.x >= 0 && k.y >= 0 && labs(k.deg) <= 360) it->second = k;
    }
    M state() const {
        M l('a'); for (auto& c : crops) l.k.push_back({"", obj({{"id", num(c.first)}, {"width", num(c.second.w)}, {"height", num(c.second.h)}, {"x", num(c.second.x)}, {"y", num(c.second.y)}, {"degree", num(c.second.deg)}})});
        return obj({{"type", txt("videoSplitter")}, {"role", txt("regular")}, {"frameTime", num(ft)}, {"crops", l}});
    }
};
struct MixerModel : Model {
    struct Channel { double w, h, x, y, op; long layer; bool on; }; std::map<int, Channel> ch; long w, h, most;
    MixerModel(long most, long w, long h, long t) : w(w), h(h), most(most) {
        ft = t; std::vector<double> in = {0, 0.125, 0.3, 0.5, 0.75, 1}, out = {-0.001, 1.001, -3, 400};
        actions = {{"configChannel", {{"id", 'i', true, {1, 2, 3, 4}, {0, -1, 77}, {}}, {"width", 'f', true, {0.001, 0.25, 0.5, 1}, {0, -0.5, 1.001, 64}, {}}, {"height", 'f', true, {0.001, 0.25, 0.7, 1}, {0, -1, 1.5}, {}},
                                      {"x", 'f', true, in, out, {}}, {"y", 'f', true, in, out, {}}, {"layer", 'i', true, {0, 1, 2}, {-1, (double)most, (double)most + 1, 2147483647}, {}}, {"enabled", 'b', true, {0, 1}, none, {}}, {"opacity", 'f', true, in, out, {}}}},
                   {"configure", {{"width", 'i', false, {1, 64, 80, 320}, {0, -1, 1920, 1921, 100000}, {}}, {"height", 'i', false, {1, 48, 60, 240}, {0, -1, 1080, 1081}, {}}, {"fps", 'i', false, {1, 25, 60}, {0, -1, 1000000}, {}}}}};
    }
    Model* copy() const { return new MixerModel(*this); }
    void join(int e) { ch[e] = Channel{1, 1, 0, 0, 1, 0, false}; }
    void leave(int e) { ch.erase(e); }
    void apply(const string& a, const Request& q) {
        if (a == "configure") {
            long W = w, H = h, f = 0; if (q.count("width")) W = whole(q.at("width")); if (q.count("height")) H = whole(q.at("height")); if (q.count("fps")) f = whole(q.at("fps"));
            if (W <= 0 || W > 1920 || H <= 0 || H > 1080) return;
            w = W; h = H; if (f > 0) ft = 1000000 / f; return;
        }
        auto it = ch.find((int)whole(q.at("id"))); if (it == ch.end()) return;
        Channel k{q.at("width").n, q.at("height").n, q.at("x").n, q.at("y").n, q.at("opacity").n, whole(q.at("layer")), q.at("enabled").n != 0};
        if (k.w <= 0 || k.w > 1 || k.h <= 0 || k.h > 1 || k.x < 0 || k.x > 1 || k.y < 0 || k.y > 1 || k.op < 0 || k.op > 1 || k.layer < 0 || k.layer > most) return;
        it->second = k;
    }
    M state() const {
        M l('a'); for (auto& c : ch) l.k.push_back({"", obj({{"id", num(c.first)}, {"width", num(c.second.w)}, {"height", num(c.second.h)}, {"x", num(c.second.x)}, {"y", num(c.second.y)}, {"layer", num(c.second.layer)}, {"enabled", flag(c.second.on)}, {"opacity", num(c.second.op)}})});
        return obj({{"type", txt("videoMixer")}, {"role", txt("regular")}, {"width", num(w)}, {"height", num(h)}, {"maxChannels", num(most)}, {"channels", l}});
    }
};
struct ResamplerModel : Model {
    long w = 0, h = 0, f = RGB24;
    ResamplerModel() {
        actions = {{"configure", {{"width", 'i', false, {0, 1, 32, 1920}, {-1, 1921, 2147483647}, {}}, {"height", 'i', false, {0, 1, 24, 1080}, {-1, 1081, -2147483647}, {}}, {"fps", 'i', false, {0, 1, 7, 25, 30, 60, 700}, {-1, -2147483647}, {}},
                                  {"pixelFormat", 'i', false, {RGB24, RGB32, YUYV422, YUV420P, YUV422P, YUV444P}, {P_NONE, -2, YUVJ420P, 7, 100, 2147483647}, {}}}}};
    }
    Model* copy() const { return new ResamplerModel(*this); }
    void apply(const string&, const Request& q) {
        long W = w, H = h, F = f, t = ft; if (q.count("width")) W = whole(q.at("width")); if (q.count("height")) H = whole(q.at("height")); if (q.count("pixelFormat")) F = whole(q.at("pixelFormat"));
        if (q.count("fps")) t = whole(q.at("fps")) > 0 ? 1000000 / whole(q.at("fps")) : 0;
        if (W < 0 || W > 1920 || H < 0 || H > 1080 || F <= P_NONE || F > YUYV422 || F == YUVJ420P) return;
        w = W; h = H; f = F; ft = t;
    }
    M state() const { return obj({{"type", txt("videoResampler")}, {"role", txt("regular")}, {"width", num(w)}, {"height", num(h)}, {"pixelFormat", num(f)}, {"frameTime", num(ft)}}); }
};
struct EncoderModel : Model {
    long bitrate = 2000, fps = 25, gop = 25, look = 25, b = 4, threads = 4, gopTime = 0; bool annexb = true; string preset = "ultrafast", ref = "0";
    EncoderModel() {
        std::vector<double> neg = {0, -1, -2147483647};
        actions = {{"configure", {{"bitrate", 'i', false, {1, 100, 2000, 2147483647}, neg, {}}, {"fps", 'i', false, {1, 10, 24, 25, 30, 60}, {0, -1}, {}}, {"gop", 'i', false, {1, 12, 25, 250}, neg, {}}, {"lookahead", 'i', false, {0, 5, 25}, {-1}, {}},
                                  {"bframes", 'i', false, {0, 1, 4, 16}, {-1}, {}}, {"threads", 'i', false, {1, 2, 8}, neg, {}}, {"annexb", 'b', false, {0, 1}, none, {}}, {"preset", 's', false, {}, none, {"ultrafast", "medium", "", "fast"}}, {"gopTime", 'i', false, {0, 1, 999999, 1000000, 1000001, 5000000}, {-1, 2147483647}, {}}}},
                   {"forceIntra", {}},
                   {"gopReferenceTime", {{"referenceTime", 's', true, {}, none, {"0", "1", "1700000000000000", "999999999999999999", "", "-1", "12x", "1000000000000000000", "00017", " 5"}}}}};
    }
    Model* copy() const { return new EncoderModel(*this); }
    static void take(const Request& q, const char* n, long& v) { if (q.count(n)) v = whole(q.at(n)); }
    void apply(const string& a, const Request& q) {
        if (a == "forceIntra") return;
        if (a == "gopReferenceTime") { const string& s = q.at("referenceTime").s; if (!s.empty() && s.size() <= 18 && s.find_first_not_of("0123456789") == string::npos) ref = std::to_string(std::stoll(s)); return; }
        EncoderModel n(*this); long f = ft ? fps : 0; take(q, "bitrate", n.bitrate); take(q, "fps", f); take(q, "gop", n.gop); take(q, "lookahead", n.look); take(q, "bframes", n.b); take(q, "threads", n.threads); take(q, "gopTime", n.gopTime);
        if (q.count("annexb")) n.annexb = q.at("annexb").n != 0;
        if (q.count("preset")) n.preset = q.at("preset").s;
        if (n.bitrate <= 0 || f < 0 || n.gop <= 0 || n.look < 0 || n.threads <= 0 || n.gopTime < 0 || n.preset.empty()) return;
        n.fps = f > 0 ? f : 25; n.ft = f > 0 ? 1000000 / f : 0; if (n.gopTime > 0 && n.gopTime < 1000000) n.gopTime = 1000000;
        *this = n;
    }
    M state() const {
        return obj({{"type", txt("videoEncoder")}, {"role", txt("regular")}, {"bitrate", num(bitrate)}, {"fps", num(fps)}, {"gop", num(gop)}, {"gopTime", num(gopTime)}, {"refTime", txt(ref)}, {"lookahead", num(look)}, {"threads", num(threads)},
                    {"annexb", flag(annexb)}, {"bframes", num(b)}, {"preset", txt(preset)}});
    }
};
struct SoundModel : Model {
    std::map<int, double> g; double master = 0.6; long most;
    SoundModel(long most) : most(most) {
        std::vector<double> id = {1, 2, 3, 4}, oddId = {0, -1, 77}, v = {0, 0.1, 0.25, 0.6, 1}, odd = {-0.1, 1.5, 3000, -7};
        actions = {{"changeChannelGain", {{"id", 'i', true, id, oddId, {}}, {"gain", 'f', true, v, odd, {}}}}, {"muteChannel", {{"id", 'i', true, id, oddId, {}}}}, {"soloChannel", {{"id", 'i', true, id, oddId, {}}}}, {"changeMasterGain", {{"gain", 'f', true, v, odd, {}}}}, {"muteMaster", {}}};
    }
    Model* copy() const { return new SoundModel(*this); }
    void join(int e) { g[e] = 1; }
    void leave(int e) { g.erase(e); }
    static double clamp(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
    void apply(const string& a, const Request& q) {
        if (a == "muteMaster") { master = 0; return; }
        if (a == "changeMasterGain") { master = clamp(q.at("gain").n); return; }
        auto it = g.find((int)whole(q.at("id"))); if (it == g.end()) return;
        if (a == "soloChannel") for (auto& x : g) x.second = x.first == it->first ? 1 : 0;
        else it->second = a == "muteChannel" ? 0 : clamp(q.at("gain").n);
    }
    M state() const {
        M l('a'); for (auto& c : g) l.k.push_back({"", obj({{"id", num(c.first)}, {"gain", num(c.second)}})});
        return obj({{"type", txt("audioMixer")}, {"role", txt("regular")}, {"channels", num(2)}, {"sampleRate", num(48000)}, {"sampleFormat", txt("fltp")}, {"maxChannels", num(most)}, {"masterGain", num(master)}, {"gains", l}});
    }
};
struct DashModel : Model {
    string dir, folder, base, mpd; long dur = 0, most = 0, least = 0; bool configured = false; std::map<int, long> rate;
    explicit DashModel(const string& d) : dir(d) {
        std::vector<double> odd = {0, -1, -2147483647};
        actions = {{"configure", {{"folder", 's', false, {}, none, {d + "/a", d + "/b", d + "/a/", d + "/none", ""}}, {"baseName", 's', false, {}, none, {"one", "two", "", "x.y"}}, {"segDurInSec", 'i', false, {1, 2, 4, 10}, odd, {}}, {"maxSeg", 'i', false, {2, 3, 6, 100}, {0, 1, -1}, {}}, {"minBuffTime", 'i', false, {2, 4, 8, 20}, {0, 1, -1, 5000}, {}}}},
                   {"setBitrate", {{"id", 'i', true, {1, 2, 3, 4}, {0, -1, 77}, {}}, {"bitrate", 'i', true, {0, 1000, 2147483647}, {-1, -2147483647}, {}}}}};
    }
    Model* copy() const { return new DashModel(*this); }
    void join(int e) { rate[e] = 0; }
    void leave(int e) { rate.erase(e); }
    void apply(const string& a, const Request& q) {
        if (a == "setBitrate") { auto it = rate.find((int)whole(q.at("id"))); if (it != rate.end() && whole(q.at("bitrate")) >= 0) it->second = whole(q.at("bitrate")); return; }
        string f = folder, b = base; long d = dur, m = most, l = least;
        if (q.count("folder")) f = q.at("folder").s;
        if (q.count("baseName")) b = q.at("baseName").s;
        EncoderModel::take(q, "segDurInSec", d); EncoderModel::take(q, "maxSeg", m); EncoderModel::take(q, "minBuffTime", l);
        if (d <= 0 || m < 0 || l < 0 || b.empty() || access(f.c_str(), W_OK)) return;
        if (f[f.size() - 1] != '/') f += '/';
        folder = f; base = b; mpd = f + b + ".mpd"; dur = d; most = std::max(2l, m); least = std::max(2 * d, std::min(l, most * d)); configured = true;
    }
    M state() const {
        M l('a'); for (auto& c : rate) l.k.push_back({"", num(c.first)});
        M s = obj({{"type", txt("dasher")}, {"role", txt("regular")}, {"folder", txt(folder)}, {"baseName", txt(base)}, {"mpdURI", txt(mpd)}, {"segDurInSec", num(dur)}, {"readers", l}});
        if (configured) { s.k.push_back({"maxSegments", num(most)}); s.k.push_back({"minBufferTime", num(least)}); }
        return s;
    }
};
struct MemoryModel : Model {
    long key; string codec;
    MemoryModel(long k, const string& c) : key(k), codec(c) { actions = {{"configure", {{"key", 'i', false, {1, 2}, {-1}, {}}}}}; }
    Model* copy() const { return new MemoryModel(*this); }
    void apply(const string&, const Request&) {}
    M state() const { return obj({{"type", txt("sharedMemory")}, {"role", txt("regular")}, {"codec", txt(codec)}, {"key", num(key)}}); }
};

// ---- comparing
static string show(const M& m) { string s; if (m.t == 'o' || m.t == 'a') { s = m.t == 'o' ? "{" : "["; for (auto& k : m.k) s += (s.size() > 1 ? "," : "") + (m.t == 'o' ? k.first + ":" : "") + show(k.second); return s + (m.t == 'o' ? "}" : "]"); } return m.t == 's' ? "'" + m.s + "'" : m.t == 'n' ? "null" : m.s; }
// every member of `want` is reported, once and with that value; lists are complete
static bool same(const M& want, const M& got, string& where) {
    if (want.t != got.t) return false;
    if (want.t == 'd') { double a = atof(want.s.c_str()), b = atof(got.s.c_str()); return fabs(a - b) <= 1e-5 * std::max(1.0, fabs(a)) && (a != floor(a) || fabs(a) < 2 || a == b); }
    if (want.t == 'a') { if (want.k.size() != got.k.size()) { where += " (number of entries)"; return false; } for (size_t i = 0; i < want.k.size(); i++) if (!same(want.k[i].second, got.k[i].second, where)) { where += vf::fmt(" [%zu]", i); return false; } return true; }
    if (want.t != 'o') return want.s == got.s;
    for (auto& k : want.k) { const M* v = NULL; int n = 0; for (auto& g : got.k) if (g.first == k.first) { v = &g.second; n++; } if (n != 1 || !same(k.second, *v, where)) { where = k.first + where; return false; } }
    return true;
}

// ---- drivers
static StreamInfo *rgb, *h264, *aac;
class Pictures : public VideoFrameQueue { public: Pictures(ConnectionData c, const StreamInfo* s) : VideoFrameQueue(c, s, 4) { for (unsigned i = 0; i < max; i++) { frames[i] = InterleavedVideoFrame::createNew(s->video.codec, 32 * 24 * 4); memset(frames[i]->getDataBuf(), 0, 32 * 24 * 4); } } };
class Sounds : public AudioFrameQueue { public: Sounds(ConnectionData c, const StreamInfo* s) : AudioFrameQueue(c, s, 8) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(2, 48000, 1024, AAC, S16); } };
struct Rig {
    vf::Ctx& c; vf::Rng& r; string dir; char kind; std::unique_ptr<BaseFilter> f; std::unique_ptr<Model> m; std::map<int, std::unique_ptr<mod::Feed>> feeds; mod::Catch sink; std::map<int, long> pts; vf::Hash sig; bool writersAreEnds; int feedId = 10;
    explicit Rig(vf::Ctx& c) : c(c), r(c.rng), dir(c.dir + "/config"), sink(false), writersAreEnds(false) {
        mkdir(dir.c_str(), 0700); mkdir((dir + "/a").c_str(), 0700); mkdir((dir + "/b").c_str(), 0700);
        kind = r.pick({'P', 'P', 'M', 'M', 'R', 'E', 'F', 'X', 'X', 'D', 'D', 'h'}); long t = r.pick({0l, 0l, 40000l}); int ends = (int)r.range(1, 5);
        switch (kind) {
        case 'P': f.reset(VideoSplitter::createNew(us(t))); m.reset(new SplitterModel()); m->ft = t; writersAreEnds = true; break;
        case 'M': f.reset(VideoMixer::createNew(ends, 64, 48, us(t))); m.reset(new MixerModel(ends, 64, 48, t)); break;
        case 'R': f.reset(new VideoResampler()); m.reset(new ResamplerModel()); break;
        case 'E': f.reset(new VideoEncoderX264()); m.reset(new EncoderModel()); break;
        case 'F': f.reset(new VideoEncoderX265()); m.reset(new EncoderModel()); break;
        case 'X': f.reset(new AudioMixer(ends)); m.reset(new SoundModel(ends)); break;
        case 'D': f.reset(new Dasher()); m.reset(new DashModel(dir)); break;
        case 'h': { int key = getpid() * 8 + 5; bool raw = r.chance(1, 2); f.reset(SharedMemory::createNew((size_t)key, raw ? RAW : H264)); m.reset(new MemoryModel(key, raw ? "RAW" : "H264")); }
        }
        if (f) { f->setId(1); if (kind != 'P' && kind != 'M') m->ft = frameTime(f.get()); } else vf::fail("create", "filter %c refused", kind);
        sink.setId(2); sig.add(kind);
    }
    ~Rig() {
        f.reset(); feeds.clear();
        for (string d : {dir + "/a", dir + "/b"}) { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(h); } rmdir(d.c_str()); }
        rmdir(dir.c_str());
    }
    // ends of the filter appear and disappear
    void traffic() {
        for (auto& x : feeds) { int n = 0; x.second->processFrame(n); }
        int n = 0; f->processFrame(n); sink.processFrame(n); vf::count("rounds");
    }
    mod::Feed* source() {
        mod::Feed* s = new mod::Feed(); s->setId(feedId); feeds[feedId++].reset(s);
        s->mk = [this](ConnectionData d) -> FrameQueue* { if (kind == 'X') return AudioCircularBuffer::createNew(d, 2, 48000, 100, FLTP); if (kind == 'D') { if (r.chance(1, 3)) return new Sounds(d, aac); return new Pictures(d, h264); } return new Pictures(d, rgb); };
        s->fill = [this](int, Frame* x) {
            if (VideoFrame* v = dynamic_cast<VideoFrame*>(x)) { v->setSize(16, 12); v->setPixelFormat(RGB24); v->setLength(16 * 12 * 3); if (kind == 'D') { unsigned char nal[] = {0, 0, 0, 1, 9, 16}; memcpy(v->getDataBuf(), nal, 6); v->setLength(6); } }
            else if (AudioFrame* a = dynamic_cast<AudioFrame*>(x)) { if (kind == 'D') return false; a->setChannels(2); a->setSampleRate(48000); a->setSamples(480); a->setLength(480 * 4); for (int k = 0; k < 2; k++) memset(a->getPlanarDataBuf()[k], 0, 480 * 4); }
            long& t = pts[0]; x->setPresentationTime(us(t)); x->setDecodeTime(us(t)); t += 10000; return true; };
        return s;
    }
    void ends() {
        int e = (int)r.range(1, 4); DashModel* d = dynamic_cast<DashModel*>(m.get());
        if (m->ends.count(e)) {
            bool ok = writersAreEnds ? f->disconnectWriter(e) : f->disconnectReader(e); VF_CHECK(ok, "disconnect", "end %d could not be disconnected", e);
            if (ok) { m->ends.erase(e); m->leave(e); vf::count("ends removed"); sig.add(500 + e); }
            return;
        }
        bool ok, want = true;
        if (writersAreEnds) {
            static int next = 1; if (m->ends.empty() && feeds.empty()) { if (!source()->connectOneToOne(f.get())) vf::fail("connect", "source refused"); }
            ok = f->connectManyToMany(&sink, next++ % 1000 + 1, e);
        } else {
            if (MixerModel* x = dynamic_cast<MixerModel*>(m.get())) want = (long)x->ch.size() < x->most; if (SoundModel* x = dynamic_cast<SoundModel*>(m.get())) want = (long)x->g.size() < x->most; if (d) want = d->configured;
            if (!strchr("MXD", kind)) { if (!m->ends.empty()) return; if (kind == 'h') return; }
            ok = source()->connectManyToMany(f.get(), e, 1);
            if (!ok) feeds.erase(feedId - 1);
        }
        VF_CHECK(ok == want, "connect", "end %d of filter %c: %s", e, kind, ok ? "connected beyond the limit" : "refused");
        if (ok) { m->ends.insert(e); m->join(e); vf::count("ends added"); sig.add(400 + e); }
    }
    // a request; what may be in force afterwards is returned
    Val value(const Par& p, bool odd) {
        if (p.t == 's') return Val('s', 0, r.pick(p.texts));
        double v = odd && !p.odd.empty() ? r.pick(p.odd) : r.pick(p.usual);
        return Val(p.t == 'f' ? (v == floor(v) && r.chance(1, 2) ? 'i' : 'f') : p.t, v);
    }
    static void put(Jzon::Object& o, const string& n, const Val& v, vf::Rng& r) {
        switch (v.t) {
        case 'i': o.Add(n, (int)v.n); break;
        case 'f': o.Add(n, v.n); break;
        case 'b': o.Add(n, v.n != 0); break;
        case 's': o.Add(n, v.s); break;
        default: switch (r.below(3)) { case 0: { Jzon::Value x; o.Add(n, x); break; } case 1: { Jzon::Array a; a.Add(3); o.Add(n, a); break; } default: { Jzon::Object k; k.Add("v", 1); o.Add(n, k); } }
        }
    }
    string tell(const string& a, const Jzon::Object& p) { Jzon::Writer w(p, Jzon::NoFormat); w.Write(); return a + " " + w.GetResult(); }
    // makes a request, and the states it may lead to
    string request(bool onlyClear, string& action, Jzon::Object& params, bool& withParams, std::vector<std::unique_ptr<Model>>& after, Request& asked) {
        const Action& a = r.pick(m->actions); action = a.name; withParams = true; bool clear = true; Request q; string odd; bool fraction = false;
        bool wild = r.chance(1, 4), ill = !onlyClear && r.chance(1, 5);
        for (const Par& p : a.pars) {
            if (p.need ? (!onlyClear && r.chance(1, 30)) : r.chance(2, 5)) { vf::count("parameters left out"); continue; }
            Val v = value(p, wild && r.chance(1, 3)); if (p.name == "id" && !m->ends.empty() && r.chance(2, 3)) { auto e = m->ends.begin(); std::advance(e, r.below(m->ends.size())); v.n = *e; }
            if (ill && r.chance(1, 3)) {
                clear = false; vf::count("parameters of another type");
                switch (p.t) {
                case 'i': v = r.chance(1, 3) ? Val('f', v.n + 0.5) : r.pick({Val('s', 0, std::to_string((long)v.n)), Val('b', 1), Val('x')}); break;
                case 'f': v = r.pick({Val('s', 0, "0.5"), Val('b', 1), Val('x')}); break;
                case 'b': v = r.pick({Val('s', 0, "true"), Val('i', 1), Val('i', 0), Val('x')}); break;
                default: v = r.pick({Val('i', 17), Val('b', 1), Val('x')});
                }
                if (v.t == 'f') { fraction = true; q[p.name] = Val('i', trunc(v.n)); }
            } else q[p.name] = v;
            put(params, p.name, v, r);
        }
        if (r.chance(1, 20)) params.Add("comment", 5);
        bool known = true; if (!onlyClear && r.chance(1, 40)) { action = r.pick({string("nonsense"), string(""), a.name + "x", string("Configure")}); known = m->good(action, Request()); } if (!onlyClear && r.chance(1, 40)) { withParams = false; q.clear(); }
        after.emplace_back(m->copy());
        if (known && m->good(action, q) && (withParams || a.pars.empty())) after.back()->apply(action, q); else vf::count("incomplete or unknown requests");
        if (!clear) after.emplace_back(m->copy());
        // fractions may be taken for their whole part or be refused
        if (fraction) { after.emplace_back(m->copy()); Request less; for (auto& x : q) if (params.Get(x.first).ToString().find('.') == string::npos || m->actions.empty()) less[x.first] = x.second; if (known && m->good(action, less)) after.back()->apply(action, less); }
        asked = q; for (const Par& x : a.pars) if (!q.count(x.name)) asked[""];
        if (!clear || !known || !withParams) asked[""];
        vf::count("requests"); sig.add(action).add(q.size()); for (auto& x : q) sig.add(x.first).add((uint64_t)(int64_t)(x.second.n * 1000)).add(x.second.s);
        return tell(action, params);
    }
    // the same request through the C++ interface
    bool call(const string& a, const Request& q) {
        auto i = [&](const char* n) { return (int)q.at(n).n; }; auto d = [&](const char* n) { return (float)q.at(n).n; };
        if (VideoSplitter* x = dynamic_cast<VideoSplitter*>(f.get())) return a == "configure" ? x->configure(i("fTime")) : x->configCrop(i("id"), i("width"), i("height"), i("x"), i("y"), i("degree"));
        if (VideoMixer* x = dynamic_cast<VideoMixer*>(f.get())) return a == "configure" ? x->configure(i("width"), i("height"), i("fps")) : x->configChannel(i("id"), d("width"), d("height"), d("x"), d("y"), i("layer"), i("enabled") != 0, d("opacity"));
        if (VideoResampler* x = dynamic_cast<VideoResampler*>(f.get())) return i("pixelFormat") >= P_NONE && i("pixelFormat") <= YUVJ420P && x->configure(i("width"), i("height"), i("fps"), (PixType)i("pixelFormat"));
        if (VideoEncoderX264or5* x = dynamic_cast<VideoEncoderX264or5*>(f.get())) return a == "configure" && x->configure(i("bitrate"), i("fps"), i("gop"), i("lookahead"), i("bframes"), i("threads"), i("annexb") != 0, q.at("preset").s, i("gopTime"));
        if (AudioMixer* x = dynamic_cast<AudioMixer*>(f.get())) return a == "muteMaster" ? x->muteMaster() : a == "changeMasterGain" ? x->changeMasterGain(d("gain")) : a == "muteChannel" ? x->muteChannel(i("id")) : a == "soloChannel" ? x->soloChannel(i("id")) : x->changeChannelGain(i("id"), d("gain"));
        return false;
    }
    void send(const string& a, const Jzon::Object& p, bool with, const Request& whole) {
        if (!whole.count("") && r.chance(1, 2) && call(a, whole)) vf::count("requests through the C++ interface"); else mod::event(*f, a, p, with);
    }
    // which of the states is the one reported?
    int compare(std::vector<std::unique_ptr<Model>>& after, const string& request, string& where) {
        string text = mod::state(*f); Strict s(text); M got; if (!s.doc(got)) { vf::fail("unreadable", "the state of filter %c cannot be read: %s", kind, show(text).c_str()); return -2; }
        long t = frameTime(f.get()); vf::count("states compared");
        for (size_t i = 0; i < after.size(); i++) { where.clear(); if (same(after[i]->state(), got, where)) { if (after[i]->ft == t) return (int)i; where = vf::fmt("frame time %ld instead of %ld", t, after[i]->ft); } }
        vf::fail("state", "after %s: %s; expected %s, reported %s", request.c_str(), where.c_str(), show(after[0]->state()).c_str(), show(got).c_str()); return -1;
    }
    static string show(const M& m) { return ::show(m); }
    static string show(const string& s) { return jref::show(s); }
    void rates() {
        DashModel* d = dynamic_cast<DashModel*>(m.get()); if (!d) return;
        for (auto& x : d->rate) { DashSegmenter* s = (dynamic_cast<Dasher*>(f.get())->*reach(Segmenter()))(x.first); VF_CHECK(s && (long)s->getBitrate() == x.second, "bitrate", "reader %d has bitrate %ld instead of %ld", x.first, s ? (long)s->getBitrate() : -1, x.second); }
    }
    void run() {
        unsigned steps = (unsigned)r.range(8, c.thorough ? 120 : 40); for (int i = 0; i < 3; i++) ends();
        for (unsigned i = 0; i < steps && !vf::failed(); i++) {
            if (r.chance(1, 5)) { ends(); std::vector<std::unique_ptr<Model>> now; now.emplace_back(m->copy()); string w; compare(now, "a change of the ends", w); continue; }
            if (r.chance(1, 6)) { if (!strchr("EF", kind)) traffic(); std::vector<std::unique_ptr<Model>> now; now.emplace_back(m->copy()); string w; compare(now, "a round of frames", w); continue; }
            string a; Jzon::Object p; bool with; std::vector<std::unique_ptr<Model>> after; Request asked; string q = request(false, a, p, with, after, asked);
            if (c.verbose) printf("request %s%s\n", q.c_str(), with ? "" : " (without parameters)"); send(a, p, with, asked); string w; int n = 0;
            if (kind != 'D' && r.chance(1, 4)) { std::vector<std::unique_ptr<Model>> now; now.emplace_back(m->copy()); compare(now, "a request that waits", w); }
            f->processFrame(n); int k = compare(after, q, w); if (k < 0) return; if (c.verbose) printf("  %d of %zu: %s\n", k, after.size(), show(after[k]->state()).c_str());
            string before = show(m->state()); m = std::move(after[k]); vf::count(before == show(m->state()) ? "requests that changed nothing" : "requests carried out"); rates();
        }
    }
    // requests sent while other threads execute the filter and read its state
    void together() {
        for (int i = 0; i < 3; i++) ends();
        std::vector<std::unique_ptr<Model>> history; history.emplace_back(m->copy()); std::vector<M> states; std::vector<string> requests(1, "the start");
        struct Ev { string a; Jzon::Object p; Request asked; }; std::vector<Ev> evs; unsigned n = (unsigned)r.range(5, 40);
        for (unsigned i = 0; i < n; i++) { Ev e; bool with; std::vector<std::unique_ptr<Model>> after; requests.push_back(request(true, e.a, e.p, with, after, e.asked)); evs.push_back(e); m = std::move(after[0]); history.emplace_back(m->copy()); }
        for (auto& h : history) states.push_back(h->state()); if (c.verbose) for (size_t i = 0; i < states.size(); i++) printf("request %zu %s: %s\n", i, requests[i].c_str(), show(states[i]).c_str());
        std::atomic<bool> stop(false); std::atomic<unsigned> sent(0); std::vector<std::thread> t;
        t.emplace_back([&]() { while (!stop) { int k = 0; f->processFrame(k); vf::count("concurrent rounds"); std::this_thread::yield(); } });
        for (int o = 0; o < 2; o++) t.emplace_back([&]() {
            size_t at = 0;
            while (!stop) {
                string text = mod::state(*f); unsigned most = sent; Strict s(text); M got; if (!s.doc(got)) { vf::fail("unreadable", "the state of filter %c cannot be read: %s", kind, show(text).c_str()); return; }
                size_t k = at; string w; while (k <= most && k < states.size()) { w.clear(); if (same(states[k], got, w)) break; k++; }
                if (k > most || k >= states.size()) { w.clear(); same(states[at], got, w); vf::fail("mixture", "a state read meanwhile is none of those after requests %zu to %u: %s; %s", at, most, w.c_str(), show(got).c_str()); return; }
                if (k != at) vf::count("changes seen by other threads");
                at = k; vf::count("states read meanwhile"); std::this_thread::yield();
            } });
        for (Ev& e : evs) { sent++; send(e.a, e.p, true, e.asked); if (r.chance(1, 2)) usleep((unsigned)r.below(300)); }
        usleep(500); stop = true; for (auto& x : t) x.join();
        int k = 0; f->processFrame(k); std::vector<std::unique_ptr<Model>> now; now.emplace_back(m->copy()); string w; compare(now, "all requests, the last being " + requests.back(), w); rates(); vf::count("concurrent cases");
    }
};
void vf_init(vf::Ctx&) {
    vf::quiet(); cv::setNumThreads(1);
    rgb = new StreamInfo(VIDEO); rgb->video.codec = RAW; rgb->video.pixelFormat = RGB24; h264 = new StreamInfo(VIDEO); h264->video.codec = H264; h264->video.h264or5.annexb = true; aac = new StreamInfo(AUDIO); aac->audio.codec = AAC; aac->audio.channels = 2; aac->audio.sampleRate = 48000; aac->audio.sampleFormat = S16;
}
void vf_done(vf::Ctx&) { delete rgb; delete h264; delete aac; }
void vf_case(vf::Ctx& c) {
    Rig g(c); if (!g.f) return;
    bool t = getenv("P26_TOGETHER") || c.idx % 8 == 7; if (t) g.together(); else g.run();
    vf::distinct(g.sig.h); if (c.idx < 5) vf::sample(vf::fmt("case %llu: filter %c, last state %s", (unsigned long long)c.idx, g.kind, ::show(g.m->state()).c_str()));
}
