// P25, its own workload: real filters of every kind that can be built are created, connected in any combination (also ones
// that make no sense, such as sound into a scaler), shared, configured, fed, disconnected and deleted in any order.  Run as a
// life cycle by the leak monitor (leak.hh) under AddressSanitizer.
#include "mod.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "AudioCircularBuffer.hh"
#include "SlicedVideoFrameQueue.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include "modules/dasher/Dasher.hh"
#include "modules/sharedMemory/SharedMemory.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include "modules/videoMixer/VideoMixer.hh"
#include "modules/videoResampler/VideoResampler.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <opencv2/core.hpp>
using mod::us;

static const unsigned CAP = 96 * 96 * 4;
static StreamInfo* info(char kind) {
    static StreamInfo rgb(VIDEO), h264(VIDEO), h265(VIDEO), aac(AUDIO), pcm(AUDIO);
    rgb.video.codec = RAW; rgb.video.pixelFormat = RGB24; h264.video.codec = H264; h264.video.h264or5.annexb = true;
    h265.video.codec = H265; h265.video.h264or5.annexb = true; aac.audio.codec = AAC; aac.audio.channels = 2; aac.audio.sampleRate = 48000;
    pcm.audio.codec = PCM; pcm.audio.channels = 2; pcm.audio.sampleRate = 48000; pcm.audio.sampleFormat = FLTP;
    switch (kind) { case 'n': return &h264; case 'N': return &h265; case 'c': return &aac; case 'a': return &pcm; default: return &rgb; }
}
class Pictures : public VideoFrameQueue {
public:
    Pictures(ConnectionData c, const StreamInfo* s) : VideoFrameQueue(c, s, 4) {
        for (unsigned i = 0; i < max; i++) { frames[i] = InterleavedVideoFrame::createNew(s->video.codec, CAP); memset(frames[i]->getDataBuf(), 0, CAP); }
    }
};
class Sounds : public AudioFrameQueue {
public:
    Sounds(ConnectionData c, const StreamInfo* s) : AudioFrameQueue(c, s, 8) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(2, 48000, 1024, AAC, S16); }
};

// A source of one kind of frames: v pictures, a sound, c AAC, n and N units of H.264 and H.265
class Source : public mod::Feed {
public:
    char kind; vf::Rng rng; std::map<int, uint64_t> n;
    Source(char k, uint64_t seed) : kind(k), rng(seed, 5) {
        mk = [this](ConnectionData c) -> FrameQueue* {
            if (kind == 'a') return AudioCircularBuffer::createNew(c, 2, 48000, 100, FLTP);
            if (kind == 'c') return new Sounds(c, info('c'));
            return new Pictures(c, info(kind));
        };
        fill = [this](int w, Frame* f) { return make(w, f); };
    }
    bool make(int w, Frame* f) {
        uint64_t k = n[w]++; VideoFrame* v = dynamic_cast<VideoFrame*>(f); AudioFrame* a = dynamic_cast<AudioFrame*>(f);
        if (kind == 'v' && v) {
            static const PixType formats[] = {RGB24, YUV420P, RGB24, YUV420P, YUV422P, YUV444P, RGB32, P_NONE};
            int W = rng.chance(1, 12) ? (int)rng.range(0, 90) : 64, H = rng.chance(1, 12) ? (int)rng.range(0, 90) : 48; PixType p = formats[(kindOf + (rng.chance(1, 20) ? rng.below(8) : 0)) % 8];
            v->setSize(W, H); v->setPixelFormat(p); unsigned len = p == RGB32 ? W * H * 4 : p == YUV420P ? W * H * 3 / 2 : p == YUV422P ? W * H * 2 : W * H * 3;
            v->setLength(std::min(len, CAP)); memset(v->getDataBuf(), (int)(k * 7), std::min(len, CAP));
        } else if (v) {
            unsigned char* d = v->getDataBuf(); unsigned len = (unsigned)rng.range(0, 300); d[0] = d[1] = d[2] = 0; d[3] = 1;
            static const unsigned char h264[] = {9, 0x67, 0x68, 0x65, 0x41, 0x06}; static const unsigned char h265[] = {70, 64, 66, 68, 38, 2};
            d[4] = kind == 'n' ? h264[rng.below(6)] : h265[rng.below(6)]; for (unsigned i = 5; i < len; i++) d[i] = (unsigned char)rng.below(256);
            v->setLength(len); v->setSize(64, 48); v->setSequenceNumber(k / 3);
        } else if (kind == 'a') {
            a->setChannels(2); a->setSampleRate(48000); a->setSamples(480); a->setLength(480 * 4); for (int c = 0; c < 2; c++) memset(a->getPlanarDataBuf()[c], 0, 480 * 4);
        } else {
            unsigned len = (unsigned)rng.range(0, 200); unsigned char* d = a->getDataBuf(); d[0] = 0xFF; d[1] = 0xF1; d[2] = 0x4C; d[3] = 0x80; for (unsigned i = 4; i < len; i++) d[i] = (unsigned char)i;
            a->setLength(len); a->setSampleRate(48000); a->setChannels(2); a->setSamples(1024);
        }
        int64_t step = kind == 'a' ? 10000 : kind == 'c' ? 21333 : 300000; f->setPresentationTime(us((int64_t)k * step)); f->setDecodeTime(us((int64_t)k * step)); return true;
    }
    unsigned kindOf = 0;
};

struct Life {
    vf::Rng& r; std::string dir; std::map<int, std::pair<char, BaseFilter*>> f; int next = 1; vf::Hash sig;
    Life(vf::Ctx& c) : r(c.rng), dir(c.dir + "/life") { mkdir(dir.c_str(), 0700); }
    ~Life() {
        while (!f.empty()) { auto it = f.begin(); std::advance(it, r.below(f.size())); delete it->second.second; f.erase(it); }
        if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
        rmdir(dir.c_str());
    }
    void create() {
        char k = r.pick({'v', 'v', 'v', 'a', 'c', 'n', 'N', 't', 't', 'R', 'M', 'P', 'X', 'E', 'F', 'D', 'h'}); BaseFilter* b = NULL;
        switch (k) {
        case 't': b = new mod::Catch(r.chance(1, 2)); break;
        case 'R': b = new VideoResampler(); break;
        case 'M': b = r.chance(1, 8) ? VideoMixer::createNew((int)r.range(-1, 3), (int)r.range(-5, 80), (int)r.range(-5, 80)) : VideoMixer::createNew(4, 64, 48); break;
        case 'P': b = VideoSplitter::createNew(us(r.pick({0, 0, 40000, -5}))); break;
        case 'X': b = new AudioMixer(4); break;
        case 'E': b = new VideoEncoderX264(); break;
        case 'F': b = new VideoEncoderX265(); break;
        case 'D': b = new Dasher(); break;
        case 'h': b = r.chance(1, 10) ? SharedMemory::createNew((size_t)(getpid() * 64 + next % 64 + 1), VP8) : SharedMemory::createNew((size_t)(getpid() * 64 + r.range(1, 5)), r.chance(1, 2) ? RAW : H264); break;
        default: { Source* s = new Source(k, r.u64()); s->kindOf = (unsigned)r.below(8); b = s; }
        }
        if (!b) { vf::count("creations refused"); return; }
        b->setId(next); f[next++] = std::make_pair(k, b); vf::count("filters created"); sig.add(k); if (r.chance(2, 3)) configure(next - 1);
    }
    static bool sensible(char from, char to) {
        static const std::map<char, std::string> takes = {{'R', "vMPRh"}, {'M', "vRMPh"}, {'P', "vRMh"}, {'E', "vRRRR"}, {'F', "vRRRR"}, {'D', "EFcnNh"}, {'h', "vRMPn"}, {'X', "aX"}, {'t', "vacnNRMPXEFh"}};
        auto it = takes.find(to); return it != takes.end() && it->second.find(from) != std::string::npos;
    }
    int any() { auto it = f.begin(); std::advance(it, r.below(f.size())); return it->first; }
    int val(std::initializer_list<int> usual) { return r.chance(1, 12) ? (int)r.range(-200, 3000) : r.pick(usual); }
    void configure(int id) {
        Jzon::Object p; const char* a = "configure"; int end = (int)r.range(1, 4);
        switch (f[id].first) {
        case 'R': p.Add("width", val({0, 32, 64})); p.Add("height", val({0, 32, 48})); p.Add("pixelFormat", val({0, 2, 2})); p.Add("fps", 0); break;
        case 'M': if (r.chance(1, 3)) { p.Add("width", val({64, 80})); p.Add("height", val({48, 64})); } else { a = "configChannel"; p.Add("id", end); p.Add("width", 0.5); p.Add("height", 0.7); p.Add("x", 0.1); p.Add("y", 0.2); p.Add("layer", val({0, 1})); p.Add("enabled", r.chance(3, 4)); p.Add("opacity", r.pick({1.0, 0.5})); } break;
        case 'P': a = "configCrop"; p.Add("id", end); p.Add("width", val({8, 32})); p.Add("height", val({8, 32})); p.Add("x", val({0, 8})); p.Add("y", val({0, 4})); p.Add("degree", 0); break;
        case 'X': a = r.pick({"changeChannelGain", "muteChannel", "soloChannel", "changeMasterGain", "muteMaster"}); p.Add("id", end); p.Add("gain", r.pick({0.0, 0.5, 2.0})); break;
        case 'E': case 'F': if (r.chance(1, 4)) a = "forceIntra"; else { p.Add("bitrate", val({100, 500})); p.Add("fps", val({0, 25})); p.Add("gop", val({5, 12})); p.Add("lookahead", val({0, 2, 6})); p.Add("bframes", f[id].first == 'F' ? val({0, 1}) : val({0, 0, 2})); p.Add("threads", val({1, 2})); p.Add("annexb", r.chance(2, 3)); p.Add("preset", r.chance(1, 12) ? "none such" : "ultrafast"); } break;
        case 'D': if (r.chance(1, 3)) { a = "setBitrate"; p.Add("id", end); p.Add("bitrate", val({1000})); } else { p.Add("folder", r.chance(1, 10) ? dir + "/none" : dir); p.Add("baseName", "s" + std::to_string(id)); p.Add("segDurInSec", val({1, 2})); p.Add("maxSeg", val({2, 4})); p.Add("minBuffTime", val({1})); } break;
        default: return;
        }
        if (r.chance(1, 20)) a = "nonsense"; mod::event(*f[id].second, a, p, !r.chance(1, 20)); vf::count("configurations");
    }
    void step() {
        if (f.size() < 3) { create(); return; }
        unsigned x = (unsigned)r.below(100); int a = any(), b = any(); BaseFilter *p = f[a].second, *q = f[b].second;
        if (x < 15) { if (f.size() < 7) create(); }
        else if (x < 35) {
            if (r.chance(3, 4)) for (int i = 0; i < 20 && !sensible(f[a].first, f[b].first); i++) { a = any(); b = any(); }
            if (a == b) return; p = f[a].second; q = f[b].second; int w = (int)r.range(1, 4), e = (int)r.range(1, 4); bool ok;
            switch (r.below(4)) { case 0: ok = p->connectOneToOne(q); break; case 1: ok = p->connectManyToOne(q, w); break; case 2: ok = p->connectOneToMany(q, e); break; default: ok = p->connectManyToMany(q, e, w); }
            vf::count(ok ? "connections" : "connections refused"); sig.add((uint64_t)f[a].first * 512 + f[b].first * 2 + ok);
        }
        else if (x < 40) { for (int i = 0; i < 20 && (a == b || strchr("vacnN", f[a].first)); i++) { a = any(); b = any(); p = f[a].second; q = f[b].second; } if (a != b) vf::count(p->shareReader(q, (int)r.range(1, 4), (int)r.range(1, 4)) ? "readers shared" : "sharings refused"); }
        else if (x < 42) vf::count(p->disconnectReader((int)r.range(0, 4)) ? "readers disconnected" : "disconnections refused");
        else if (x < 45) vf::count(p->disconnectWriter((int)r.range(0, 4)) ? "writers disconnected" : "disconnections refused");
        else if (x < 52) configure(a);
        else if (x < 55) mod::state(*p);
        else if (x < 59) { delete p; f.erase(a); vf::count("filters deleted in mid-life"); }
        else for (int i = 0; i < 3; i++) for (auto& y : f) { int ret = 0; y.second.second->processFrame(ret); vf::count("rounds"); }
    }
};
void vf_init(vf::Ctx&) { vf::quiet(); cv::setNumThreads(1); av_log_set_level(AV_LOG_QUIET); for (char k : {'v', 'n'}) info(k); }
void vf_case(vf::Ctx& c) {
    Life l(c); unsigned steps = (unsigned)c.rng.range(10, 70); for (unsigned i = 0; i < steps; i++) l.step(); vf::distinct(l.sig.h);
}
