// P29: the demuxer against libavformat reading the same file.
//!libav headDemuxer/HeadDemuxerLibav.cpp
#include "mod.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "modules/headDemuxer/HeadDemuxerLibav.hh"
#undef AVFormatContext
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <limits>
#include <memory>
#include <unistd.h>
using mod::us;
typedef std::vector<unsigned char> Bytes;

struct Unit { Bytes data; bool timed; double pts; bool dtsKnown; double dts; };
struct Track { AVCodecID id; int kind; int rate, channels, fmt; std::vector<Unit> units; Bytes headers; };

// ---------------------------------------------------------------- files
struct Encoder {
    AVCodecContext* e = NULL; AVStream* st = NULL; AVFrame* f = NULL; int64_t next = 0, end = 0; bool video; unsigned i = 0; bool trail = false, hurt = false;
};
static bool openEncoder(vf::Rng& r, Encoder& k, const char* name, bool global, bool bf, int w, int h) {
    AVCodec* c = avcodec_find_encoder_by_name(name); if (!c) return false;
    AVCodecContext* e = k.e = avcodec_alloc_context3(c); k.video = c->type == AVMEDIA_TYPE_VIDEO; e->thread_count = 1; AVDictionary* o = NULL;
    if (k.video) {
        e->width = w; e->height = h; e->time_base = AVRational{1, 25}; e->framerate = AVRational{25, 1}; e->gop_size = (int)r.range(1, 10); e->max_b_frames = bf ? 2 : 0; e->bit_rate = (int)r.range(50, 3000) * 1000; e->pix_fmt = c->id == AV_CODEC_ID_MJPEG ? AV_PIX_FMT_YUVJ420P : AV_PIX_FMT_YUV420P; e->strict_std_compliance = -2;
        if (c->id == AV_CODEC_ID_H264) { av_dict_set(&o, "preset", "ultrafast", 0); if (!bf) av_dict_set(&o, "tune", "zerolatency", 0); std::string p = vf::fmt("slices=%d:log-level=-1:bframes=%d:aud=%d", (int)r.range(1, 4), e->max_b_frames, (int)r.below(2)); av_dict_set(&o, "x264-params", p.c_str(), 0); }
        if (c->id == AV_CODEC_ID_HEVC) { av_dict_set(&o, "preset", "ultrafast", 0); av_dict_set(&o, "x265-params", "log-level=none:pools=none:frame-threads=1:bframes=0", 0); }
        if (c->id == AV_CODEC_ID_VP8) { av_dict_set(&o, "deadline", "realtime", 0); av_dict_set(&o, "lag-in-frames", "0", 0); av_dict_set(&o, "cpu-used", "8", 0); e->max_b_frames = 0; }
        if (c->id == AV_CODEC_ID_MJPEG) e->max_b_frames = 0;
    } else {
        e->sample_rate = c->id == AV_CODEC_ID_OPUS ? 48000 : c->id == AV_CODEC_ID_PCM_MULAW ? 8000 : r.pick({44100, 48000, 32000}); av_channel_layout_default(&e->ch_layout, c->id == AV_CODEC_ID_PCM_MULAW ? 1 : (int)r.range(1, 2)); e->sample_fmt = c->sample_fmts ? c->sample_fmts[0] : AV_SAMPLE_FMT_S16; e->time_base = AVRational{1, e->sample_rate}; e->bit_rate = 96000;
    }
    if (global) e->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
    bool ok = avcodec_open2(e, c, &o) >= 0; av_dict_free(&o); if (!ok) { avcodec_free_context(&k.e); return false; }
    k.f = av_frame_alloc(); k.f->format = k.video ? (int)e->pix_fmt : (int)e->sample_fmt;
    if (k.video) { k.f->width = w; k.f->height = h; } else { k.f->nb_samples = e->frame_size ? e->frame_size : (int)r.range(100, 1500); av_channel_layout_copy(&k.f->ch_layout, &e->ch_layout); k.f->sample_rate = e->sample_rate; }
    av_frame_get_buffer(k.f, 0); return true;
}
static void writePackets(vf::Rng& r, ::AVFormatContext* m, Encoder& k, AVFrame* f, bool annexb) {
    avcodec_send_frame(k.e, f); AVPacket* p = av_packet_alloc();
    while (avcodec_receive_packet(k.e, p) >= 0) {
        if (k.trail && annexb && r.chance(1, 3)) { static const unsigned char tail[] = {0, 0, 0, 1, 0x0c, 0xff, 0x80, 0, 0, 1, 0x0b}; unsigned n = r.chance(1, 2) ? 11 : 7, o = n == 11 ? 0 : 0; int at = p->size; av_grow_packet(p, n); memcpy(p->data + at, tail + o, n); }
        if (k.hurt && r.chance(1, 4) && p->size > 4) { if (r.chance(1, 2)) for (int i = 0; i < 6; i++) p->data[r.below(p->size)] = (unsigned char)r.u64(); else for (int i = 0; i < p->size; i++) p->data[i] = (unsigned char)(1 + r.below(255)); }
        av_packet_rescale_ts(p, k.e->time_base, k.st->time_base); p->stream_index = k.st->index; if (p->size > 0) av_interleaved_write_frame(m, p); av_packet_unref(p);
    }
    av_packet_free(&p);
}
static bool makeFile(vf::Rng& r, const std::string& path, std::string& what) {
    struct Kind { const char* fmt; std::vector<const char*> video, audio; bool global; };
    static const std::vector<Kind> kinds = {
        {"mp4", {"libx264", "libx264", "libx265", "mjpeg"}, {"aac", "libmp3lame", "libopus"}, true}, {"matroska", {"libx264", "libx264", "libx265", "libvpx", "mjpeg"}, {"aac", "libmp3lame", "libopus", "pcm_s16le"}, true},
        {"mpegts", {"libx264", "libx264", "libx265"}, {"aac", "libmp3lame", "libopus"}, false}, {"avi", {"libx264", "mjpeg", "rawvideo"}, {"libmp3lame", "pcm_s16le", "pcm_mulaw"}, false}, {"flv", {"libx264"}, {"aac", "libmp3lame"}, true},
        {"h264", {"libx264"}, {}, false}, {"mov", {"libx264", "mjpeg", "rawvideo"}, {"aac", "pcm_s16le", "pcm_mulaw", "pcm_s16be"}, true}, {"webm", {"libvpx"}, {"libopus"}, true}, {"nut", {"libx264", "mjpeg", "rawvideo"}, {"pcm_s16le", "libmp3lame", "aac", "pcm_s16le_planar", "pcm_u8"}, false}, {"mp3", {}, {"libmp3lame"}, false}, {"wav", {}, {"pcm_s16le", "pcm_mulaw"}, false}, {"adts", {}, {"aac"}, false}, {"mpegts", {"libx264"}, {}, false}};
    const Kind& k = kinds[r.below(kinds.size())]; std::string fmt = k.fmt; ::AVFormatContext* m = NULL; if (avformat_alloc_output_context2(&m, NULL, k.fmt, path.c_str()) < 0) return false;
    bool single = fmt == "h264" || fmt == "mp3" || fmt == "wav" || fmt == "adts" || fmt == "flv"; unsigned nv = k.video.empty() ? 0 : single ? 1 : (unsigned)r.below(3), na = k.audio.empty() ? 0 : single ? 1 : (unsigned)r.below(3); if (nv + na == 0) { if (!k.video.empty()) nv = 1; else na = 1; }
    std::vector<Encoder> es; bool global = k.global ? true : r.chance(1, 4); bool subtitle = false; what = fmt;
    for (unsigned i = 0; i < nv + na; i++) {
        Encoder e; const char* name = i < nv ? r.pick(k.video) : r.pick(k.audio); bool big = r.chance(1, 6); bool raw = !strcmp(name, "rawvideo");
        int w = (int)r.range(8, raw ? 20 : big ? 120 : 50) * 2, h = (int)r.range(8, raw ? 20 : big ? 120 : 50) * 2; if (!strcmp(name, "libx265")) { w = std::max(w, 64); h = std::max(h, 64); }
        if (!openEncoder(r, e, name, global && fmt != "nut", r.chance(1, 3), w, h)) continue;
        e.st = avformat_new_stream(m, NULL); avcodec_parameters_from_context(e.st->codecpar, e.e); e.st->time_base = e.e->time_base; e.trail = r.chance(1, 2); e.hurt = r.chance(1, 5); es.push_back(e); what += std::string(" ") + name + (e.hurt ? "(damaged)" : "");
    }
    (void)subtitle; bool ok = !es.empty() && avio_open(&m->pb, path.c_str(), AVIO_FLAG_WRITE) >= 0 && avformat_write_header(m, NULL) >= 0;
    if (ok) {
        double len = r.range(1, 20) / 25.0; bool annexb = true; double offset = r.chance(1, 4) ? (double)r.range(1, 100000) : 0;
        for (bool more = true; more;) {
            more = false; Encoder* best = NULL; double bt = 1e18;
            for (auto& e : es) { double t = (double)e.next * e.e->time_base.num / e.e->time_base.den; if (t < len && t < bt) { bt = t; best = &e; } }
            if (!best) break; more = true; Encoder& e = *best; av_frame_make_writable(e.f); int64_t shift = (int64_t)(offset * e.e->time_base.den / e.e->time_base.num); e.f->pts = e.next + shift;
            if (e.video) { for (int p = 0; p < 3; p++) for (int y = 0; y < (p ? e.f->height / 2 : e.f->height); y++) for (int x = 0; x < (p ? e.f->width / 2 : e.f->width); x++) e.f->data[p][y * e.f->linesize[p] + x] = (uint8_t)(x * 3 + y * 5 + e.i * 11 + ((x * 7919 + y * 104729 + e.i) % 31)); e.next++; }
            else { int n = e.f->linesize[0]; for (int p = 0; p < (av_sample_fmt_is_planar((AVSampleFormat)e.f->format) ? e.f->ch_layout.nb_channels : 1); p++) { if (av_get_bytes_per_sample((AVSampleFormat)e.f->format) == 4) { float* s = (float*)e.f->extended_data[p]; for (int i = 0; i < n / 4; i++) s[i] = sinf(i * 0.05f + e.i) * 0.5f; } else for (int i = 0; i < n; i++) e.f->extended_data[p][i] = (uint8_t)(i * 3 + e.i); } e.next += e.f->nb_samples; }
            e.i++; writePackets(r, m, e, e.f, annexb);
        }
        for (auto& e : es) writePackets(r, m, e, NULL, annexb);
        ok = av_write_trailer(m) >= 0;
    }
    for (auto& e : es) { av_frame_free(&e.f); avcodec_free_context(&e.e); } if (m->pb) avio_closep(&m->pb); avformat_free_context(m); return ok;
}

// ---------------------------------------------------------------- reference
static bool codeAt(const uint8_t* b, size_t i, size_t n) { return i + 3 <= n && !b[i] && !b[i + 1] && b[i + 2] == 1; }
// the NAL units of a byte stream, without their start codes
static std::vector<Bytes> nals(const uint8_t* b, size_t n) {
    std::vector<Bytes> out; size_t i = 0; while (i < n && !codeAt(b, i, n)) i++;
    while (i < n) { size_t s = i + 3, e = s; while (e < n && !codeAt(b, e, n)) e++; size_t stop = e; if (e < n && stop > s && b[stop - 1] == 0) stop--; out.push_back(Bytes(b + s, b + stop)); i = e; }
    return out;
}
static bool readFile(const std::string& path, std::map<int, Track>& tracks, std::vector<int>& order) {
    ::AVFormatContext* f = NULL; if (avformat_open_input(&f, path.c_str(), NULL, NULL) < 0) return false; if (avformat_find_stream_info(f, NULL) < 0) { avformat_close_input(&f); return false; }
    std::map<int, AVBSFContext*> bsf; std::map<int, bool> framed; std::map<int, double> lastP, lastD;
    for (unsigned i = 0; i < f->nb_streams; i++) {
        AVCodecParameters* p = f->streams[i]->codecpar; Track& t = tracks[i]; t.id = p->codec_id; const AVCodecDescriptor* ds = avcodec_descriptor_get(p->codec_id); t.kind = ds ? ds->type : AVMEDIA_TYPE_UNKNOWN; t.rate = p->sample_rate; t.channels = p->ch_layout.nb_channels; t.fmt = p->format; t.headers.assign(p->extradata, p->extradata + p->extradata_size);
        if (p->codec_id == AV_CODEC_ID_H264 && p->extradata_size > 4) { framed[i] = true; if (p->extradata[0]) { AVBSFContext* b = NULL; av_bsf_alloc(av_bsf_get_by_name("h264_mp4toannexb"), &b); avcodec_parameters_copy(b->par_in, p); av_bsf_init(b); bsf[i] = b; } }
    }
    AVPacket* p = av_packet_alloc();
    while (av_read_frame(f, p) >= 0) {
        int i = p->stream_index; Track& t = tracks[i]; double tb = av_q2d(f->streams[i]->time_base) * 1e6; Unit u; u.timed = true; u.dtsKnown = p->dts != AV_NOPTS_VALUE; u.pts = 0; u.dts = p->dts * tb;
        if (p->pts != AV_NOPTS_VALUE) { u.pts = p->pts * tb; lastP[i] = u.pts; lastD[i] = u.dts; } else { u.timed = lastP.count(i) > 0; u.pts = lastP[i]; u.dtsKnown = false; }
        if (!framed.count(i)) { u.data.assign(p->data, p->data + p->size); t.units.push_back(u); order.push_back(i); av_packet_unref(p); continue; }
        std::vector<Bytes> us;
        if (bsf.count(i)) { if (av_bsf_send_packet(bsf[i], p) >= 0) { while (av_bsf_receive_packet(bsf[i], p) >= 0) { for (auto& n : nals(p->data, p->size)) us.push_back(n); av_packet_unref(p); } } }
        else us = nals(p->data, p->size);
        av_packet_unref(p); for (auto& n : us) { u.data = Bytes{0, 0, 0, 1}; u.data.insert(u.data.end(), n.begin(), n.end()); t.units.push_back(u); order.push_back(i); }
    }
    av_packet_free(&p); for (auto& b : bsf) av_bsf_free(&b.second); avformat_close_input(&f); return true;
}

// ---------------------------------------------------------------- the filter
template <class F> class Queue : public AVFramedQueue { public: Queue(ConnectionData c, const StreamInfo* si, unsigned n, std::function<Frame*()> mk) : AVFramedQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = mk(); } };
class Probe : public HeadDemuxerLibav {
public:
    std::map<int, unsigned> cap; std::map<int, FrameQueue*> made; std::vector<int> step() { int r = 0; return processFrame(r); }
protected:
    FrameQueue* allocQueue(ConnectionData c) {
        if (!cap.count(c.writerId)) return made[c.writerId] = HeadDemuxerLibav::allocQueue(c);
        unsigned n = cap[c.writerId]; static StreamInfo si(VIDEO); si.video.codec = H264; return made[c.writerId] = new Queue<Frame>(c, &si, 4, [n] { return InterleavedVideoFrame::createNew(H264, n); });
    }
};
void vf_init(vf::Ctx&) { av_log_set_level(AV_LOG_QUIET); }
static int wantAudio(AVCodecID id) { std::string n = avcodec_get_name(id); if (n == "pcm_alaw" || n == "pcm_mulaw") return G711; if (!n.compare(0, 5, "pcm_u")) return PCMU; if (n == "opus") return OPUS; if (!n.compare(0, 5, "pcm_s")) return PCM; if (n == "aac") return AAC; if (n == "mp3") return MP3; return AC_NONE; }
static int wantVideo(AVCodecID id) { switch (id) { case AV_CODEC_ID_H264: return H264; case AV_CODEC_ID_HEVC: return H265; case AV_CODEC_ID_VP8: return VP8; case AV_CODEC_ID_MJPEG: return MJPEG; case AV_CODEC_ID_RAWVIDEO: return RAW; default: return VC_NONE; } }

void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; std::unique_ptr<Probe> d(new Probe()); d->setId(1); uint64_t files = 0, units = 0, nalUnits = 0, tooBig = 0, untimed = 0, refused = 0, skipped = 0, verbatim = 0, other = 0, again = 0, described = 0; vf::Hash sig; std::string what;
    unsigned rounds = (unsigned)r.range(1, 3);
    for (unsigned q = 0; q < rounds && !vf::failed(); q++) {
        std::string path = c.dir + vf::fmt("/p29-%llu-%u", (unsigned long long)c.idx, q);
        if (r.chance(1, 5)) {   // an address nothing can be read from
            std::string bad = path + ".none"; if (r.chance(1, 2)) { FILE* f = fopen(bad.c_str(), "wb"); for (int i = (int)r.below(3000); i > 0; i--) fputc((int)r.below(256), f); fclose(f); }
            std::map<int, Track> t; std::vector<int> o; bool readable = readFile(bad, t, o); bool ok = d->setURI(bad); VF_CHECK(ok == readable, "unreadable", "an address %s read is %s", readable ? "that can be" : "that cannot be", ok ? "accepted" : "refused"); for (int i = 0; i < 3; i++) d->step(); if (!ok) refused++; unlink(bad.c_str());
        }
        if (!makeFile(r, path, what)) { unlink(path.c_str()); other++; continue; }
        if (r.chance(1, 8)) { int fd = open(path.c_str(), O_RDWR); off_t n = lseek(fd, 0, SEEK_END); if (r.chance(1, 2)) (void)!ftruncate(fd, n * (off_t)r.range(20, 99) / 100); else for (int i = 0; i < 4; i++) { unsigned char b = (unsigned char)r.u64(); (void)!pwrite(fd, &b, 1, (off_t)r.below(n)); } close(fd); what += " cut"; }
        std::map<int, Track> tracks; std::vector<int> order; if (!readFile(path, tracks, order)) { unlink(path.c_str()); other++; continue; }
        if (r.chance(1, 2)) VF_CHECK(d->setURI(path), "open", "%s is refused", what.c_str());
        else { Jzon::Object p; p.Add("uri", path); mod::event(*d, "configure", p); d->step(); }
        std::string st = mod::state(*d); std::string list; for (auto& t : tracks) { if (!list.empty()) list += ","; bool v = t.second.kind == AVMEDIA_TYPE_VIDEO, a = t.second.kind == AVMEDIA_TYPE_AUDIO; list += vf::fmt("{\"wId\":%d,\"type\":%d", t.first, v ? VIDEO : a ? AUDIO : ST_NONE); if (v) list += vf::fmt(",\"codec\":%d}", wantVideo(t.second.id)); else if (a) { int k = wantAudio(t.second.id); list += vf::fmt(",\"codec\":%d", k); list += k == G711 ? ",\"sampleRate\":8000,\"channels\":1," : vf::fmt(",\"sampleRate\":%d,\"channels\":%d,", t.second.rate, t.second.channels); size_t at = st.find(vf::fmt("{\"wId\":%d,", t.first)); size_t sf = at == std::string::npos ? at : st.find("\"sampleFormat\":", at); if (sf != std::string::npos) list += st.substr(sf, st.find('}', sf) - sf + 1); else list += "?"; } else list += "}"; }
        VF_CHECK(st.find("\"streams\":[" + list + "]") != std::string::npos, "state", "%s: the state %s does not list %s", what.c_str(), st.c_str(), list.c_str());
        std::map<int, std::unique_ptr<mod::Catch>> sinks; std::map<int, size_t> at; std::map<int, unsigned> cap; int id = 100; d->cap.clear(); d->made.clear(); int last = -1; int64_t lastPts = 0;
        std::map<int, std::vector<Unit>> want;
        if (r.chance(1, 4)) { mod::Catch none; none.setId(99); int odd = r.pick({77, -3, (int)tracks.size()}); VF_CHECK(!d->connectManyToOne(&none, odd), "unknown-stream", "stream %d of %zu was connected", odd, tracks.size()); }
        for (auto& t : tracks) {
            if (r.chance(1, 5)) { skipped++; continue; } int w = t.first; bool own = r.chance(1, 2); size_t big = 0; for (auto& u : t.second.units) big = std::max(big, u.data.size());
            int vk = wantVideo(t.second.id), ak = wantAudio(t.second.id); bool queueable = t.second.kind == AVMEDIA_TYPE_VIDEO ? vk == H264 || vk == H265 || vk == VP8 : t.second.kind == AVMEDIA_TYPE_AUDIO && ak != AC_NONE;
            if (!queueable) own = true; if (own) d->cap[w] = r.chance(1, 3) ? (unsigned)r.range(4, std::max<int64_t>(5, big + 8)) : (unsigned)big + 4;
            auto& s = sinks[w]; s.reset(new mod::Catch()); s->setId(id++); bool ok = d->connectManyToOne(s.get(), w); if (!ok) { VF_CHECK(!own && !queueable, "connect", "%s: stream %d cannot be connected", what.c_str(), w); sinks.erase(w); d->cap.erase(w); continue; }
            Frame* rear = d->made[w]->getRear(); cap[w] = rear ? rear->getMaxLength() : 0; bool planar = rear && !rear->getDataBuf();
            for (auto& u : t.second.units) { if (planar || u.data.size() > cap[w]) { tooBig++; continue; } want[w].push_back(u); }
            s->got = [&, w](int, Frame* f) {
                size_t i = at[w]++; VF_CHECK(i < want[w].size(), "extra", "%s: stream %d has %zu units, another of %u bytes came out", what.c_str(), w, want[w].size(), f->getLength()); if (i >= want[w].size()) return;
                Unit& u = want[w][i]; VF_CHECK(f->getLength() == u.data.size() && (u.data.empty() || !memcmp(f->getDataBuf(), u.data.data(), u.data.size())), "data", "%s: unit %zu of stream %d (%u bytes) is not the one of the file (%zu bytes)", what.c_str(), i, w, f->getLength(), u.data.size());
                double p = (double)f->getPresentationTime().count(), dt = (double)f->getDecodeTime().count(); if (u.timed) VF_CHECK(fabs(p - u.pts) <= 2, "time", "%s: unit %zu of stream %d shows at %.0f, expected %.0f", what.c_str(), i, w, p, u.pts); else { untimed++; }
                if (u.timed && u.dtsKnown) VF_CHECK(fabs(dt - u.dts) <= 2, "decode-time", "%s: unit %zu of stream %d decodes at %.0f, expected %.0f", what.c_str(), i, w, dt, u.dts);
                units++; if (tracks[w].id == AV_CODEC_ID_H264) nalUnits++; else verbatim++; sig.add((uint64_t)w).add((uint64_t)u.data.size()); (void)last; (void)lastPts;
            };
        }
        unsigned quiet = 0; for (unsigned i = 0; quiet < 40 + order.size() && i < order.size() * 3 + 200 && !vf::failed(); i++) { size_t before = units; d->step(); for (auto& s : sinks) s.second->step(); quiet = units == before ? quiet + 1 : 0; if (r.chance(1, 300)) break; }
        bool whole = quiet >= 40 + order.size();
        if (r.chance(1, 4) && !vf::failed()) {   // the address is given again (the connections stay): everything comes once more
            for (auto& s : at) s.second = 0; VF_CHECK(d->setURI(path), "open", "%s is refused the second time", what.c_str()); again++; quiet = 0;
            for (unsigned i = 0; quiet < 40 + order.size() && i < order.size() * 3 + 200 && !vf::failed(); i++) { size_t before = units; d->step(); for (auto& s : sinks) s.second->step(); quiet = units == before ? quiet + 1 : 0; }
            whole = quiet >= 40 + order.size();
        }
        for (auto& s : sinks) if (!d->cap.count(s.first)) {   // what the queue tells the next filter about the stream
            const StreamInfo* si = d->made[s.first]->getStreamInfo(); Track& t = tracks[s.first]; described++; bool same = si && si->extradata_size == (int)t.headers.size() && (t.headers.empty() || !memcmp(si->extradata, t.headers.data(), t.headers.size()));
            VF_CHECK(same, "headers", "%s: the description of stream %d does not carry its %zu bytes of parameters", what.c_str(), s.first, t.headers.size());
        }
        if (whole) for (auto& s : sinks) VF_CHECK(at[s.first] == want[s.first].size(), "missing", "%s: %zu of the %zu units of stream %d came out", what.c_str(), at[s.first], want[s.first].size(), s.first);
        for (auto& s : sinks) VF_CHECK(d->disconnectWriter(s.first), "disconnect", "stream %d", s.first);
        sinks.clear(); unlink(path.c_str()); files++; if (!r.chance(3, 4)) { d.reset(new Probe()); d->setId(1); }
    }
    d.reset(); vf::count("files read", files); vf::count("units compared", units); vf::count("NAL units compared", nalUnits); vf::count("packets compared", verbatim); vf::count("units that do not fit", tooBig); vf::count("units without a time", untimed); vf::count("addresses refused", refused); vf::count("streams left unconnected", skipped); vf::count("addresses given again", again); vf::count("descriptions compared", described); vf::count("files that could not be made", other); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %s, %llu units compared", (unsigned long long)c.idx, what.c_str(), (unsigned long long)units));
}
