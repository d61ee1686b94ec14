// P28: the video decoder against libavcodec fed directly.
//!libav videoDecoder/VideoDecoderLibav.cpp
#include "mod.hh"
#include "json_ref.hh"
#include "VideoFrame.hh"
#include "modules/videoDecoder/VideoDecoderLibav.hh"
#include <algorithm>
#include <limits>
#include <memory>
using mod::us;
typedef std::chrono::system_clock Clock;
typedef std::vector<unsigned char> Bytes;

static StreamInfo codedInfo(VIDEO), rawInfo(VIDEO);

struct Packet { Bytes data; int64_t pts; };
struct Picture { int64_t pts; int w, h, fmt; Bytes data; };
struct Stream { VCodecType codec; std::vector<Packet> packets; std::vector<Picture> expected; Bytes headers; bool reordered; int w, h, gop; };

static PixType named(int f) {
    switch (f) {
        case AV_PIX_FMT_RGB24: return RGB24;
        case AV_PIX_FMT_RGB32: return RGB32;
        case AV_PIX_FMT_YUYV422: return YUYV422;
        case AV_PIX_FMT_YUV420P: return YUV420P;
        case AV_PIX_FMT_YUV422P: return YUV422P;
        case AV_PIX_FMT_YUV444P: return YUV444P;
        case AV_PIX_FMT_YUVJ420P: return YUVJ420P;
        default: return P_NONE;
    }
}
static AVCodecID idOf(VCodecType c) { return c == H264 ? AV_CODEC_ID_H264 : c == H265 ? AV_CODEC_ID_HEVC : c == VP8 ? AV_CODEC_ID_VP8 : AV_CODEC_ID_MJPEG; }

static void collect(AVCodecContext* d, AVFrame* f, std::vector<Picture>& out) {
    while (avcodec_receive_frame(d, f) >= 0) {
        Picture p; p.pts = f->pts; p.w = f->width; p.h = f->height; p.fmt = f->format;
        int n = av_image_get_buffer_size((AVPixelFormat)p.fmt, p.w, p.h, 1);
        p.data.resize(n); av_image_copy_to_buffer(p.data.data(), n, f->data, f->linesize, (AVPixelFormat)p.fmt, p.w, p.h, 1);
        out.push_back(p);
    }
}
// what a decoder with the same settings gives for the packets, without being told that the stream ends; it goes on with the next
// stream of the codec, as the filter does
struct Reference {
    AVCodecContext* d = NULL; AVFrame* f = av_frame_alloc(); AVPacket* p = av_packet_alloc();
    ~Reference() { close(); av_frame_free(&f); av_packet_free(&p); }
    void close() { avcodec_free_context(&d); }
    void run(Stream& s) {
        if (!d) {
            AVCodec* c = avcodec_find_decoder(idOf(s.codec)); d = avcodec_alloc_context3(c);
            d->flags2 |= AV_CODEC_FLAG2_CHUNKS; if (c->capabilities & AV_CODEC_CAP_SLICE_THREADS) { d->thread_count = 0; d->thread_type = FF_THREAD_SLICE; }
            if (!s.headers.empty()) { d->extradata = (uint8_t*)av_mallocz(s.headers.size() + 64); memcpy(d->extradata, s.headers.data(), s.headers.size()); d->extradata_size = s.headers.size(); }
            if (avcodec_open2(d, c, NULL) < 0) { vf::fail("reference", "no decoder"); return; }
        }
        for (auto& k : s.packets) { av_new_packet(p, k.data.size()); memcpy(p->data, k.data.data(), k.data.size()); p->pts = k.pts; avcodec_send_packet(d, p); av_packet_unref(p); collect(d, f, s.expected); }
    }
};
static void splitNals(const Bytes& d, int64_t pts, std::vector<Packet>& out) {
    std::vector<size_t> at;
    for (size_t i = 0; i + 3 < d.size(); i++) if (!d[i] && !d[i + 1] && (d[i + 2] == 1 || (!d[i + 2] && d[i + 3] == 1))) { at.push_back(i); i += 2; }
    for (size_t k = 0; k < at.size(); k++) { size_t e = k + 1 < at.size() ? at[k + 1] : d.size(); out.push_back(Packet{Bytes(d.begin() + at[k], d.begin() + e), pts}); }
}
static Stream encode(vf::Rng& r, VCodecType codec, int w, int h, unsigned n, int64_t base, bool nals, bool bframes, bool apart) {
    Stream s; s.codec = codec; s.reordered = bframes; s.w = w; s.h = h;
    const char* names[] = {"libx264", "libx265", "libvpx", "mjpeg"}; AVCodec* c = avcodec_find_encoder_by_name(names[codec]);
    if (!c) { vf::fail("reference", "no encoder %s", names[codec]); return s; }
    AVCodecContext* e = avcodec_alloc_context3(c); e->width = w; e->height = h; e->time_base = AVRational{1, 1000000}; e->framerate = AVRational{25, 1}; e->gop_size = s.gop = (int)r.range(1, 12); e->bit_rate = (int)r.range(100, 4000) * 1000; e->max_b_frames = bframes ? (int)r.range(1, 3) : 0; e->thread_count = 1;
    e->pix_fmt = codec == MJPEG ? AV_PIX_FMT_YUVJ420P : AV_PIX_FMT_YUV420P;
    if (codec == H264) e->pix_fmt = r.pick({AV_PIX_FMT_YUV420P, AV_PIX_FMT_YUV420P, AV_PIX_FMT_YUV422P, AV_PIX_FMT_YUV444P, AV_PIX_FMT_YUVJ420P});
    if (apart) e->flags |= AV_CODEC_FLAG_GLOBAL_HEADER; AVDictionary* o = NULL;
    if (codec == H264) { av_dict_set(&o, "preset", r.chance(1, 2) ? "ultrafast" : "veryfast", 0); if (!bframes) av_dict_set(&o, "tune", "zerolatency", 0); std::string p = vf::fmt("slices=%d:log-level=-1:bframes=%d", (int)r.range(1, 4), e->max_b_frames); av_dict_set(&o, "x264-params", p.c_str(), 0); }
    if (codec == H265) { av_dict_set(&o, "preset", "ultrafast", 0); if (!bframes) av_dict_set(&o, "tune", "zerolatency", 0); std::string p = vf::fmt("log-level=none:pools=none:frame-threads=1:bframes=%d", e->max_b_frames); av_dict_set(&o, "x265-params", p.c_str(), 0); }
    if (codec == VP8) { av_dict_set(&o, "deadline", "realtime", 0); av_dict_set(&o, "lag-in-frames", "0", 0); av_dict_set(&o, "cpu-used", "8", 0); e->max_b_frames = 0; s.reordered = false; }
    if (codec == MJPEG) { e->strict_std_compliance = -2; s.reordered = false; e->max_b_frames = 0; e->gop_size = 0; }
    if (avcodec_open2(e, c, &o) < 0) { av_dict_free(&o); avcodec_free_context(&e); vf::fail("reference", "encoder %s refuses %dx%d", names[codec], w, h); return s; }
    if (apart) s.headers.assign(e->extradata, e->extradata + e->extradata_size); av_dict_free(&o); AVFrame* f = av_frame_alloc(); f->width = w; f->height = h; f->format = e->pix_fmt; av_frame_get_buffer(f, 0); AVPacket* p = av_packet_alloc();
    int64_t pts = base; uint64_t z = r.u64(); unsigned style = (unsigned)r.below(3);
    for (unsigned i = 0; i <= n; i++) {
        if (i < n) {
            av_frame_make_writable(f);
            for (int k = 0; k < 3; k++) { int pw = k ? AV_CEIL_RSHIFT(w, e->pix_fmt == AV_PIX_FMT_YUV444P ? 0 : 1) : w, ph = k ? AV_CEIL_RSHIFT(h, e->pix_fmt == AV_PIX_FMT_YUV422P || e->pix_fmt == AV_PIX_FMT_YUV444P ? 0 : 1) : h;
                for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) { if (style == 2) { z = z * 6364136223846793005ull + 1442695040888963407ull; f->data[k][y * f->linesize[k] + x] = (uint8_t)(z >> 56); } else f->data[k][y * f->linesize[k] + x] = (uint8_t)(style ? 40 * k + 17 * i + (x / 4) * 3 : x * 5 + y * 3 + 29 * i); } }
            f->pts = pts; pts += r.range(1000, 80000);
        }
        avcodec_send_frame(e, i < n ? f : NULL);
        while (avcodec_receive_packet(e, p) >= 0) { Bytes d(p->data, p->data + p->size); if (nals && codec <= H265) splitNals(d, p->pts, s.packets); else s.packets.push_back(Packet{d, p->pts}); av_packet_unref(p); }
    }
    av_frame_free(&f); av_packet_free(&p); avcodec_free_context(&e); return s;
}

class Coded : public InterleavedVideoFrame { public: Coded(VCodecType c, unsigned n) : InterleavedVideoFrame(c, n) {} VCodecType& c() { return codec; } };
template <class F> class Queue : public AVFramedQueue { public: Queue(ConnectionData c, const StreamInfo* si, unsigned n, unsigned cap, VCodecType k) : AVFramedQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = new F(k, cap); } };
class Probe : public VideoDecoderLibav { public: unsigned cap = 0; std::vector<int> step() { int r = 0; return processFrame(r); } private: FrameQueue* allocQueue(ConnectionData c) { return new Queue<Coded>(c, &rawInfo, 3, cap, RAW); } };

void vf_init(vf::Ctx&) { av_log_set_level(AV_LOG_QUIET); codedInfo.video.codec = H264; codedInfo.setCodecDefaults(); rawInfo.video.codec = RAW; rawInfo.video.pixelFormat = RGB24; }

void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; const unsigned IN = 400000;
    codedInfo.setExtraData(NULL, 0); std::unique_ptr<Probe> dec(new Probe()); dec->cap = r.chance(1, 3) ? (unsigned)r.range(300, 40000) : 160 * 160 * 3;
    mod::Feed feed; mod::Catch sink; feed.setId(1); dec->setId(2); sink.setId(3);
    feed.mk = [&](ConnectionData d) { return new Queue<Coded>(d, &codedInfo, 3, IN, H264); };
    VF_CHECK(feed.connectOneToOne(dec.get()) && dec->connectOneToOne(&sink), "connect", "refused");
    VCodecType now = H264; const Packet* cur = NULL; Frame* coded = NULL; int prevW = 0, prevH = 0; Clock::time_point org; uint64_t fed = 0, clean = 0, damaged = 0, foreign = 0, nofit = 0, recovered = 0, lost = 0, described = 0, reordered = 0, late = 0, sent = 0; vf::Hash sig; int64_t base = (int64_t)r.below(1ull << 40); int shownW = 0, shownH = 0; std::map<int, uint64_t> perCodec;
    std::vector<Picture> got; feed.fill = [&](int, Frame* f) { Coded* v = dynamic_cast<Coded*>(f); v->c() = now; size_t n = std::min<size_t>(cur->data.size(), IN); if (n) memcpy(f->getDataBuf(), cur->data.data(), n); f->setLength(n); f->setPresentationTime(us(cur->pts)); f->setDecodeTime(us(cur->pts)); coded = f; return true; };
    Reference ref; uint64_t lastSeq = 0; bool anySeq = false;
    sink.got = [&](int, Frame* f) {
        VideoFrame* v = dynamic_cast<VideoFrame*>(f); Picture p; p.pts = f->getPresentationTime().count(); p.w = v->getWidth(); p.h = v->getHeight(); p.fmt = v->getPixelFormat(); unsigned n = f->getLength();
        VF_CHECK(n <= f->getMaxLength(), "bounds", "a picture of %u bytes in a buffer of %u", n, f->getMaxLength()); if (n > f->getMaxLength()) return;
        VF_CHECK(!anySeq || f->getSequenceNumber() > lastSeq, "sequence", "picture number %zu after number %llu", f->getSequenceNumber(), (unsigned long long)lastSeq); lastSeq = f->getSequenceNumber(); anySeq = true;
        VF_CHECK(f->getOriginTime() == coded->getOriginTime() && f->getSequenceNumber() == coded->getSequenceNumber(), "origin", "picture number %zu after coded frame number %zu, or another origin time", f->getSequenceNumber(), coded->getSequenceNumber());
        p.data.assign(f->getDataBuf(), f->getDataBuf() + n); got.push_back(p); shownW = p.w; shownH = p.h;
    };
    auto feedOne = [&](const Packet& p, VCodecType codec) { now = codec; cur = &p; feed.step(); dec->step(); sink.step(); sent++; };
    unsigned rounds = (unsigned)r.range(2, c.thorough ? 12 : 5); VCodecType last = VC_NONE; bool dirty = false;
    for (unsigned q = 0; q < rounds && !vf::failed(); q++) {
        VCodecType codec = r.pick({H264, H264, H264, H265, VP8, MJPEG}); int w = (int)r.range(8, 80) * 2, h = (int)r.range(8, 80) * 2; if (prevW && r.chance(1, 4)) { w = prevW; if (r.chance(1, 3)) h = prevH; } if (codec == H265) { w = std::max(w, 64); h = std::max(h, 64); } prevW = w; prevH = h; unsigned n = (unsigned)r.range(1, codec == H265 ? 6 : 14); bool nals = r.chance(1, 2), bf = r.chance(1, 3), apart = codec <= H265 && r.chance(1, 5);
        base += 10000000; Stream s = encode(r, codec, w, h, n, base, nals, bf, apart); if (vf::failed()) return;
        base = s.packets.back().pts + 1000000; for (auto& k : s.packets) base = std::max(base, k.pts + 1000000);
        // in between: packets of codecs that cannot be decoded, and damaged ones
        if (r.chance(1, 4)) { Packet p; p.pts = base; p.data.resize(r.range(0, 300)); for (auto& b : p.data) b = (unsigned char)r.u64(); size_t before = got.size(); VCodecType odd = r.pick({VC_NONE, RAW}); unsigned k = (unsigned)r.range(1, 3); while (k--) feedOne(p, odd); VF_CHECK(got.size() == before, "undecodable", "a picture came out of data that no decoder exists for"); foreign++; last = odd; }
        if (apart || codedInfo.extradata) {   // parameter sets that the description of the stream carries: the decoder has to be set up again
            Packet p; p.pts = base; p.data.resize(9); feedOne(p, RAW); last = RAW; codedInfo.setExtraData(s.headers.empty() ? NULL : s.headers.data(), s.headers.size()); if (apart) described++;
        }
        if (last != codec) dirty = false; if (last != codec || dirty) ref.close(); bool damage = r.chance(1, 4); size_t from = got.size();
        if (!damage) ref.run(s);
        if (damage) {
            for (auto& k : s.packets) {
                Packet p = k; unsigned kind = (unsigned)r.below(8);
                if (kind == 0) continue;
                if (kind == 1 && !p.data.empty()) p.data.resize(r.below(p.data.size()));
                if (kind == 2) for (int i = 0; i < 5 && !p.data.empty(); i++) p.data[r.below(p.data.size())] ^= (unsigned char)(1 << r.below(8));
                if (kind == 3) { size_t at = r.below(p.data.size() + 1); Bytes x(r.below(200)); for (auto& b : x) b = (unsigned char)r.u64(); p.data.insert(p.data.begin() + at, x.begin(), x.end()); }
                if (kind == 4) for (auto& b : p.data) b = (unsigned char)r.u64();
                feedOne(p, codec);
            }
            damaged++; last = codec; dirty = true;
            for (size_t i = from; i < got.size() && !vf::failed(); i++) { Picture& p = got[i]; int fmt = -1; for (int f : {AV_PIX_FMT_YUV420P, AV_PIX_FMT_YUV422P, AV_PIX_FMT_YUV444P, AV_PIX_FMT_YUVJ420P}) if (named(f) == p.fmt) fmt = f; if (fmt < 0) continue; int n = av_image_get_buffer_size((AVPixelFormat)fmt, p.w, p.h, 1); VF_CHECK((int)p.data.size() == n, "shape", "a picture of %dx%d format %d in %zu bytes, expected %d", p.w, p.h, p.fmt, p.data.size(), n); }
            continue;
        }
        for (auto& k : s.packets) feedOne(k, codec);
        // what came out belongs to this stream (or to the one before, when the decoder was not changed)
        std::vector<Picture> want; for (auto& p : s.expected) if (p.data.size() <= dec->cap) want.push_back(p); else nofit++;
        std::vector<Picture> have(got.begin() + from, got.end()); int64_t first = s.packets[0].pts; for (auto& k : s.packets) first = std::min(first, k.pts);
        if (dirty) {   // the decoder may still hold parts of the damaged stream: what it gives of this one is right, after a while
            size_t old = 0; while (old < have.size() && have[old].pts < first) old++; late += old; size_t j = 0, right = 0;
            for (size_t i = old; i < have.size() && !vf::failed(); i++) { while (j < want.size() && want[j].pts < have[i].pts) j++; VF_CHECK(j < want.size() && want[j].pts == have[i].pts, "time-later", "a picture shows at %lld, no picture of the stream does", (long long)have[i].pts); if (j < want.size() && have[i].data == want[j].data) right++; }
            bool enough = want.size() >= 6 && (codec != H264 || (s.gop <= 3 && want.size() >= 12));   // an error costs the parameter sets of the picture it happens in
            VF_CHECK(!enough || right > 0, "recovery", "codec %d, %s%s: none of %zu pictures after a damaged stream is right (%zu came out)", codec, nals ? "NAL units" : "access units", s.reordered ? ", reordered" : "", want.size(), have.size() - old);
            recovered += right; lost += want.size() - right; fed++; continue;
        }
        bool fresh = last != codec;
        VF_CHECK(have.size() <= want.size(), "extra", "%zu pictures, the stream has %zu", have.size(), want.size());
        VF_CHECK(have.size() == want.size(), fresh ? "missing" : "missing-again", "codec %d, %dx%d, %s%s: %zu of %zu pictures came out", codec, w, h, nals ? "NAL units" : "access units", s.reordered ? ", reordered" : "", have.size(), want.size());
        for (size_t i = 0; i < have.size() && i < want.size() && !vf::failed(); i++) {
            VF_CHECK(have[i].w == want[i].w && have[i].h == want[i].h && have[i].fmt == named(want[i].fmt) && have[i].data.size() == want[i].data.size(), "shape", "picture %zu is %dx%d format %d (%zu bytes), expected %dx%d format %d (%zu bytes)", i, have[i].w, have[i].h, have[i].fmt, have[i].data.size(), want[i].w, want[i].h, named(want[i].fmt), want[i].data.size());
            VF_CHECK(have[i].data == want[i].data, "pixels", "picture %zu of %zu differs from the decoded one", i, want.size());
            VF_CHECK(have[i].pts == want[i].pts, s.reordered ? "time-reordered" : "time", "picture %zu shows at %lld, expected %lld", i, (long long)have[i].pts, (long long)want[i].pts);
            sig.add((uint64_t)want[i].w).add((uint64_t)want[i].h).add((uint64_t)want[i].fmt);
        }
        clean += have.size(); perCodec[codec] += have.size(); if (s.reordered) reordered += have.size(); last = codec;
        if (!have.empty() && have.size() == s.expected.size()) {
            std::string st = mod::state(*dec); VF_CHECK(st.find(vf::fmt("\"width\":%d,\"height\":%d", shownW, shownH)) != std::string::npos, "state", "the state does not show %dx%d: %s", shownW, shownH, st.c_str());
        }
        fed++;
    }
    dec.reset();
    const char* cn[] = {"H.264 pictures compared", "H.265 pictures compared", "VP8 pictures compared", "MJPEG pictures compared"}; for (auto& k : perCodec) if (k.second) vf::count(cn[k.first], k.second);
    vf::count("streams decoded", fed); vf::count("packets fed", sent); vf::count("pictures compared", clean); vf::count("pictures of reordered streams", reordered); vf::count("damaged streams", damaged); vf::count("undecodable packets", foreign); vf::count("pictures that do not fit", nofit); vf::count("streams with parameter sets apart", described); vf::count("late pictures of a damaged stream", late); vf::count("pictures right after a damaged stream", recovered); vf::count("pictures wrong after a damaged stream", lost); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %llu packets, %llu pictures compared, %llu damaged streams", (unsigned long long)c.idx, (unsigned long long)sent, (unsigned long long)clean, (unsigned long long)damaged));
}
