// The sources of the libav modules are written for FFmpeg 2.x.  This header, included in front of them (harnesses with a
// "//!libav" line), gives them the removed calls in terms of the ones FFmpeg 6 has, with the old semantics: pictures and samples
// stay owned by the codec context until its next call, a packet yields at most one frame, and a caller's packet buffer is filled.
#ifndef LIBAV_COMPAT_H
#define LIBAV_COMPAT_H
extern "C" {
#include <libavcodec/avcodec.h>
#include <libavcodec/bsf.h>
#include <libavformat/avformat.h>
#include <libavutil/imgutils.h>
#include <libavutil/opt.h>
#include <libswresample/swresample.h>
}
#include <cstring>
#include <map>
#include <mutex>
namespace compat {
struct Held { AVFrame* f; AVPacket* p; };
inline std::mutex& lock() { static std::mutex m; return m; }
inline std::map<AVCodecContext*, Held>& all() { static std::map<AVCodecContext*, Held> m; return m; }
inline Held held(AVCodecContext* c) { std::lock_guard<std::mutex> g(lock()); Held& h = all()[c]; if (!h.f) { h.f = av_frame_alloc(); h.p = av_packet_alloc(); } return h; }
inline int decode(AVCodecContext* c, AVFrame* out, int* got, const AVPacket* in) {
    *got = 0; Held h = held(c); int r = avcodec_send_packet(c, in); if (r == AVERROR_EOF) r = 0; if (r < 0) return r;
    AVFrame* extra = NULL;
    for (;;) {
        AVFrame* to = *got ? (extra ? extra : (extra = av_frame_alloc())) : h.f; r = avcodec_receive_frame(c, to);
        if (r < 0) break;
        *got = 1;
    }
    av_frame_free(&extra); if (r != AVERROR(EAGAIN) && r != AVERROR_EOF) return r;
    if (*got) {   // what the caller sees holds no references
        AVFrame* s = h.f; memcpy(out->data, s->data, sizeof out->data); memcpy(out->linesize, s->linesize, sizeof out->linesize); out->extended_data = s->extended_data == s->data ? out->data : s->extended_data;
        out->width = s->width; out->height = s->height; out->nb_samples = s->nb_samples; out->format = s->format; out->key_frame = s->key_frame; out->pict_type = s->pict_type; out->pts = s->pts; out->pkt_dts = s->pkt_dts;
        out->sample_rate = s->sample_rate; out->channels = s->channels; out->channel_layout = s->channel_layout; out->reordered_opaque = s->reordered_opaque; out->best_effort_timestamp = s->best_effort_timestamp;
    }
    return in->size;
}
inline int encodeAudio(AVCodecContext* c, AVPacket* out, const AVFrame* in, int* got) {
    *got = 0; Held h = held(c); int r = avcodec_send_frame(c, in); if (r < 0 && r != AVERROR_EOF) return r;
    r = avcodec_receive_packet(c, h.p); if (r == AVERROR(EAGAIN) || r == AVERROR_EOF) { if (!out->data) out->size = 0; return 0; } if (r < 0) return r;
    if (out->data) { if (out->size < h.p->size) { av_packet_unref(h.p); return AVERROR(EINVAL); } memcpy(out->data, h.p->data, h.p->size); out->size = h.p->size; out->pts = h.p->pts; out->dts = h.p->dts; out->flags = h.p->flags; av_packet_unref(h.p); }
    else av_packet_move_ref(out, h.p);
    *got = 1; return 0;
}
inline int closeCodec(AVCodecContext* c) {
    if (!c) return 0;
    { std::lock_guard<std::mutex> g(lock()); auto i = all().find(c); if (i != all().end()) { av_frame_free(&i->second.f); av_packet_free(&i->second.p); all().erase(i); } }
    return avcodec_close(c);
}
// a container: the streams carry a codec context, which FFmpeg 2.x kept in them
struct Stream { int index; AVCodecContext* codec; AVRational time_base; int64_t start_time; };
struct Format { ::AVFormatContext* real; Stream** streams; unsigned nb_streams; int64_t start_time_realtime, start_time; };
inline void refresh(Format* f) {
    for (; f->nb_streams < f->real->nb_streams; f->nb_streams++) {
        f->streams = (Stream**)av_realloc(f->streams, (f->nb_streams + 1) * sizeof(Stream*)); Stream* s = f->streams[f->nb_streams] = new Stream();
        s->index = f->nb_streams; s->codec = avcodec_alloc_context3(NULL);
    }
    for (unsigned i = 0; i < f->nb_streams; i++) { ::AVStream* r = f->real->streams[i]; avcodec_parameters_to_context(f->streams[i]->codec, r->codecpar); f->streams[i]->time_base = r->time_base; f->streams[i]->start_time = r->start_time; }
    f->start_time_realtime = f->real->start_time_realtime; f->start_time = f->real->start_time;
}
// a bitstream filter: the parameters of the stream are taken from the first context it is used with
struct Filter { char name[32]; AVBSFContext* ctx; };
}
static inline int avformat_open_input(compat::Format** f, const char* url, const AVInputFormat* fmt, AVDictionary** o) {
    ::AVFormatContext* real = NULL; int r = avformat_open_input(&real, url, fmt, o); if (r < 0) { *f = NULL; return r; }
    *f = new compat::Format(); (*f)->real = real; compat::refresh(*f); return 0;
}
static inline int avformat_find_stream_info(compat::Format* f, AVDictionary** o) { int r = avformat_find_stream_info(f->real, o); compat::refresh(f); return r; }
static inline int av_read_frame(compat::Format* f, AVPacket* p) { int r = av_read_frame(f->real, p); if (f->real->nb_streams != f->nb_streams) compat::refresh(f); f->start_time_realtime = f->real->start_time_realtime; return r; }
static inline void avformat_close_input(compat::Format** f) {
    if (!*f) return;
    for (unsigned i = 0; i < (*f)->nb_streams; i++) { avcodec_free_context(&(*f)->streams[i]->codec); delete (*f)->streams[i]; }
    av_free((*f)->streams); avformat_close_input(&(*f)->real); delete *f; *f = NULL;
}
static inline int av_seek_frame(compat::Format* f, int i, int64_t t, int flags) { return av_seek_frame(f->real, i, t, flags); }
static inline compat::Filter* av_bitstream_filter_init(const char* n) { if (!av_bsf_get_by_name(n)) return NULL; compat::Filter* f = new compat::Filter(); strncpy(f->name, n, 31); return f; }
static inline void av_bitstream_filter_close(compat::Filter* f) { if (f) { av_bsf_free(&f->ctx); delete f; } }
static inline int av_bitstream_filter_filter(compat::Filter* f, AVCodecContext* c, const char*, uint8_t** out, int* n, const uint8_t* in, int size, int) {
    int r;
    if (!f->ctx) { if ((r = av_bsf_alloc(av_bsf_get_by_name(f->name), &f->ctx)) < 0) return r; avcodec_parameters_from_context(f->ctx->par_in, c); f->ctx->time_base_in = c->time_base; if ((r = av_bsf_init(f->ctx)) < 0) return r; }
    AVPacket* p = av_packet_alloc(); p->data = (uint8_t*)in; p->size = size; r = av_bsf_send_packet(f->ctx, p); if (r < 0) { av_packet_unref(p); av_packet_free(&p); return r; }
    *out = NULL; *n = 0; r = av_bsf_receive_packet(f->ctx, p); if (r < 0) { av_packet_free(&p); return r == AVERROR(EAGAIN) || r == AVERROR_EOF ? 0 : r; }
    *out = (uint8_t*)av_malloc(p->size + AV_INPUT_BUFFER_PADDING_SIZE); *n = p->size; memcpy(*out, p->data, p->size); memset(*out + p->size, 0, AV_INPUT_BUFFER_PADDING_SIZE); av_packet_unref(p);
    while (av_bsf_receive_packet(f->ctx, p) >= 0) av_packet_unref(p);
    av_packet_free(&p); return 1;
}
#define AVFormatContext compat::Format
#define AVBitStreamFilterContext compat::Filter
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
static inline void avcodec_register_all() {}
static inline void av_register_all() {}
static inline int avcodec_decode_video2(AVCodecContext* c, AVFrame* f, int* got, const AVPacket* p) { return compat::decode(c, f, got, p); }
static inline int avcodec_decode_audio4(AVCodecContext* c, AVFrame* f, int* got, const AVPacket* p) { return compat::decode(c, f, got, p); }
static inline int avcodec_encode_audio2(AVCodecContext* c, AVPacket* p, const AVFrame* f, int* got) { return compat::encodeAudio(c, p, f, got); }
#define avcodec_close compat::closeCodec
#define CODEC_CAP_TRUNCATED 0
#define CODEC_FLAG_TRUNCATED 0
#define CODEC_CAP_SLICE_THREADS AV_CODEC_CAP_SLICE_THREADS
#define CODEC_FLAG2_CHUNKS AV_CODEC_FLAG2_CHUNKS
#define FF_INPUT_BUFFER_PADDING_SIZE AV_INPUT_BUFFER_PADDING_SIZE
#define AVCodec const AVCodec
#endif
