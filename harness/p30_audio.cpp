// P30: the audio decoder and encoder against libavcodec and libswresample used directly.
//!libav audioDecoder/AudioDecoderLibav.cpp audioEncoder/AudioEncoderLibav.cpp
#include "mod.hh"
#include "AudioFrame.hh"
#include "AudioCircularBuffer.hh"
#include "modules/audioDecoder/AudioDecoderLibav.hh"
#include "modules/audioEncoder/AudioEncoderLibav.hh"
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
using mod::us;
typedef std::vector<unsigned char> Bytes;
static AVSampleFormat av(SampleFmt f) { static const AVSampleFormat t[] = {AV_SAMPLE_FMT_U8, AV_SAMPLE_FMT_S16, AV_SAMPLE_FMT_FLT, AV_SAMPLE_FMT_U8P, AV_SAMPLE_FMT_S16P, AV_SAMPLE_FMT_FLTP}; return f < 0 ? AV_SAMPLE_FMT_NONE : t[f]; }
static const char* fmtName(SampleFmt f) { static const char* t[] = {"u8", "s16", "flt", "u8p", "s16p", "fltp"}; return f < 0 ? "none" : t[f]; }
static const char* codecName(ACodecType c) { switch (c) { case G711: return "g711"; case PCMU: return "pcmu"; case OPUS: return "opus"; case PCM: return "pcm"; case AAC: return "aac"; case MP3: return "mp3"; default: return ""; } }
static AVCodecID idOf(ACodecType c) { return c == PCMU ? AV_CODEC_ID_PCM_MULAW : c == OPUS ? AV_CODEC_ID_OPUS : c == AAC ? AV_CODEC_ID_AAC : c == MP3 ? AV_CODEC_ID_MP3 : c == PCM ? AV_CODEC_ID_PCM_S16BE : AV_CODEC_ID_NONE; }
static bool planar(SampleFmt f) { return f >= U8P; }
static int bytesOf(SampleFmt f) { return av_get_bytes_per_sample(av(f)); }
static StreamInfo codedInfo(AUDIO), rawInfo(AUDIO);

// sound of one stream, a vector per channel, in the bytes of the format
struct Sound { std::vector<Bytes> ch; size_t bps; explicit Sound(unsigned n = 0, size_t b = 1) : ch(n), bps(b) {} size_t samples() const { return ch.empty() ? 0 : ch[0].size() / bps; } };
struct Convert {
    SwrContext* s = NULL; unsigned sets = 0; int inFmt = -1, inRate = 0, inCh = 0; ~Convert() { swr_free(&s); }
    bool set(int f, int r, int c, SampleFmt of, int orate, int och) {
        if (s && f == inFmt && r == inRate && c == inCh) return true; swr_free(&s); sets++; inFmt = f; inRate = r; inCh = c;
        s = swr_alloc_set_opts(NULL, av_get_default_channel_layout(och), av(of), orate, av_get_default_channel_layout(c), (AVSampleFormat)f, r, 0, NULL); return s && swr_init(s) >= 0;
    }
    bool run(uint8_t** in, int n, Sound& out, SampleFmt of, int och) {
        int cap = swr_get_out_samples(s, n) + 64; std::vector<Bytes> t(planar(of) ? och : 1, Bytes((size_t)cap * bytesOf(of) * (planar(of) ? 1 : och))); uint8_t* p[8]; for (size_t i = 0; i < t.size(); i++) p[i] = t[i].data();
        int got = swr_convert(s, p, cap, (const uint8_t**)in, n); if (got < 0) return false;
        size_t b = bytesOf(of); for (int c = 0; c < och; c++) for (int i = 0; i < got; i++) { const uint8_t* q = planar(of) ? t[c].data() + i * b : t[0].data() + ((size_t)i * och + c) * b; out.ch[c].insert(out.ch[c].end(), q, q + b); }
        return true;
    }
};
static void tone(vf::Rng& r, AVFrame* f, unsigned& phase, double amp) {
    int ch = f->ch_layout.nb_channels; for (int i = 0; i < f->nb_samples; i++, phase++) for (int c = 0; c < ch; c++) { double v = amp * (0.6 * sin(phase * (0.03 + 0.02 * c)) + 0.2 * (r.unit() - 0.5)); switch (f->format) { case AV_SAMPLE_FMT_FLTP: ((float*)f->extended_data[c])[i] = v; break; case AV_SAMPLE_FMT_FLT: ((float*)f->extended_data[0])[i * ch + c] = v; break; case AV_SAMPLE_FMT_S16P: ((int16_t*)f->extended_data[c])[i] = (int16_t)(v * 32000); break; default: ((int16_t*)f->extended_data[0])[i * ch + c] = (int16_t)(v * 32000); } }
}
struct Coded { ACodecType codec; int rate, channels; std::vector<Bytes> packets; };
static Coded encodeStream(vf::Rng& r, ACodecType codec, unsigned n) {
    Coded s; s.codec = codec; AVCodec* c = codec == AAC ? avcodec_find_encoder(AV_CODEC_ID_AAC) : codec == OPUS ? avcodec_find_encoder_by_name("libopus") : codec == MP3 ? avcodec_find_encoder_by_name("libmp3lame") : avcodec_find_encoder(idOf(codec));
    AVCodecContext* e = avcodec_alloc_context3(c); s.rate = codec == OPUS ? 48000 : codec == PCMU ? r.pick({8000, 16000, 48000}) : r.pick({48000, 44100, 32000, 22050}); s.channels = (int)r.range(1, 2);
    e->sample_rate = s.rate; av_channel_layout_default(&e->ch_layout, s.channels); e->sample_fmt = codec == MP3 ? AV_SAMPLE_FMT_FLTP : c->sample_fmts[0]; e->bit_rate = (int)r.range(32, 128) * 1000; e->time_base = AVRational{1, s.rate}; AVDictionary* o = NULL; if (codec == OPUS && r.chance(1, 2)) av_dict_set(&o, "frame_duration", r.pick({"2.5", "10", "40", "60"}), 0);
    if (avcodec_open2(e, c, &o) < 0) { vf::fail("reference", "no encoder for %s", codecName(codec)); av_dict_free(&o); avcodec_free_context(&e); return s; } av_dict_free(&o);
    AVFrame* f = av_frame_alloc(); f->format = e->sample_fmt; f->nb_samples = e->frame_size ? e->frame_size : (int)r.range(20, 1200); f->sample_rate = s.rate; av_channel_layout_copy(&f->ch_layout, &e->ch_layout); av_frame_get_buffer(f, 0); AVPacket* p = av_packet_alloc(); unsigned ph = (unsigned)r.below(1000); int64_t t = 0;
    for (unsigned i = 0; i < n; i++) { av_frame_make_writable(f); tone(r, f, ph, r.unit()); f->pts = t; t += f->nb_samples; avcodec_send_frame(e, f); while (avcodec_receive_packet(e, p) >= 0) { s.packets.push_back(Bytes(p->data, p->data + p->size)); av_packet_unref(p); } }
    av_frame_free(&f); av_packet_free(&p); avcodec_free_context(&e); return s;
}
template <class M> class AQueue : public AVFramedQueue { public: AQueue(ConnectionData c, const StreamInfo* si, unsigned n, M mk) : AVFramedQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = mk(); } };
template <class M> static AVFramedQueue* queueOf(ConnectionData c, const StreamInfo* si, unsigned n, M mk) { return new AQueue<M>(c, si, n, mk); }
static AudioFrame* rawFrame(int ch, int rate, int n, SampleFmt f) { AudioFrame* a; if (planar(f)) a = PlanarAudioFrame::createNew(ch, rate, n, PCM, f); else a = InterleavedAudioFrame::createNew(ch, rate, n, PCM, f); a->setSamples(0); a->setLength(0); return a; }

class Dec : public AudioDecoderLibav {
public:
    SampleFmt f = FLTP; int ch = 2, rate = 48000, cap = 6000; bool own = true; std::vector<int> step() { int r = 0; return processFrame(r); } FrameQueue* alloc(ConnectionData c) { return allocQueue(c); }
protected:
    FrameQueue* allocQueue(ConnectionData c) { if (!own) return AudioDecoderLibav::allocQueue(c); int n = cap, h = ch, s = rate; SampleFmt k = f; return queueOf(c, &rawInfo, 3, [=] { return rawFrame(h, s, n, k); }); }
};
class Enc : public AudioEncoderLibav { public: std::vector<int> step() { int r = 0; return processFrame(r); } };

void vf_init(vf::Ctx&) { av_log_set_level(AV_LOG_QUIET); codedInfo.audio.codec = MP3; codedInfo.audio.channels = 2; codedInfo.audio.sampleRate = 48000; codedInfo.setCodecDefaults(); rawInfo.audio.codec = PCM; rawInfo.audio.channels = 2; rawInfo.audio.sampleRate = 48000; rawInfo.audio.sampleFormat = FLTP; }

static void decoderCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; std::unique_ptr<Dec> d(new Dec()); mod::Feed feed; mod::Catch sink; feed.setId(1); d->setId(2); sink.setId(3); vf::Hash sig; uint64_t compared = 0, packets = 0, damaged = 0, undecodable = 0, refused = 0, mismatched = 0, configs = 0, streams = 0, silent = 0, misdeclared = 0;
    SampleFmt of = FLTP; int och = 2, orate = 48000;
    auto state = [&](const char* when) { std::string st = mod::state(*d), w = vf::fmt("\"sampleRate\":%d,\"channels\":%d,\"sampleFormat\":\"%s\"", orate, och, fmtName(of)); VF_CHECK(st.find(w) != std::string::npos, "state", "%s: %s, expected %s", when, st.c_str(), w.c_str()); };
    auto configure = [&](SampleFmt f, int ch, int rate, bool good) {
        if (r.chance(1, 2) && f >= 0) d->configure(f, ch, rate); else { Jzon::Object p; p.Add("sampleFormat", std::string(fmtName(f))); p.Add("channels", ch); p.Add("sampleRate", rate); mod::event(*d, "configure", p); }
        d->step(); if (good) { of = f; och = ch; orate = rate; configs++; } else refused++; state(good ? "after a configuration" : "after an impossible configuration");
    };
    auto bad = [&] { switch (r.below(4)) { case 0: configure(S_NONE, och, orate, false); break; case 1: configure(of, r.pick({0, -1, 3, 9, 100000}), orate, false); break; case 2: configure(of, och, r.pick({0, -8000}), false); break; default: configure(S_NONE, 0, 0, false); } };
    if (r.chance(1, 3)) bad();
    if (r.chance(3, 4)) configure(r.pick({U8, S16, FLT, U8P, S16P, FLTP}), (int)r.range(1, 2), r.pick({48000, 44100, 32000, 16000, 8000}), true);
    SampleFmt qf = of; int qch = och, qrate = orate; d->f = of; d->ch = och; d->rate = orate; d->cap = r.chance(1, 6) ? (int)r.range(200, 2500) : 9000;
    if (planar(of) && c.idx % 16 == 6) { d->own = false; }
    const unsigned IN = 8000; feed.mk = [&](ConnectionData q) { return queueOf(q, &codedInfo, 3, [&] { return (Frame*)InterleavedAudioFrame::createNew(2, 48000, IN, MP3, U8); }); };
    VF_CHECK(feed.connectOneToOne(d.get()) && d->connectOneToOne(&sink), "connect", "refused"); if (vf::failed()) return;
    const Bytes* cur = NULL; ACodecType now = MP3; int nowRate = 0, nowCh = 0; int64_t pts = 0; feed.fill = [&](int, Frame* f) { AudioFrame* a = dynamic_cast<AudioFrame*>(f); a->setCodec(now); a->setChannels(nowCh); a->setSampleRate(nowRate); size_t n = std::min<size_t>(cur->size(), f->getMaxLength()); if (n) memcpy(f->getDataBuf(), cur->data(), n); f->setLength(n); f->setPresentationTime(us(pts)); return true; };
    Sound have; bool any = false; int64_t lastPts = 0;
    sink.got = [&](int, Frame* f) {
        if (!d->own) return; AudioFrame* a = dynamic_cast<AudioFrame*>(f); any = true; lastPts = f->getPresentationTime().count(); size_t n = a->getSamples(), b = bytesOf(qf); VF_CHECK(n <= a->getMaxSamples(), "bounds", "%zu samples in a frame of %u", n, a->getMaxSamples()); if (n > a->getMaxSamples()) return;
        VF_CHECK(f->getLength() == n * b * (planar(qf) ? 1 : qch), "length", "%u bytes for %zu samples", f->getLength(), n);
        for (int k = 0; k < qch; k++) for (size_t i = 0; i < n; i++) { const uint8_t* q = planar(qf) ? f->getPlanarDataBuf()[k] + i * b : f->getDataBuf() + (i * qch + k) * b; have.ch[k].insert(have.ch[k].end(), q, q + b); }
    };
    auto send = [&](const Bytes& p, ACodecType codec, int rate, int ch) { cur = &p; now = codec; nowRate = rate; nowCh = ch; pts += 20000; any = false; feed.step(); d->step(); sink.step(); packets++; };
    Convert conv; unsigned rounds = (unsigned)r.range(2, 6); ACodecType last = AC_NONE; int lastRate = 0, lastCh = 0; bool loose = false;   // loose: samples of before may still be in the resampler
    for (unsigned q = 0; q < rounds && !vf::failed(); q++) {
        Coded s = encodeStream(r, r.pick({MP3, AAC, OPUS, PCMU}), (unsigned)r.range(2, 25)); if (vf::failed()) return; if (s.packets.empty()) continue; have = Sound(qch, bytesOf(qf)); pts += 1000000;
        if (r.chance(1, 4)) { Bytes x(r.below(100)); for (auto& b : x) b = (unsigned char)r.u64(); int k = (int)r.below(3); for (int i = (int)r.range(1, 3); i > 0; i--) send(x, k == 0 ? AC_NONE : k == 1 ? G711 : MP3, k == 2 ? r.pick({0, 48000}) : 48000, k == 2 && r.chance(1, 2) ? 0 : 2); if (k != 2) { last = k == 0 ? AC_NONE : G711; undecodable++; VF_CHECK(!any, "undecodable", "sound came out of data no decoder exists for"); } else { last = AC_NONE; loose = true; continue; } }
        if (r.chance(1, 5)) bad();
        bool off = r.chance(1, 8); if (off) { SampleFmt f = qf; int ch = qch, rate = qrate; switch (r.below(3)) { case 0: f = r.pick({U8, S16, FLT, U8P, S16P, FLTP}); break; case 1: ch = 3 - qch; break; default: rate = rate == 48000 ? 16000 : 48000; } configure(f, ch, rate, true); off = f != qf || ch != qch || rate != qrate; loose = true; }
        else if (of != qf || och != qch || orate != qrate) { configure(qf, qch, qrate, true); loose = true; }
        bool damage = r.chance(1, 5), wrong = r.chance(1, 8) && s.codec != PCMU && s.codec != AAC; int dRate = s.rate, dCh = s.channels; if (wrong) { dCh = 3 - dCh; if (s.codec == MP3 && r.chance(1, 2)) dRate = 24000; misdeclared++; }
        if (damage) {
            for (auto p : s.packets) { switch (r.below(6)) { case 0: p.resize(r.below(p.size() + 1)); break; case 1: for (int i = 0; i < 4 && !p.empty(); i++) p[r.below(p.size())] ^= (unsigned char)(1 << r.below(8)); break; case 2: for (auto& b : p) b = (unsigned char)r.u64(); break; case 3: continue; default: break; } send(p, s.codec, dRate, dCh); }
            damaged++; last = s.codec; lastRate = dRate; lastCh = dCh; loose = true; continue;
        }
        // what the library makes of the packets
        bool fresh = s.codec != last || dRate != lastRate || dCh != lastCh; AVCodec* k = avcodec_find_decoder(idOf(s.codec)); AVCodecContext* x = avcodec_alloc_context3(k); x->sample_rate = dRate; av_channel_layout_default(&x->ch_layout, dCh); Sound want(qch, bytesOf(qf)); bool ok = avcodec_open2(x, k, NULL) >= 0; AVFrame* f = av_frame_alloc(); AVPacket* p = av_packet_alloc(); if (!fresh) loose = true; bool carried = false; size_t wrongTime = 0, n = 0; Convert own;
        Convert& cv = own; std::vector<int> inRates;
        for (auto& data : s.packets) {
            size_t before = want.samples(), got = have.samples(); if (ok) { av_new_packet(p, data.size()); memcpy(p->data, data.data(), data.size()); avcodec_send_packet(x, p); av_packet_unref(p); while (avcodec_receive_frame(x, f) >= 0) { if (f->sample_rate != qrate) carried = true; if (cv.set(f->format, f->sample_rate, f->ch_layout.nb_channels, qf, qrate, qch)) cv.run(f->extended_data, f->nb_samples, want, qf, qch); } }
            send(data, s.codec, dRate, dCh); if (any && lastPts != pts) wrongTime++; n++; (void)got;
            if (!off && !loose && d->own && want.samples() == before) { silent++; VF_CHECK(have.samples() <= want.samples() , "repeated", "%s: samples came out of a packet that has none", codecName(s.codec)); }
        }
        av_frame_free(&f); av_packet_free(&p); avcodec_free_context(&x); VF_CHECK(!wrongTime, "time", "%zu frames do not show at the time of their packet", wrongTime); streams++;
        if (off) { VF_CHECK(!d->own || have.samples() == 0, "foreign-format", "%zu samples went into frames of another format", have.samples()); mismatched++; }
        else if (d->own && !loose && (d->cap >= 9000 || own.sets < 2)) {   // what does not fit stays in the resampler, and is dropped with it
            bool all = d->cap >= 9000; VF_CHECK(all ? have.samples() == want.samples() : have.samples() <= want.samples(), "samples", "%s %d Hz %d channels to %s %d Hz %d channels: %zu samples, expected %zu", codecName(s.codec), s.rate, s.channels, fmtName(qf), qrate, qch, have.samples(), want.samples());
            size_t m = std::min(have.samples(), want.samples()) * want.bps; for (int ch = 0; ch < qch && !vf::failed(); ch++) { size_t i = 0; while (i < m && have.ch[ch][i] == want.ch[ch][i]) i++; VF_CHECK(i == m, "sound", "%s %d Hz %d channels to %s %d Hz %d channels: sample %zu of %zu of channel %d differs (declared %d Hz, %d channels)%s", codecName(s.codec), s.rate, s.channels, fmtName(qf), qrate, qch, i / want.bps, want.samples(), ch, dRate, dCh, i < m && qf == FLTP ? vf::fmt(": %.9g, expected %.9g", *(float*)&have.ch[ch][i / 4 * 4], *(float*)&want.ch[ch][i / 4 * 4]).c_str() : ""); }
            compared += m / want.bps; sig.add((uint64_t)s.codec).add((uint64_t)s.rate).add((uint64_t)s.channels).add((uint64_t)want.samples());
            std::string st = mod::state(*d); VF_CHECK(st.find(vf::fmt("\"codec\":\"%s\"", codecName(s.codec))) != std::string::npos, "state", "the state does not name the codec: %s", st.c_str());
        }
        last = s.codec; lastRate = dRate; lastCh = dCh; loose = carried || off || d->cap < 9000 || (loose && !want.samples());
        // a filter of its own for the next stream, so that nothing is left over
        if (loose && r.chance(2, 3)) { d->disconnectWriter(DEFAULT_ID); feed.disconnectWriter(DEFAULT_ID); d.reset(new Dec()); d->setId(2); of = FLTP; och = 2; orate = 48000; configure(qf, qch, qrate, true); d->f = qf; d->ch = qch; d->rate = qrate; d->cap = 9000; VF_CHECK(feed.connectOneToOne(d.get()) && d->connectOneToOne(&sink), "connect", "refused"); last = AC_NONE; loose = false; }
    }
    feed.disconnectWriter(DEFAULT_ID); d->disconnectWriter(DEFAULT_ID); d.reset(); vf::count("decoded streams", streams); vf::count("decoded samples compared", compared); vf::count("packets decoded", packets); vf::count("damaged audio streams", damaged); vf::count("undecodable audio", undecodable); vf::count("decoder configurations", configs); vf::count("decoder configurations refused", refused); vf::count("streams into frames of another format", mismatched); vf::count("packets without samples", silent); vf::count("streams declared wrongly", misdeclared); vf::distinct(sig.h);
    if (c.idx < 4) vf::sample(vf::fmt("case %llu: %llu streams, %llu samples compared", (unsigned long long)c.idx, (unsigned long long)streams, (unsigned long long)compared));
}

static void encoderCase(vf::Ctx& c) {
    vf::Rng& r = c.rng; std::unique_ptr<Enc> e(new Enc()); mod::Feed feed; mod::Catch sink; feed.setId(1); e->setId(2); sink.setId(3); uint64_t refused = 0, coded = 0, bytes = 0; vf::Hash sig;
    auto configure = [&](ACodecType k, int ch, int rate, int br) { if (r.chance(1, 2) && k >= 0) e->configure(k, ch, rate, br); else { Jzon::Object p; p.Add("codec", std::string(codecName(k))); p.Add("channels", ch); p.Add("sampleRate", rate); p.Add("bitrate", br); mod::event(*e, "configure", p); } e->step(); };
    auto state = [&](ACodecType k, int ch, int rate) { std::string st = mod::state(*e), w = vf::fmt("\"codec\":\"%s\",\"sampleRate\":%d,\"channels\":%d", codecName(k), rate, ch); if (k == AC_NONE) VF_CHECK(e->getCodec() == AC_NONE, "state", "a refused configuration left codec %d", e->getCodec()); else VF_CHECK(st.find(w) != std::string::npos, "state", "%s, expected %s", st.c_str(), w.c_str()); };
    int srcRate = r.pick({48000, 44100, 32000, 16000}), srcCh = (int)r.range(1, 2); SampleFmt srcFmt = r.pick({S16P, FLTP, U8P});
    feed.mk = [&](ConnectionData q) { return AudioCircularBuffer::createNew(q, srcCh, srcRate, DEFAULT_BUFFER_SIZE, srcFmt); };
    if (r.chance(1, 4)) VF_CHECK(!feed.connectOneToOne(e.get()), "unconfigured", "an encoder that is not configured was connected");
    for (int i = (int)r.below(4); i > 0; i--) { switch (r.below(5)) { case 0: configure(AC_NONE, 2, 48000, 64000); break; case 1: configure(G711, 1, 8000, 64000); break; case 2: configure(MP3, r.pick({0, -1, 3, 77}), 48000, 64000); break; case 3: configure(MP3, 2, r.pick({0, -1, 1234, 96000}), 64000); break; default: configure(PCM, r.pick({0, -3}), 48000, 0); } refused++; state(AC_NONE, 0, 0); }
    ACodecType k = r.pick({PCM, PCMU, MP3, OPUS}); int ch = (int)r.range(1, 2), rate = k == OPUS ? 48000 : k == PCMU ? r.pick({8000, 48000}) : r.pick({48000, 44100, 32000}); int br = (int)r.range(32, 96) * 1000;
    bool same = r.chance(2, 3); if (same) { srcRate = rate < 16000 ? 16000 : rate; if (k == PCMU) rate = srcRate; }
    configure(k, ch, rate, br); state(k, ch, rate); if (vf::failed()) return; VF_CHECK(e->getSamplesPerFrame() > 0, "frame-size", "no samples per frame");
    if (r.chance(1, 3)) { configure(r.pick({PCM, MP3, OPUS}), (int)r.range(1, 2), 48000, 64000); state(k, ch, rate); }
    std::vector<Bytes> out;
    sink.got = [&](int, Frame* f) { VF_CHECK(f->getLength() <= f->getMaxLength(), "bounds", "%u bytes in a frame of %u", f->getLength(), f->getMaxLength()); out.push_back(Bytes(f->getDataBuf(), f->getDataBuf() + std::min(f->getLength(), f->getMaxLength()))); };
    // reference: everything the encoder takes from its sources, converted and encoded frame by frame
    AVCodec* cc = k == OPUS ? avcodec_find_encoder(AV_CODEC_ID_OPUS) : avcodec_find_encoder(idOf(k)); AVCodecContext* x = avcodec_alloc_context3(cc); x->sample_rate = rate; av_channel_layout_default(&x->ch_layout, ch); x->sample_fmt = k == MP3 ? AV_SAMPLE_FMT_S16P : AV_SAMPLE_FMT_S16; x->bit_rate = br;
    if (avcodec_open2(x, cc, NULL) < 0) { vf::fail("reference", "no encoder"); avcodec_free_context(&x); return; }
    SampleFmt ef = k == MP3 ? S16P : S16; Sound conv(ch, 2); Convert cv; unsigned spf = e->getSamplesPerFrame(), sources = r.chance(1, 3) ? (unsigned)r.range(2, 4) : 1; bool mixed = false; uint64_t fed = 0;
    for (unsigned q = 0; q < sources && !vf::failed(); q++) {
        if (q) { feed.disconnectWriter(DEFAULT_ID); e->disconnectReader(DEFAULT_ID); if (r.chance(3, 4)) srcRate = r.pick({48000, 44100, 32000, 16000}); if (r.chance(1, 2)) srcCh = (int)r.range(1, 2); if (r.chance(1, 2)) srcFmt = r.pick({S16P, FLTP, U8P}); vf::count("sources replaced"); }
        bool ok = feed.connectOneToOne(e.get()); VF_CHECK(ok, "connect", "the source is refused"); if (!q) { ok = ok && e->connectOneToOne(&sink); VF_CHECK(ok, "connect", "%s %d Hz %d channels: the output cannot be connected", codecName(k), rate, ch); } if (!ok) break;
        Sound in(srcCh, bytesOf(srcFmt)); unsigned ph = (unsigned)r.below(1000), frames = (unsigned)r.range(5, c.thorough ? 200 : 60) / sources + 1; double amp = r.unit(); uint64_t base = fed; int64_t t0 = (int64_t)q * 100000000;
        feed.fill = [&](int, Frame* f) {
            AudioFrame* a = dynamic_cast<AudioFrame*>(f); int n = (int)r.range(1, a->getMaxSamples() / 3); a->setSamples(n); f->setLength(n * bytesOf(srcFmt));
            for (int i = 0; i < n; i++, ph++) for (int q = 0; q < srcCh; q++) { double v = amp * (0.7 * sin(ph * (0.02 + 0.01 * q)) + 0.2 * (r.unit() - 0.5)); unsigned char* p = f->getPlanarDataBuf()[q]; if (srcFmt == FLTP) ((float*)p)[i] = v; else if (srcFmt == S16P) ((int16_t*)p)[i] = (int16_t)(v * 32000); else p[i] = (uint8_t)(128 + v * 100); size_t b = bytesOf(srcFmt); in.ch[q].insert(in.ch[q].end(), p + i * b, p + (i + 1) * b); }
            f->setPresentationTime(us(t0 + (int64_t)((fed - base) * 1000000 / srcRate))); fed += n; return true;
        };
        for (unsigned i = 0; i < frames && !vf::failed(); i++) { feed.step(); for (int j = 0; j < 12; j++) { e->step(); sink.step(); } }
        if (srcRate != rate) mixed = true;
        // input that does not fill a frame of the source yet stays in its buffer
        unsigned take = std::max<uint64_t>(1, (uint64_t)spf * srcRate / rate); VF_CHECK(cv.set(av(srcFmt), srcRate, srcCh, ef, rate, ch), "reference", "no conversion"); uint8_t* ip[2];
        for (size_t used = 0; used + take <= in.samples() && !vf::failed(); used += take) { for (int q = 0; q < srcCh; q++) ip[q] = in.ch[q].data() + used * in.bps; cv.run(ip, take, conv, ef, ch); }
    }
    feed.fill = [](int, Frame*) { return false; };
    std::vector<Bytes> want; AVFrame* f = av_frame_alloc(); f->format = x->sample_fmt; f->nb_samples = spf; f->sample_rate = rate; av_channel_layout_copy(&f->ch_layout, &x->ch_layout); av_frame_get_buffer(f, 0); AVPacket* p = av_packet_alloc();
    for (size_t at = 0; at + spf <= conv.samples(); at += spf) { av_frame_make_writable(f); for (int q = 0; q < ch; q++) for (unsigned i = 0; i < spf; i++) memcpy(ef == S16P ? f->data[q] + i * 2 : f->data[0] + (i * ch + q) * 2, conv.ch[q].data() + (at + i) * 2, 2); avcodec_send_frame(x, f); while (avcodec_receive_packet(x, p) >= 0) { want.push_back(Bytes(p->data, p->data + p->size)); av_packet_unref(p); } }
    av_frame_free(&f); av_packet_free(&p); avcodec_free_context(&x); const char* how = mixed ? "-rate" : ""; std::string what = vf::fmt("%u sources, in the end %s %d Hz %d channels, to %s %d Hz %d channels", sources, fmtName(srcFmt), srcRate, srcCh, codecName(k), rate, ch);
    VF_CHECK(out.size() == want.size(), std::string("packets") + how, "%s: %zu packets, expected %zu", what.c_str(), out.size(), want.size());
    for (size_t i = 0; i < out.size() && i < want.size() && !vf::failed(); i++) VF_CHECK(out[i] == want[i], std::string("coded") + how, "%s: packet %zu of %zu differs (%zu bytes, expected %zu)", what.c_str(), i, want.size(), out[i].size(), want[i].size());
    for (auto& o : out) bytes += o.size(); coded = std::min(out.size(), want.size()); sig.add((uint64_t)k).add((uint64_t)rate).add((uint64_t)ch).add((uint64_t)srcRate).add((uint64_t)coded);
    feed.disconnectWriter(DEFAULT_ID); e->disconnectWriter(DEFAULT_ID); e.reset(); vf::count(vf::fmt("%s packets compared", codecName(k)), coded); if (mixed) vf::count("packets compared after a rate conversion", coded); vf::count("encoder configurations refused", refused); vf::distinct(sig.h); (void)bytes;
}
void vf_case(vf::Ctx& c) { if (c.idx & 1) encoderCase(c); else decoderCase(c); }
