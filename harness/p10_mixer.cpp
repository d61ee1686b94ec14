// P10: the audio mixer against an online reference mix at the filter boundary.
#include "mod.hh"
#include "AudioCircularBuffer.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include <cmath>
using mod::us;
static const int N = 4800, OUT = 960, THR = 2880, RATE = 48000; static const float TH = 0.6f;

class Probe : public AudioMixer {
public:
    std::map<int, float> gain; float master; std::map<int64_t, std::pair<float, float>> mix; int64_t front, rear, sync; bool synced;
    uint64_t outs, restarts, past, over, mixed, overlaps, loud; vf::Hash sig; std::function<void(Frame*)> onOut; int64_t lastTs; bool haveLast, restarted; std::map<int64_t, int> who;
    Probe() : master(0.6f), front(0), rear(0), sync(0), synced(false), outs(0), restarts(0), past(0), over(0), mixed(0), overlaps(0), loud(0), lastTs(0), haveLast(false), restarted(false) {}
    void events() { this->BaseFilter::processEvent(); }
    bool run(std::map<int, Frame*>& o, Frame* d, std::vector<int> nf) { return doProcessFrame(o, d, nf); }
    std::vector<int> step() { int r = 0; return processFrame(r); }
    static float comp(float v) { if (v > TH) return ((1 - TH) / (2 - TH)) * v + TH / (2 - TH); if (v < -TH) return ((1 - TH) / (2 - TH)) * v - TH / (2 - TH); return v; }
protected:
    bool doProcessFrame(std::map<int, Frame*>& org, Frame* dst, std::vector<int> nf) {
        for (int id : nf) {
            PlanarAudioFrame* f = dynamic_cast<PlanarAudioFrame*>(org[id]); if (!f) continue;
            if (f->getSampleFmt() != FLTP || f->getChannels() != 2 || f->getSampleRate() != (unsigned)RATE) { vf::count("foreign formats"); continue; }
            int64_t n = f->getSamples(), ts = f->getPresentationTime().count(); if (n > N) { over++; continue; }
            if (!synced) { synced = true; sync = ts; }
            int64_t d = ts - sync, pos = d * RATE / 1000000;
            if (pos >= 0 && pos < front) { past++; sig.add(1); continue; }
            if (pos < 0 || pos > front + N - n) { if (N - (rear - front) < n) { over++; sig.add(2); continue; } restarts++; front = rear = 0; sync = ts; pos = 0; mix.clear(); who.clear(); restarted = true; sig.add(3); }
            float g = gain.count(id) ? gain[id] : 0;
            for (int64_t i = 0; i < n; i++) { auto& m = mix[pos + i]; float a, b; memcpy(&a, f->getPlanarDataBuf()[0] + 4 * i, 4); memcpy(&b, f->getPlanarDataBuf()[1] + 4 * i, 4); m.first = comp(m.first + a * g * master); m.second = comp(m.second + b * g * master); if (fabsf(m.first) > TH) loud++; if (++who[pos + i] > 1) overlaps++; }
            rear = std::max(rear, pos + n); mixed += n; sig.add(4).add((uint64_t)(pos - front) / 240);
        }
        bool r = AudioMixer::doProcessFrame(org, dst, nf); bool want = rear - front >= THR;
        VF_CHECK(r == want && (!r || dst->getConsumed()), "output-due", "%lld samples buffered, frame %s", (long long)(rear - front), r ? "produced" : "not produced");
        if (!r || !want) return r;
        PlanarAudioFrame* o = dynamic_cast<PlanarAudioFrame*>(dst); outs++;
        VF_CHECK(o->getSamples() == (unsigned)OUT && o->getLength() == OUT * 4u && o->getChannels() == 2 && o->getSampleRate() == (unsigned)RATE, "shape", "%u samples, %u bytes, %u channels at %u Hz", o->getSamples(), o->getLength(), o->getChannels(), o->getSampleRate());
        int64_t due = sync + front * 1000000 / RATE, ts = o->getPresentationTime().count();
        VF_CHECK(ts == due, "time", "frame stamped %lld, its first sample is due at %lld", (long long)ts, (long long)due);
        if (haveLast && !restarted) VF_CHECK(ts - lastTs == 20000, "advance", "timestamps advance by %lld us", (long long)(ts - lastTs));
        lastTs = ts; haveLast = true; restarted = false;
        for (int i = 0; i < OUT && !vf::failed(); i++) {
            auto it = mix.find(front + i); std::pair<float, float> e = it == mix.end() ? std::make_pair(0.f, 0.f) : it->second; float a, b; memcpy(&a, o->getPlanarDataBuf()[0] + 4 * i, 4); memcpy(&b, o->getPlanarDataBuf()[1] + 4 * i, 4);
            VF_CHECK(fabsf(a - e.first) < 1e-5f && fabsf(b - e.second) < 1e-5f, it == mix.end() ? "silence" : "sum", "sample %lld is %g/%g, expected %g/%g", (long long)(front + i), a, b, e.first, e.second);
        }
        mix.erase(mix.begin(), mix.lower_bound(front + OUT)); who.erase(who.begin(), who.lower_bound(front + OUT)); front += OUT; if (onOut) onOut(dst); return r;
    }
};

static void checkState(Probe& m) {
    Jzon::Object o; m.getState(o); VF_CHECK(o.Get("channels").ToInt() == 2 && o.Get("sampleRate").ToInt() == RATE && o.Get("sampleFormat").ToString() == "fltp" , "state", "state %s", mod::state(m).c_str());
    VF_CHECK(fabs(o.Get("masterGain").ToFloat() - m.master) < 1e-4, "master-gain", "master gain %g reported, set to %g", o.Get("masterGain").ToFloat(), m.master);
    const Jzon::Array& g = o.Get("gains").AsArray(); bool ok = g.GetCount() == m.gain.size(); for (size_t i = 0; ok && i < g.GetCount(); i++) { const Jzon::Object& x = g.Get(i).AsObject(); auto it = m.gain.find(x.Get("id").ToInt()); ok = it != m.gain.end() && fabs(x.Get("gain").ToFloat() - it->second) < 1e-4; }
    VF_CHECK(ok, "gains", "gains reported %s", mod::state(m).c_str()); vf::count("states compared");
}
static void request(vf::Rng& r, Probe& m, const std::vector<int>& ids) {
    int id = r.chance(4, 5) && !ids.empty() ? r.pick(ids) : (int)r.range(-3, 99999); float v = r.range(-32, 96) / 64.0f; if (r.chance(1, 3)) v = r.pick({0.f, 1.f, 1.5f, -0.25f, 1000.f}); float c = v > 1 ? 1 : v < 0 ? 0 : v; bool known = m.gain.count(id); Jzon::Object p; bool viaEvent = r.chance(1, 2);
    switch (r.below(6)) {
    case 0: if (viaEvent) { p.Add("id", id); p.Add("gain", v); mod::event(m, "changeChannelGain", p); } else m.changeChannelGain(id, v); if (known) m.gain[id] = c; break;
    case 1: if (viaEvent) { p.Add("id", id); mod::event(m, "muteChannel", p); } else m.muteChannel(id); if (known) m.gain[id] = 0; break;
    case 2: if (viaEvent) { p.Add("id", id); mod::event(m, "soloChannel", p); } else m.soloChannel(id); if (known) for (auto& g : m.gain) g.second = g.first == id ? 1 : 0; break;
    case 3: if (viaEvent) { p.Add("gain", v); mod::event(m, "changeMasterGain", p); } else m.changeMasterGain(v); m.master = c; break;
    case 4: if (viaEvent) mod::event(m, "muteMaster", p, false); else m.muteMaster(); m.master = 0; break;
    case 5: { bool a = r.chance(1, 2); if (a) p.Add("id", id); mod::event(m, r.pick({"changeChannelGain", a ? "changeMasterGain" : "soloChannel", a ? "nosuch" : "muteChannel"}), p, r.chance(3, 4)); vf::count("incomplete requests"); break; }
    }
    m.events(); vf::count("gain requests"); if (known && (v > 1 || v < 0)) vf::count("gains out of range");
}

struct Chan { int w, r; int64_t pts; uint64_t k; };
static void noise(vf::Rng& r, PlanarAudioFrame* f, unsigned n, float amp, unsigned ch) { for (unsigned c = 0; c < ch; c++) for (unsigned i = 0; i < n; i++) { float v = (float)((r.unit() * 2 - 1) * amp); memcpy(f->getPlanarDataBuf()[c] + 4 * i, &v, 4); } }

// more than 2^31 samples (half a day of audio; 2^32 when thorough) through one mixer
class Bare : public AudioMixer { public: bool run(std::map<int, Frame*>& o, Frame* d, std::vector<int> nf) { return doProcessFrame(o, d, nf); } };
static void longStream(bool deep) {
    std::unique_ptr<Bare> m(new Bare()); mod::Feed feed; feed.setId(1); m->setId(2); feed.mk = [](ConnectionData d) { return AudioCircularBuffer::createNew(d, 2, RATE, 320, FLTP); }; if (!feed.connectManyToMany(m.get(), 5, 6)) { vf::fail("connect", "refused"); return; }
    std::unique_ptr<PlanarAudioFrame> f(PlanarAudioFrame::createNew(2, RATE, 8, PCM, FLTP)), d(PlanarAudioFrame::createNew(2, RATE, OUT, PCM, FLTP)); std::map<int, Frame*> o; o[5] = f.get(); std::vector<int> nf(1, 5);
    const int64_t t0 = 7000000; int64_t front = 0, total = (1ll << (deep ? 32 : 31)) / OUT + 5000; float last[4] = {0, 0, 0, 0};
    for (int64_t k = 0; k < total && !vf::failed(); k++) {       // one sample per frame time, three frame times ahead
        float v = 0.25f + (float)(k % 977) / 8192; memcpy(f->getPlanarDataBuf()[0], &v, 4); memcpy(f->getPlanarDataBuf()[1], &v, 4); f->setSamples(1); f->setPresentationTime(us(t0 + k * 20000)); last[k & 3] = v * 0.6f;
        bool r = m->run(o, d.get(), nf), want = k * OUT + 1 - front >= THR; VF_CHECK(r == want, "long-stream", "after %lld samples a frame is %s", (long long)(k * OUT), r ? "produced" : "not produced"); if (!r) continue;
        float a; memcpy(&a, d->getPlanarDataBuf()[0], 4); VF_CHECK(d->getPresentationTime().count() == t0 + front * 1000000 / RATE, "long-stream", "after %lld samples a frame is stamped %lld", (long long)front, (long long)d->getPresentationTime().count());
        VF_CHECK(fabsf(a - last[(front / OUT) & 3]) < 1e-5, "long-stream", "after %lld samples the mix is %g instead of %g", (long long)front, a, last[(front / OUT) & 3]); front += OUT;
    }
    vf::count("samples in long streams", front); vf::distinct((uint64_t)front);
}

void vf_case(vf::Ctx& c) {
    if (getenv("VF_LONG")) { if (c.idx == 0) longStream(c.thorough); return; }
    vf::Rng& r = c.rng; bool direct = c.idx % 3 != 2; std::unique_ptr<Probe> m(new Probe()); std::unique_ptr<mod::Feed> feed(new mod::Feed()), alien(new mod::Feed()); std::unique_ptr<mod::Catch> sink(new mod::Catch());
    feed->setId(1); m->setId(2); sink->setId(3); alien->setId(4); unsigned k = r.range(1, r.chance(1, 4) ? 16 : 4); feed->mk = [](ConnectionData d) { return AudioCircularBuffer::createNew(d, 2, RATE, 320, FLTP); };
    unsigned ach = 1, arate = RATE; SampleFmt afmt = FLTP; switch (r.below(3)) { case 0: break; case 1: ach = 2; arate = r.pick({8000u, 44100u, 96000u}); break; default: ach = 2; afmt = r.pick({S16P, U8P}); } 
    alien->mk = [=](ConnectionData d) { return AudioCircularBuffer::createNew(d, ach, arate, 320, afmt); };
    std::vector<Chan> ch; std::vector<int> ids; 
    auto add = [&]() { Chan x; x.r = 100 + (int)ch.size() * 7; x.w = 500 + (int)ch.size(); x.pts = 0; x.k = 0; if (!feed->connectManyToMany(m.get(), x.r, x.w)) { vf::fail("connect", "connection refused"); return; } ch.push_back(x); m->gain[x.r] = 1; ids.push_back(x.r); };
    for (unsigned i = 0; i < k && !vf::failed(); i++) add(); if (vf::failed()) return;
    VF_CHECK(m->connectOneToOne(sink.get()), "connect", "output connection refused"); bool haveAlien = ch.size() < 16 && r.chance(1, 6) && alien->connectManyToMany(m.get(), 9000, 9001); if (haveAlien) { m->gain[9000] = 1; }
    checkState(*m); float amp = r.pick({0.05f, 0.3f, 1.0f, 2.0f}); bool unit = r.chance(1, 5);
    if (unit) { m->changeMasterGain(1); m->master = 1; m->events(); amp = 0.59f; }
    int64_t base = r.chance(1, 3) ? 0 : (int64_t)r.below(1ull << r.range(1, 45)); unsigned rounds = r.range(20, c.thorough ? 300 : 80); int64_t now = base; bool wild = r.chance(1, 3); int64_t skewMax = r.pick({0, 1000, 30000, 90000});
    for (auto& x : ch) x.pts = base + (int64_t)r.below(skewMax + 1);
    if (direct) {
        std::vector<std::unique_ptr<PlanarAudioFrame>> fr; for (auto& x : ch) { (void)x; fr.emplace_back(PlanarAudioFrame::createNew(2, RATE, 6000, PCM, FLTP)); } std::unique_ptr<PlanarAudioFrame> dst(PlanarAudioFrame::createNew(2, RATE, OUT, PCM, FLTP)), odd(PlanarAudioFrame::createNew(ach, arate, 6000, PCM, afmt));
        unsigned n = r.chance(1, 2) ? 960 : (unsigned)r.range(1, 1500);
        for (unsigned s = 0; s < rounds && !vf::failed(); s++) {
            std::map<int, Frame*> o; std::vector<int> nf; now += (int64_t)n * 1000000 / RATE;
            for (size_t i = 0; i < ch.size(); i++) { if (!r.chance(5, 6)) { if (r.chance(1, 2)) continue; ch[i].pts += (int64_t)n * 1000000 / RATE; continue; }
                unsigned q = r.chance(1, 12) ? (unsigned)r.range(0, 6000) : n; noise(r, fr[i].get(), q, amp, 2); fr[i]->setSamples(q); fr[i]->setLength(q * 4); int64_t t = ch[i].pts;
                if (wild && r.chance(1, 15)) t = ch[i].pts = std::max<int64_t>(0, ch[i].pts + r.pick({(int64_t)r.range(-200000, 200000), (int64_t)r.range(-3000, 3000), (int64_t)r.below(1ull << 42), -(int64_t)r.below(1ull << 36)}));
                fr[i]->setPresentationTime(us(t)); ch[i].pts += (int64_t)q * 1000000 / RATE; o[ch[i].r] = fr[i].get(); nf.push_back(ch[i].r); }
            if (haveAlien && r.chance(1, 4)) { odd->setSamples(r.range(1, 6000)); odd->setPresentationTime(us(now)); o[9000] = odd.get(); nf.push_back(9000); }
            if (nf.empty()) continue; dst->setConsumed(false); m->run(o, dst.get(), nf);
            if (r.chance(1, 8) && !unit) request(r, *m, ids); if (r.chance(1, 20)) checkState(*m);
            if (r.chance(1, 60) && ids.size() > 1) { size_t i = r.below(ids.size()); VF_CHECK(m->disconnectReader(ids[i]), "disconnect", "reader %d not disconnected", ids[i]); m->gain.erase(ids[i]); ids.erase(ids.begin() + i); ch.erase(ch.begin() + i); fr.erase(fr.begin() + i); checkState(*m); vf::count("inputs removed"); }
        }
    } else {
        // the whole path: sources write blocks of any length into audio buffers, the mixer's own queue delivers the result
        std::vector<float> sent, got; m->onOut = [&](Frame* f) { for (int i = 0; i < OUT; i++) { float v; memcpy(&v, f->getPlanarDataBuf()[0] + 4 * i, 4); sent.push_back(v); } };
        sink->got = [&](int, Frame* f) { PlanarAudioFrame* a = dynamic_cast<PlanarAudioFrame*>(f); for (unsigned i = 0; i < a->getSamples(); i++) { float v; memcpy(&v, a->getPlanarDataBuf()[0] + 4 * i, 4); got.push_back(v); } };
        unsigned n = r.chance(1, 2) ? 960 : (unsigned)r.range(200, 1024);
        feed->fill = [&](int w, Frame* f) { for (auto& x : ch) if (x.w == w) { PlanarAudioFrame* a = dynamic_cast<PlanarAudioFrame*>(f); if (wild && r.chance(1, 12)) { x.k += (uint64_t)r.below(280); } noise(r, a, n, amp, 2); a->setSamples(n); a->setLength(n * 4); a->setPresentationTime(us(x.pts + (int64_t)(x.k * 1000000 / RATE))); x.k += n; return true; } return false; };
        alien->fill = [&](int, Frame* f) { PlanarAudioFrame* a = dynamic_cast<PlanarAudioFrame*>(f); unsigned q = AudioFrame::getDefaultSamples(arate); a->setSamples(q); a->setLength(q * 4); a->setPresentationTime(us(now)); now += 20000; return true; };
        for (unsigned s = 0; s < rounds && !vf::failed(); s++) { feed->step(); if (haveAlien) alien->step(); m->step(); if (r.chance(1, 8) && !unit) request(r, *m, ids); m->step(); if (r.chance(3, 4)) sink->step(); if (r.chance(1, 20)) checkState(*m); }
        if (!m->restarts) { VF_CHECK(got.size() <= sent.size() && std::equal(got.begin(), got.end(), sent.begin()), "delivery", "the samples delivered are not the samples mixed (%zu of %zu)", got.size(), sent.size()); vf::count("samples delivered", got.size()); }
    }
    if (unit && ch.size() == 1) vf::count("unit-gain single inputs");
    // 16 bit helpers: exact both ways
    for (int i = 0; i < 40; i++) { short v = r.pick({(short)r.range(-32768, 32767), (short)-32768, (short)32767, (short)0}); unsigned char b[2] = {(unsigned char)(v & 255), (unsigned char)((v >> 8) & 255)}, b2[2]; float f; VF_CHECK(AudioMixer::bytesToFloat(b, f, S16P) && f == v / 32768.0f && AudioMixer::floatToBytes(b2, f, S16P) && !memcmp(b, b2, 2), "s16", "sample %d", v); }
    { unsigned char b[2]; float f; AudioMixer::floatToBytes(b, r.pick({1.0f, 1.2f, 0.99999f}), S16P); AudioMixer::bytesToFloat(b, f, S16P); VF_CHECK(f > 0.99f, "s16", "full scale becomes %g", f); }
    vf::count("frames mixed out", m->outs); vf::count("timeline restarts", m->restarts); vf::count("late input ignored", m->past); vf::count("oversized or far input dropped", m->over); vf::count("samples mixed in", m->mixed); vf::count("samples overlapping", m->overlaps); vf::count("compressed samples", m->loud);
    vf::distinct(m->sig.h); if (c.idx < 4) vf::sample(vf::fmt("case %llu (%s): %zu inputs, %llu frames out, %llu restarts, %llu late", (unsigned long long)c.idx, direct ? "direct" : "path", ch.size(), (unsigned long long)m->outs, (unsigned long long)m->restarts, (unsigned long long)m->past));
}
