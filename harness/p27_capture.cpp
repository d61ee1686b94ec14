// P27: the camera capture against a simulated Video4Linux driver.
//!link -Wl,--wrap=open,--wrap=open64,--wrap=__open_2,--wrap=__open64_2,--wrap=close,--wrap=stat,--wrap=stat64,--wrap=lstat,--wrap=fstat,--wrap=fstat64,--wrap=ioctl,--wrap=mmap,--wrap=mmap64,--wrap=munmap
// The system calls of the capture filter on the devices /dev/vfcamN end in the driver below, which keeps the rules of the kernel
// (states of buffers, busy formats, adjusted formats and rates, padded lines, interrupted calls) and fails on demand.  The memory of
// a buffer the driver owns is made inaccessible, so that touching it is a fault; every picture it fills is remembered and the
// pictures that come out of the real queue behind the filter are compared with them.
#include "mod.hh"
#include "json_ref.hh"
#include "VideoFrame.hh"
#include "modules/V4LCapture/V4LCapture.hh"
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <linux/videodev2.h>
#include <memory>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using mod::us;
using std::string;
typedef std::vector<unsigned char> Bytes;

// ---------------------------------------------------------------- the driver
struct Picture { uint32_t w, h, format; Bytes bytes; };                    // bytes: without padding
struct Buffer { unsigned char* mem; unsigned char* own; size_t length; char state; unsigned used; };   // state: d(equeued) q(ueued) f(illed)
struct Plane { size_t width, lines, stride, at; };
static std::vector<Plane> planes(uint32_t f, size_t w, size_t h, size_t bpl) {      // bytes per line of picture and of buffer
    switch (f) {
        case V4L2_PIX_FMT_YUYV: return {{w * 2, h, bpl, 0}};
        case V4L2_PIX_FMT_RGB24: return {{w * 3, h, bpl, 0}};
        case V4L2_PIX_FMT_YUV420: { size_t c = bpl * h, d = (bpl / 2) * (h / 2); return {{w, h, bpl, 0}, {w / 2, h / 2, bpl / 2, c}, {w / 2, h / 2, bpl / 2, c + d}}; }
        case V4L2_PIX_FMT_YUV422P: { size_t c = bpl * h, d = (bpl / 2) * h; return {{w, h, bpl, 0}, {w / 2, h, bpl / 2, c}, {w / 2, h, bpl / 2, c + d}}; }
    }
    return {};
}
struct Camera {
    // abilities
    string name; std::vector<uint32_t> formats; uint32_t maxW, maxH, step, pad, extra; uint32_t caps, defW, defH; unsigned minBufs, maxBufs; std::vector<v4l2_fract> rates; bool setsRate, crops;
    // state
    int fd = -1, mem = -1; bool stream = false, rateSet = false; v4l2_pix_format pix; v4l2_fract rate; std::vector<Buffer> bufs; std::deque<unsigned> queued, filled; unsigned maps = 0; size_t slot = 0;
    // history
    std::deque<Picture> done; uint64_t opened = 0, made = 0, taken = 0;
    bool wants() { return stream && !queued.empty(); }
    void stop() { stream = false; for (Buffer& b : bufs) { if (b.mem) mprotect(b.mem, b.length, PROT_READ | PROT_WRITE); b.state = 'd'; } queued.clear(); filled.clear(); uint64_t x; while (fd >= 0 && read(fd, &x, 8) == 8) {} }
    void drop() { for (Buffer& b : bufs) munmap(b.own, b.length); bufs.clear(); if (mem >= 0) ::close(mem); mem = -1; }
    bool adjust(v4l2_pix_format& p) {
        bool known = false; for (uint32_t f : formats) known |= f == p.pixelformat; if (!known) p.pixelformat = formats[0];
        p.width = std::min(std::max(p.width, 16u), maxW) / step * step; p.height = std::min(std::max(p.height, 16u), maxH) / step * step; p.field = V4L2_FIELD_NONE;
        auto pl = planes(p.pixelformat, p.width, p.height, 0);
        if (pl.empty()) { p.bytesperline = 0; p.sizeimage = p.width * p.height * 2 + 4096; }
        else { p.bytesperline = (uint32_t)pl[0].width + pad; pl = planes(p.pixelformat, p.width, p.height, p.bytesperline); p.sizeimage = (uint32_t)(pl.back().at + pl.back().stride * pl.back().lines) + extra; }
        return true;
    }
};
static std::vector<std::unique_ptr<Camera>> cams;
static struct Faults { int call = -1, err = 0; bool fired = false; unsigned eintr = 0; vf::Rng rng; } faults;     // the call after `call` more fails
static Camera* byFd(int fd) { for (auto& c : cams) if (c->fd >= 0 && c->fd == fd) return c.get(); return NULL; }
static Camera* byName(const char* n) { for (auto& c : cams) if (c->name == n) return c.get(); return NULL; }
static bool injected(bool can) {
    if (!can || faults.call < 0 || faults.call-- > 0) return false;
    faults.fired = true; errno = faults.err; return true;
}
static int request(Camera& c, unsigned long rq, void* arg) {
    if (faults.eintr && faults.rng.chance(1, (int)faults.eintr)) { errno = EINTR; vf::count("interrupted calls"); return -1; }
    if (injected(rq != VIDIOC_CROPCAP && rq != VIDIOC_S_CROP)) return -1;
    v4l2_buffer* b = (v4l2_buffer*)arg; auto bad = [](int e) { errno = e; return -1; };
    switch (rq) {
        case VIDIOC_QUERYCAP: { auto* q = (v4l2_capability*)arg; memset(q, 0, sizeof *q); strcpy((char*)q->card, "vfcam"); q->capabilities = c.caps; return 0; }
        case VIDIOC_CROPCAP: { auto* q = (v4l2_cropcap*)arg; if (!c.crops) return bad(ENOTTY); q->defrect.left = q->defrect.top = 0; q->defrect.width = c.maxW; q->defrect.height = c.maxH; return 0; }
        case VIDIOC_S_CROP: return c.crops ? 0 : bad(ENOTTY);
        case VIDIOC_TRY_FMT: case VIDIOC_S_FMT: { auto* q = (v4l2_format*)arg; if (q->type != V4L2_BUF_TYPE_VIDEO_CAPTURE) return bad(EINVAL); if (rq == VIDIOC_S_FMT && !c.bufs.empty()) return bad(EBUSY); c.adjust(q->fmt.pix); if (rq == VIDIOC_S_FMT) c.pix = q->fmt.pix; return 0; }
        case VIDIOC_G_FMT: { auto* q = (v4l2_format*)arg; if (q->type != V4L2_BUF_TYPE_VIDEO_CAPTURE) return bad(EINVAL); q->fmt.pix = c.pix; return 0; }
        case VIDIOC_G_PARM: case VIDIOC_S_PARM: {
            auto* q = (v4l2_streamparm*)arg; if (q->type != V4L2_BUF_TYPE_VIDEO_CAPTURE) return bad(EINVAL); v4l2_fract want = q->parm.capture.timeperframe;
            if (rq == VIDIOC_S_PARM) { if (c.stream) return bad(EBUSY); if (c.setsRate && want.numerator && want.denominator) {        // the nearest of the rates it has
                double best = 1e18; for (auto& f : c.rates) { double d = std::abs((double)f.numerator / f.denominator - (double)want.numerator / want.denominator); if (d < best) { best = d; c.rate = f; } } } }
            memset(&q->parm, 0, sizeof q->parm); q->parm.capture.capability = V4L2_CAP_TIMEPERFRAME; q->parm.capture.timeperframe = c.rate; q->parm.capture.readbuffers = 2; c.rateSet = true; return 0; }
        case VIDIOC_REQBUFS: {
            auto* q = (v4l2_requestbuffers*)arg; if (q->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || q->memory != V4L2_MEMORY_MMAP) return bad(EINVAL); if (c.stream || c.maps) return bad(EBUSY);
            c.drop(); if (!q->count) return 0; q->count = std::min(std::max(q->count, c.minBufs), c.maxBufs); c.slot = (c.pix.sizeimage + 4095) / 4096 * 4096;
            c.mem = memfd_create("vfcam", 0); if (c.mem < 0 || ftruncate(c.mem, (off_t)(c.slot * q->count))) abort();
            for (unsigned i = 0; i < q->count; i++) { Buffer x; x.mem = NULL; x.length = c.slot; x.state = 'd'; x.used = 0; x.own = (unsigned char*)mmap(NULL, c.slot, PROT_READ | PROT_WRITE, MAP_SHARED, c.mem, (off_t)(i * c.slot)); if (x.own == MAP_FAILED) abort(); c.bufs.push_back(x); }
            return 0; }
        case VIDIOC_QUERYBUF: if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->index >= c.bufs.size()) return bad(EINVAL); b->length = (uint32_t)c.pix.sizeimage; b->m.offset = (uint32_t)(b->index * c.slot); b->memory = V4L2_MEMORY_MMAP; return 0;
        case VIDIOC_QBUF: {
            if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->memory != V4L2_MEMORY_MMAP || b->index >= c.bufs.size()) return bad(EINVAL); Buffer& x = c.bufs[b->index];
            VF_CHECK(x.state == 'd', "requeue", "buffer %u was given to the device while the device had it", b->index); if (x.state != 'd') return bad(EINVAL);
            if (x.mem) mprotect(x.mem, x.length, PROT_NONE); x.state = 'q'; c.queued.push_back(b->index); return 0; }
        case VIDIOC_DQBUF: {
            if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->memory != V4L2_MEMORY_MMAP || !c.stream) return bad(EINVAL); if (c.filled.empty()) return bad(EAGAIN);
            unsigned i = c.filled.front(); c.filled.pop_front(); Buffer& x = c.bufs[i]; x.state = 'd'; if (x.mem) mprotect(x.mem, x.length, PROT_READ | PROT_WRITE); uint64_t one; if (read(c.fd, &one, 8) != 8) abort();
            memset(b, 0, sizeof *b); b->index = i; b->type = V4L2_BUF_TYPE_VIDEO_CAPTURE; b->memory = V4L2_MEMORY_MMAP; b->bytesused = x.used; b->length = c.pix.sizeimage; b->m.offset = (uint32_t)(i * c.slot); c.taken++; return 0; }
        case VIDIOC_STREAMON: if (c.bufs.empty()) return bad(EINVAL); c.stream = true; return 0;
        case VIDIOC_STREAMOFF: c.stop(); return 0;
    }
    return bad(ENOTTY);
}
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*); int __real_fstat(int, struct stat*); int __real_ioctl(int, unsigned long, ...);
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
static int camOpen(const char* n) {
    Camera* c = byName(n); if (injected(true)) return -1; if (c->fd >= 0) { errno = EBUSY; return -1; }
    c->fd = eventfd(0, EFD_NONBLOCK | EFD_SEMAPHORE); c->opened++; return c->fd;
}
int __wrap_open(const char* n, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return byName(n) ? camOpen(n) : __real_open(n, fl, m); }
int __wrap_open64(const char* n, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return byName(n) ? camOpen(n) : __real_open(n, fl, m); }
int __wrap___open_2(const char* n, int fl) { return byName(n) ? camOpen(n) : __real_open(n, fl, 0); }
int __wrap___open64_2(const char* n, int fl) { return byName(n) ? camOpen(n) : __real_open(n, fl, 0); }
int __wrap_close(int fd) { if (Camera* c = byFd(fd)) { c->stop(); c->fd = -1; if (!c->maps) c->drop(); } return __real_close(fd); }
static bool node(struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFCHR | 0660; s->st_rdev = 81 << 8; return true; }
int __wrap_stat(const char* n, struct stat* s) { return byName(n) && node(s) ? 0 : __real_stat(n, s); }
int __wrap_stat64(const char* n, struct stat* s) { return byName(n) && node(s) ? 0 : __real_stat(n, s); }
int __wrap_lstat(const char* n, struct stat* s) { return byName(n) && node(s) ? 0 : __real_lstat(n, s); }
int __wrap_fstat(int fd, struct stat* s) { return byFd(fd) && node(s) ? 0 : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat* s) { return byFd(fd) && node(s) ? 0 : __real_fstat(fd, s); }
int __wrap_ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); void* p = va_arg(a, void*); va_end(a); Camera* c = byFd(fd); return c ? request(*c, rq, p) : __real_ioctl(fd, rq, p); }
void* __wrap_mmap(void* at, size_t n, int prot, int fl, int fd, off_t off) {
    Camera* c = fd >= 0 ? byFd(fd) : NULL; if (!c) return __real_mmap(at, n, prot, fl, fd, off);
    if (injected(true)) return MAP_FAILED; size_t i = c->slot ? (size_t)off / c->slot : 0;
    if (!c->slot || off % (off_t)c->slot || i >= c->bufs.size() || (n + 4095) / 4096 * 4096 != c->slot || c->bufs[i].mem) { errno = EINVAL; return MAP_FAILED; }
    unsigned char* room = (unsigned char*)__real_mmap(NULL, c->slot + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (room == MAP_FAILED) abort();     // a page out of bounds on both sides
    void* p = __real_mmap(room + 4096, c->slot, prot, MAP_SHARED | MAP_FIXED, c->mem, off); if (p == MAP_FAILED) abort(); c->bufs[i].mem = (unsigned char*)p; c->maps++; return p;
}
void* __wrap_mmap64(void* at, size_t n, int prot, int fl, int fd, off_t off) { return __wrap_mmap(at, n, prot, fl, fd, off); }
int __wrap_munmap(void* p, size_t n) {
    for (auto& c : cams) for (Buffer& b : c->bufs) if (b.mem && b.mem == p) {
        VF_CHECK((n + 4095) / 4096 * 4096 == c->slot, "unmap", "%zu bytes of a mapping of %zu unmapped", n, c->slot);
        __real_munmap(b.mem - 4096, c->slot + 8192); b.mem = NULL; c->maps--; if (c->fd < 0 && !c->maps) c->drop(); return 0; }
    return __real_munmap(p, n);
}
}
static void fill(Camera& c, vf::Rng& r) {                                    // the device completes the oldest buffer it has
    unsigned i = c.queued.front(); c.queued.pop_front(); Buffer& b = c.bufs[i]; Picture p; p.w = c.pix.width; p.h = c.pix.height; p.format = c.pix.pixelformat; uint64_t z = r.u64();
    auto next = [&]() { z = z * 6364136223846793005ull + 1442695040888963407ull; return (unsigned char)(z >> 56); };
    auto pl = planes(p.format, p.w, p.h, c.pix.bytesperline);
    memset(b.own, 0xE7, b.length);
    if (pl.empty()) { b.used = (unsigned)r.range(1, std::min<int64_t>(c.pix.sizeimage, r.chance(1, 4) ? c.pix.sizeimage : 3000)); for (unsigned k = 0; k < b.used; k++) p.bytes.push_back(b.own[k] = next()); }
    else { b.used = c.pix.sizeimage; for (Plane& q : pl) for (size_t y = 0; y < q.lines; y++) for (size_t x = 0; x < q.width; x++) p.bytes.push_back(b.own[q.at + y * q.stride + x] = next()); }
    b.state = 'f'; c.filled.push_back(i); c.done.push_back(p); c.made++; uint64_t one = 1; if (write(c.fd, &one, 8) != 8) abort();
}

// ---------------------------------------------------------------- the filter
class Probe : public V4LCapture {
public:
    std::vector<int> step(int& ret) { ret = 0; return processFrame(ret); }
};
struct Want { Camera* c = NULL; long fps = 0; uint64_t frames = 0; };           // what is being captured
static string formatName(uint32_t f) { switch (f) { case V4L2_PIX_FMT_YUYV: return "YUYV422"; case V4L2_PIX_FMT_YUV420: return "YUV420P"; case V4L2_PIX_FMT_RGB24: return "RGB24"; case V4L2_PIX_FMT_YUV422P: return "YUV422P"; case V4L2_PIX_FMT_H264: return "H264"; case V4L2_PIX_FMT_MJPEG: return "MJPEG"; } return "unknown format"; }
static uint32_t formatOf(const string& s) { return s == "YUV420" ? V4L2_PIX_FMT_YUV420 : s == "RGB24" ? V4L2_PIX_FMT_RGB24 : s == "YUV422" ? V4L2_PIX_FMT_YUV422P : s == "H264" ? V4L2_PIX_FMT_H264 : s == "MJPEG" ? V4L2_PIX_FMT_MJPEG : V4L2_PIX_FMT_YUYV; }
static PixType pixType(uint32_t f) { switch (f) { case V4L2_PIX_FMT_YUYV: return YUYV422; case V4L2_PIX_FMT_YUV420: return YUV420P; case V4L2_PIX_FMT_RGB24: return RGB24; case V4L2_PIX_FMT_YUV422P: return YUV422P; } return P_NONE; }
static string text(const Jzon::Object& o, const char* n) { return o.Has(n) ? o.Get(n).ToString() : "<none>"; }
static void checkState(Probe& f, const Want& w, bool mayDrift) {
    Jzon::Object o; static_cast<BaseFilter&>(f).getState(o); vf::count("states compared");
    if (!w.c) { VF_CHECK(text(o, "status") == "close" && !o.Has("device"), "state", "nothing is captured, the state says %s", mod::state(f).c_str()); return; }
    long fps = o.Has("fps") ? (long)o.Get("fps").ToInt() : -1;
    VF_CHECK(text(o, "status") == "capture" && text(o, "device") == w.c->name && o.Get("width").ToInt() == (int)w.c->pix.width && o.Get("height").ToInt() == (int)w.c->pix.height && text(o, "format") == formatName(w.c->pix.pixelformat)
             && (mayDrift || std::abs(fps - w.fps) <= 1 + w.fps / 100), "state", "capturing %s %ux%u %s at %ld per second, the state says %s", w.c->name.c_str(), w.c->pix.width, w.c->pix.height, formatName(w.c->pix.pixelformat).c_str(), w.fps, mod::state(f).c_str());
}
static void checkReleased(const char* when) {
    for (auto& c : cams) VF_CHECK(c->fd < 0 && !c->maps, "released", "%s: %s is %s and %u buffers are mapped", when, c->name.c_str(), c->fd < 0 ? "closed" : "open", c->maps);
}
static std::unique_ptr<Camera> make(vf::Rng& r, const string& name, bool large) {
    std::unique_ptr<Camera> c(new Camera()); c->name = name; memset(&c->pix, 0, sizeof c->pix);
    std::vector<uint32_t> all = {V4L2_PIX_FMT_YUYV, V4L2_PIX_FMT_YUV420, V4L2_PIX_FMT_RGB24, V4L2_PIX_FMT_YUV422P, V4L2_PIX_FMT_H264, V4L2_PIX_FMT_MJPEG}, some; for (uint32_t f : all) if ((f == V4L2_PIX_FMT_H264 ? r.chance(1, 12) : r.chance(1, 2))) some.push_back(f);
    if (some.empty()) some.push_back(V4L2_PIX_FMT_YUYV); if (some[0] == V4L2_PIX_FMT_MJPEG && r.chance(1, 2)) some.insert(some.begin(), V4L2_PIX_FMT_YUYV); c->formats = some;
    c->step = r.pick({2u, 2u, 4u, 16u}); c->maxW = (uint32_t)r.range(32, large ? 2600 : 400); c->maxH = (uint32_t)r.range(32, large ? 1500 : 300); c->defW = 64; c->defH = 48;
    c->pad = r.chance(1, 2) ? 0 : (uint32_t)r.pick({2u, 16u, 32u, 62u, 128u}); c->extra = r.chance(1, 2) ? 0 : (uint32_t)r.range(1, 5000); c->caps = V4L2_CAP_VIDEO_CAPTURE | V4L2_CAP_STREAMING | V4L2_CAP_DEVICE_CAPS;
    if (r.chance(1, 30)) c->caps &= ~(uint32_t)V4L2_CAP_STREAMING; else if (r.chance(1, 30)) c->caps &= ~(uint32_t)V4L2_CAP_VIDEO_CAPTURE;
    c->minBufs = (unsigned)r.pick({1u, 2u, 3u, 6u}); c->maxBufs = r.chance(1, 25) ? 1 : (unsigned)r.pick({2u, 3u, 4u, 8u, 32u}); if (c->minBufs > c->maxBufs) c->minBufs = c->maxBufs; c->setsRate = r.chance(5, 6); c->crops = r.chance(1, 2);
    c->rates = {{1, 30}, {1, 15}, {1, 60}, {1, 200}, {1, 500}}; if (r.chance(1, 2)) c->rates = {{1001, 30000}, {1001, 60000}, {1, 120}, {1, 5}}; else if (r.chance(1, 4)) c->rates = {{333333, 10000000}, {10, 1000}, {2, 25}, {3333, 1000000}}; c->rate = c->rates[0];
    c->pix.width = c->defW; c->pix.height = c->defH; c->pix.pixelformat = c->formats[0]; c->adjust(c->pix); return c;
}
void vf_case(vf::Ctx& x) {
    vf::Rng& r = x.rng; bool large = r.chance(1, 12); cams.clear(); faults = Faults(); faults.rng = vf::Rng(r.u64());
    unsigned n = (unsigned)r.range(1, 2); for (unsigned i = 0; i < n; i++) cams.push_back(make(r, "/dev/vfcam" + std::to_string(i), large));
    if (r.chance(1, 3)) faults.eintr = (unsigned)r.range(3, 10);
    std::unique_ptr<Probe> f(new Probe()); f->setId(1); mod::Catch sink; sink.setId(2); Want w; bool linked = false, comparable = true; uint32_t kind = 0; uint64_t got = 0; size_t room = 0; vf::Hash sig;
    std::deque<Picture> sent; long last = -1; uint64_t lastSeq = 0; std::chrono::microseconds t0(0), t1(0);
    sink.got = [&](int, Frame* g) {
        if (!comparable) return; VideoFrame* v = dynamic_cast<VideoFrame*>(g); VF_CHECK(v && !sent.empty(), "unexpected", "a frame though the device completed no picture"); if (!v || sent.empty()) return; Picture p = sent.front(); sent.pop_front(); got++;
        VF_CHECK(v->getWidth() == (int)p.w && v->getHeight() == (int)p.h && v->getPixelFormat() == pixType(p.format), "format", "a picture of %ux%u %s came as %dx%d format %d", p.w, p.h, formatName(p.format).c_str(), v->getWidth(), v->getHeight(), v->getPixelFormat());
        size_t k = 0; while (k < p.bytes.size() && k < v->getMaxLength() && v->getDataBuf()[k] == p.bytes[k]) k++;
        VF_CHECK(k == p.bytes.size(), "pixels", "a picture of %ux%u %s (%zu bytes) differs from byte %zu on", p.w, p.h, formatName(p.format).c_str(), p.bytes.size(), k);
        VF_CHECK(v->getLength() == p.bytes.size(), "length", "a picture of %ux%u %s of %zu bytes has a length of %u", p.w, p.h, formatName(p.format).c_str(), p.bytes.size(), v->getLength());
        us pt = v->getPresentationTime(); VF_CHECK(pt >= t0 && pt <= t1 && v->getDecodeTime() == pt, "time", "captured between %ld and %ld, stamped %ld", (long)t0.count(), (long)t1.count(), (long)pt.count());
        VF_CHECK((long)pt.count() >= last && (got == 1 || v->getSequenceNumber() > lastSeq), "order", "time %ld after %ld, number %zu after %llu", (long)pt.count(), last, v->getSequenceNumber(), (unsigned long long)lastSeq); last = (long)pt.count(); lastSeq = v->getSequenceNumber();
    };
    auto now = []() { return std::chrono::duration_cast<us>(std::chrono::high_resolution_clock::now().time_since_epoch()); };
    unsigned rounds = (unsigned)r.range(6, x.thorough ? 120 : 40);
    for (unsigned s = 0; s < rounds && !vf::failed(); s++) {
        unsigned op = s == 0 ? 0 : (unsigned)r.below(24);
        if (op <= 1) {                                                                     // a request
            Camera* c = cams[r.below(cams.size())].get(); string dev = c->name; long width = r.pick({16, 64, 100, 320, 640, 1920, 4000}), height = r.pick({16, 48, 66, 240, 480, 1080, 3000}), fps = r.pick({5, 15, 25, 30, 60, 100, 200, 333, 500});
            if (large && r.chance(1, 3)) { width = 4000; height = 3000; } else if (large ? r.chance(1, 4) : r.chance(2, 3)) { width = (long)r.range(16, 120); height = (long)r.range(16, 90); } string fmt = r.pick<string>({"YUYV", "YUV420", "RGB24", "YUV422", "MJPEG", "H264", "none", ""}); if (fmt == "H264" && r.chance(3, 4)) fmt = "YUYV"; bool force = r.chance(4, 5), valid = true, refuse = false;
            if (r.chance(1, 8)) { refuse = true; dev = r.pick<string>({"/dev/null", x.dir + "/file", x.dir + "/nothing", ""}); if (dev == x.dir + "/file") { FILE* p = fopen(dev.c_str(), "w"); if (p) fclose(p); } }
            if (r.chance(1, 10)) { fps = r.pick({0, 0, -1, -30}); valid = false; }
            bool direct = r.chance(1, 3); Jzon::Object p; if (!direct) {
                p.Add("device", dev); p.Add("width", (int)width); p.Add("height", (int)height); p.Add("fps", (int)fps); bool dflt = !r.chance(3, 4); if (!dflt) p.Add("format", fmt); else fmt = "YUYV"; if (r.chance(3, 4)) p.Add("forceformat", force); else force = true;
                if (r.chance(1, 10)) { valid = false; switch (r.below(6)) { case 0: p.Remove("device"); break; case 1: p.Remove("width"); break; case 2: p.Remove("height"); break; case 3: p.Remove("fps"); break; case 4: p.Remove("height"); p.Add("height", "tall"); break; default: p.Remove("forceformat"); p.Add("forceformat", 3); } }
            } else if (fps < 0) fps = 0;
            bool faulty = valid && !refuse && r.chance(1, 5); if (faulty) { faults.call = (int)r.below(20); faults.err = r.pick({EIO, ENODEV, EINVAL, ENOMEM, EBUSY}); faults.fired = false; }
            bool res = true; if (direct) res = f->configure(dev, (unsigned)width, (unsigned)height, (unsigned)fps, fmt, force); else mod::event(*f, "configure", p);
            faults.call = -1; bool fired = faulty && faults.fired; vf::count("requests"); if (fired) vf::count("failing calls");
            Jzon::Object o; static_cast<BaseFilter&>(*f).getState(o); bool capturing = text(o, "status") == "capture";
            if (!valid) { VF_CHECK(!direct || !res, "refused", "%ld pictures per second were accepted", fps); VF_CHECK(capturing == (w.c != NULL), "unchanged", "a refused request: %s became %s", w.c ? "capture" : "close", mod::state(*f).c_str()); vf::count("requests refused"); }
            else {
                bool able = !refuse && (c->caps & V4L2_CAP_STREAMING) && (c->caps & V4L2_CAP_VIDEO_CAPTURE) && c->maxBufs >= 2;
                VF_CHECK(fired || capturing == able, "configured", "%s %ldx%ld %s at %ld per second %s: %s", dev.c_str(), width, height, fmt.c_str(), fps, able ? "should be captured" : "can not be captured", mod::state(*f).c_str());
                VF_CHECK(!direct || res == capturing, "result", "configure answered %d, the filter says %s", (int)res, mod::state(*f).c_str());
                for (auto& k : cams) { bool on = capturing && k.get() == c; VF_CHECK((k->fd >= 0) == on && k->stream == on && (k->maps > 0) == on, "device", "%s is %s, %s, with %u buffers mapped while the filter says %s", k->name.c_str(), k->fd >= 0 ? "open" : "closed", k->stream ? "streaming" : "stopped", k->maps, mod::state(*f).c_str()); k->done.clear(); }
                w = Want(); if (capturing) {
                    w.c = c; w.fps = (long)((double)c->rate.denominator / c->rate.numerator + 0.5); w.frames = 0; vf::count("devices configured"); sig.add((uint64_t)c->pix.width).add((uint64_t)c->pix.height).add((uint64_t)c->pix.pixelformat).add((uint64_t)c->pix.bytesperline);
                    if (force) { v4l2_pix_format want; memset(&want, 0, sizeof want); want.width = (uint32_t)width; want.height = (uint32_t)height; want.pixelformat = formatOf(fmt); c->adjust(want);
                        VF_CHECK(c->pix.width == want.width && c->pix.height == want.height && c->pix.pixelformat == want.pixelformat, "requested", "%ldx%ld %s requested, the device was set to %ux%u %s", width, height, fmt.c_str(), c->pix.width, c->pix.height, formatName(c->pix.pixelformat).c_str()); }
                    if (c->setsRate) { double best = 1e18; v4l2_fract m = c->rates[0]; for (auto& q : c->rates) { double d = std::abs((double)q.numerator / q.denominator - 1.0 / fps); if (d < best) { best = d; m = q; } } VF_CHECK(m.numerator == c->rate.numerator && m.denominator == c->rate.denominator, "rate", "%ld per second requested, the device was set to %u/%u s", fps, c->rate.numerator, c->rate.denominator); }
                    uint32_t k = pixType(c->pix.pixelformat) == P_NONE ? c->pix.pixelformat : 1; if (linked && k != kind) comparable = false;       // the queue holds frames of the other kind
                    if (!linked || k == kind) comparable = true;
                }
            }
            checkState(*f, w, w.frames > 100); if (!w.c) checkReleased("not capturing"); continue;
        }
        if (op == 2 && r.chance(1, 3)) {                                                 // the device is given back
            bool fail = r.chance(1, 3); if (fail) { faults.call = 0; faults.err = ENODEV; } f->releaseDevice(); faults.call = -1; if (fail) vf::count("failing calls"); w = Want(); for (auto& k : cams) k->done.clear(); checkReleased("released"); checkState(*f, w, false); vf::count("devices released"); continue;
        }
        if (op == 3) { checkState(*f, w, w.frames > 100); continue; }
        if (!linked && (op == 4 || s == 1)) {
            bool can = w.c && w.c->pix.pixelformat != V4L2_PIX_FMT_MJPEG; bool ok = f->connectOneToOne(&sink); VF_CHECK(ok == can, "connect", "connecting %s", ok ? "worked though nothing (suitable) is captured" : "failed"); linked = ok; if (ok) { PixType q = pixType(w.c->pix.pixelformat); room = q == YUYV422 ? 1920u * 1080 * 2 : q == P_NONE ? 2u << 20 : 1920u * 1080 * 3; kind = pixType(w.c->pix.pixelformat) == P_NONE ? w.c->pix.pixelformat : 1; comparable = true; vf::count("connections"); } continue;
        }
        if (!linked) continue;
        unsigned k = (unsigned)r.below(r.chance(1, 4) ? 5 : 2) + (r.chance(1, 10) ? 0 : 1); if (w.c) while (k-- && w.c->wants()) fill(*w.c, r);
        bool idle = !w.c || w.c->filled.empty(), fail = w.c && !idle && r.chance(1, 25); if (idle && w.c && w.fps < 100 && !r.chance(1, 8)) continue;        // a silent device makes the filter wait for a frame's time
        if (fail) { faults.call = (int)r.below(2); faults.err = r.pick({EIO, EAGAIN, EINVAL}); faults.fired = false; }
        uint64_t before = w.c ? w.c->taken : 0; uint64_t g0 = got; int ret = 0; t0 = now(); std::vector<int> en = f->step(ret); t1 = now(); bool fired = fail && faults.fired; faults.call = -1; if (fired) vf::count("failing calls");
        unsigned took = w.c ? (unsigned)(w.c->taken - before) : 0;
        VF_CHECK(took <= 1 && (idle ? !took : (took == 1 || fired)), "taken", "%u pictures taken from the device in one round, %s", took, idle ? "though none was ready" : "though one was ready");
        bool fits = true; if (took) { Picture p = w.c->done.front(); w.c->done.pop_front(); fits = p.bytes.size() <= room; if (!fired && fits) sent.push_back(p); }
        if (idle && w.c) vf::count("rounds without a picture"); if (took && !fits) vf::count("pictures too large for the queue");
        
        for (int i = 0; i < 3; i++) sink.step(); VF_CHECK(sent.empty() || !comparable, "lost", "a picture the device completed did not come out"); sent.clear();
        if (took) { w.frames++; vf::count("pictures taken"); } if (got > g0) vf::count("pictures compared", got - g0);
        if (w.c && !fired) for (size_t i = 0; i < w.c->bufs.size(); i++) VF_CHECK(w.c->bufs[i].state != 'd', "returned", "buffer %zu was not given back to the device", i);
        if (fired && w.c) { /* a buffer may stay out when giving it back failed; start over */ bool out = false; for (Buffer& b : w.c->bufs) out |= b.state == 'd'; if (out) { f->releaseDevice(); w = Want(); for (auto& q : cams) q->done.clear(); checkReleased("released"); } }
        if (w.c) VF_CHECK(ret <= (int)(1000000.0 * w.c->rate.numerator / w.c->rate.denominator * 1.1) + 2, "delay", "asked to be called again in %d us at %ld per second", ret, w.fps);
        if (w.frames > 120) { f->releaseDevice(); w = Want(); for (auto& q : cams) q->done.clear(); }                        // the filter starts to follow the rate it sees
    }
    bool was = w.c != NULL; if (was && r.chance(1, 6)) { faults.call = 0; faults.err = ENODEV; vf::count("failing calls"); }
    f.reset(); faults.call = -1; checkReleased("destroyed"); for (auto& c : cams) { sig.add(c->opened); sig.add(c->taken); }
    if (got) vf::distinct(sig.h); if (x.idx < 3) vf::sample(vf::fmt("case %llu: %u devices, %llu pictures compared", (unsigned long long)x.idx, n, (unsigned long long)got)); cams.clear();
}
