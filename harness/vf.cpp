#include "vf.hh"
#include "leak.hh"
#include "Utils.hh"
#include <cstdarg>
#include <mutex>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <log4cplus/logger.h>
#include <log4cplus/configurator.h>

namespace vf {
static std::mutex mtx;
static FILE* out = NULL;
static Ctx* cur = NULL;
static std::map<std::string, uint64_t> counters;
static std::unordered_set<uint64_t> sigs;
static std::vector<std::string> samples;
static size_t nfail = 0, caseFail = 0;
static bool leakMode = false;

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
std::string fmt(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
void fail(const std::string& key, const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    leak::Off o; std::lock_guard<std::mutex> g(mtx);
    if (leakMode && key.compare(0, 5, "leak ")) { caseFail++; counters["failures of other properties"]++; return; }
    nfail++; caseFail++;
    if (caseFail <= 20 && nfail <= 400 && out) {
        fprintf(out, "{\"t\":\"fail\",\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n",
                (unsigned long long)(cur ? cur->idx : 0), esc(key).c_str(), esc(b).c_str());
        fflush(out);
    }
    if (cur && cur->verbose) fprintf(stderr, "FAIL case %llu %s: %s\n", (unsigned long long)cur->idx, key.c_str(), b);
}
void finding(const std::string& key, const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    leak::Off o; if (leakMode) return; std::lock_guard<std::mutex> g(mtx); static std::map<std::string, int> told;
    if (told[key]++ == 0 && out) { fprintf(out, "{\"t\":\"fail\",\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n", (unsigned long long)(cur ? cur->idx : 0), esc(key).c_str(), esc(b).c_str()); fflush(out); }
    counters["known: " + key]++;
}
void count(const char* c, uint64_t n) { leak::Off o; std::lock_guard<std::mutex> g(mtx); counters[c] += n; }
void count(const std::string& c, uint64_t n) { leak::Off o; std::lock_guard<std::mutex> g(mtx); counters[c] += n; }
void distinct(uint64_t h) { leak::Off o; std::lock_guard<std::mutex> g(mtx); if (sigs.size() < 200000) sigs.insert(h); }
void sample(const std::string& t) { leak::Off o; std::lock_guard<std::mutex> g(mtx); if (samples.size() < 4) samples.push_back(t); }
bool failed() { std::lock_guard<std::mutex> g(mtx); return caseFail > 0; }
size_t failures() { std::lock_guard<std::mutex> g(mtx); return nfail; }
void quiet() {
    utils::infoMsg("");          // configures the logger now, before any thread exists
    log4cplus::Logger::getRoot().setLogLevel(log4cplus::OFF_LOG_LEVEL);
    log4cplus::Logger::getInstance(LOG4CPLUS_TEXT("main")).setLogLevel(log4cplus::OFF_LOG_LEVEL);
}

// The case is run as a life cycle again and again: see leak.hh
static void once(Ctx& c, int g) { { std::lock_guard<std::mutex> l(mtx); caseFail = 0; } c.rng = Rng(c.seed, c.idx); leak::gen = g; vf_case(c); leak::gen = -1; }
static void lifeCycles(Ctx& c) {
    static int g = 0; enum { REPS = 5 }; leak::Left l[REPS]; leak::stacks = getenv("VF_LEAK_STACKS") != NULL; int first = g; uint64_t a0 = leak::allocations;
    for (int i = 0; i < REPS; i++) { once(c, g++); l[i] = leak::now(-2); }
    count("life cycles", REPS); count("allocations followed", leak::allocations - a0); if (leak::full) count("allocations not followed", leak::full.exchange(0));
    bool kept = true; for (int i = 1; i < REPS - 1; i++) if (leak::now(first + i).blocks == 0) kept = false;      // the last repetition may still hold on to something
    bool f = true, t = true, s = true; for (int i = 2; i < REPS; i++) { f = f && l[i].fds > l[i - 1].fds; t = t && l[i].threads > l[i - 1].threads; s = s && l[i].segs > l[i - 1].segs; }
    VF_CHECK(!f, "leak files", "open files after each repetition: %zu %zu %zu %zu %zu", l[0].fds, l[1].fds, l[2].fds, l[3].fds, l[4].fds);
    VF_CHECK(!t, "leak threads", "threads after each repetition: %zu %zu %zu %zu %zu", l[0].threads, l[1].threads, l[2].threads, l[3].threads, l[4].threads);
    VF_CHECK(!s, "leak segments", "shared segments after each repetition: %zu %zu %zu %zu %zu", l[0].segs, l[1].segs, l[2].segs, l[3].segs, l[4].segs);
    if (!kept) { count("life cycles that left nothing", 1); return; }
    leak::stacks = true; first = g; for (int i = 0; i < REPS; i++) once(c, g++);
    { leak::Off o; for (auto& x : leak::places(first + 1, first + REPS - 1)) fail("leak " + x.first, "every repetition leaves %s", x.second.c_str()); }
}
}

void __attribute__((weak)) vf_init(vf::Ctx&) {}
void __attribute__((weak)) vf_done(vf::Ctx&) {}

int main(int argc, char** argv) {
    using namespace vf;
    Ctx c; uint64_t from = 0, to = 1; std::string outp, prog;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--seed") c.seed = strtoull(v.c_str(), 0, 10), i++;
        else if (a == "--from") from = strtoull(v.c_str(), 0, 10), i++;
        else if (a == "--to") to = strtoull(v.c_str(), 0, 10), i++;
        else if (a == "--tier") c.thorough = v == "thorough", i++;
        else if (a == "--out") outp = v, i++;
        else if (a == "--progress") prog = v, i++;
        else if (a == "--dir") c.dir = v, i++;
        else if (a == "-v") c.verbose = true;
    }
    out = outp.empty() ? stderr : fopen(outp.c_str(), "a");
    if (!out) { perror("out"); return 2; }
    volatile uint64_t* pg = NULL;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 2; }
        pg = (volatile uint64_t*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    }
    cur = &c;
    if (!c.verbose || getenv("VF_QUIET")) quiet();
    leakMode = getenv("VF_LEAK") && leak::start();
    vf_init(c);
    for (uint64_t i = from; i < to; i++) {
        { std::lock_guard<std::mutex> g(mtx); c.idx = i; caseFail = 0; }
        if (pg) { pg[0] = i; pg[1] = pg[1] + 1; }
        if (leakMode) lifeCycles(c); else { c.rng = Rng(c.seed, i); vf_case(c); }
        count("cases");
    }
    if (pg) pg[0] = to;
    vf_done(c);
    fprintf(out, "{\"t\":\"sum\",\"from\":%llu,\"to\":%llu,\"counters\":{", (unsigned long long)from, (unsigned long long)to);
    bool first = true;
    for (auto& k : counters) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(out, "},\"sigs\":[");
    first = true;
    for (auto s : sigs) { fprintf(out, "%s%llu", first ? "" : ",", (unsigned long long)s); first = false; }
    fprintf(out, "],\"samples\":[");
    first = true;
    for (auto& s : samples) { fprintf(out, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(out, "]}\n");
    fclose(out);
    fflush(NULL);
    return 0;
}
