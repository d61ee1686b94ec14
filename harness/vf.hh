// Common monitor/driver library of the harnesses.
//
// A harness defines vf_case(Ctx&): one generated workload with its monitors.  The main loop
// runs cases [--from, --to) of a seed; every case is fully determined by (seed, index).
// Verdicts: vf::fail(key, ...) records a violation (the case may go on); sanitizer aborts
// are picked up by the runner (check.py), which knows the running case from --progress.
#ifndef VF_HH
#define VF_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace vf {

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1, uint64_t idx = 0) {
        uint64_t z = seed * 0x9E3779B97F4A7C15ull ^ (idx + 0x632BE59BD9B4E019ull) * 0xD1B54A32D192ED03ull;
        for (int i = 0; i < 2; i++) { z += 0x9E3779B97F4A7C15ull; uint64_t x = z;
            x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; s[i] = x ^ (x >> 31); }
        if (!s[0] && !s[1]) s[0] = 1;
    }
    uint64_t u64() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }   // inclusive
    bool chance(int num, int den) { return (int)below(den) < num; }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Hash {
    uint64_t h;
    Hash() : h(1469598103934665603ull) {}
    Hash& add(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return *this; }
    Hash& add(uint64_t v) { return add(&v, 8); }
    Hash& add(const std::string& s) { return add(s.data(), s.size()); }
};

// violations / evidence (thread-safe)
void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void finding(const std::string& key, const char* f, ...);   // a violation listed in known_findings.jsonl: told once per process, the case goes on
void count(const char* counter, uint64_t n = 1);     // events observed by the monitors
void count(const std::string& counter, uint64_t n = 1);
void distinct(uint64_t h);                           // distinct non-trivial behaviour signature
void sample(const std::string& text);                // a few examples for the evidence file
bool failed();                                       // has this case failed already?
size_t failures();

struct Ctx {
    uint64_t seed, idx;
    bool thorough, verbose;
    std::string dir;       // scratch directory private to this process
    Rng rng;
    Ctx() : seed(1), idx(0), thorough(false), verbose(false), rng(1, 0) {}
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
void quiet();             // silence the library's logging
}

void vf_case(vf::Ctx& c);         // defined by the harness
void vf_init(vf::Ctx& c);         // idem: once per process
void vf_done(vf::Ctx& c);         // idem: after the last case

#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::fail(key, __VA_ARGS__); } while (0)
#endif
