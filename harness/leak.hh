// Leak monitor (P25).  With VF_LEAK set, every case of any harness becomes a life cycle that is run several times in one
// process with the same seed, while every allocation is recorded together with the repetition that made it.  What is still
// alive two repetitions after it was made, in every repetition, will grow for ever: it is reported with the place that
// allocated it.  Open files, threads and shared segments are counted after every repetition.
#ifndef LEAK_HH
#define LEAK_HH
#include "vf.hh"
#include <execinfo.h>
#include <dirent.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <atomic>
#include <algorithm>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n) __attribute__((weak));
namespace leak {
enum { DEPTH = 24, SKIP = 3, BITS = 18, BLOCKS = 1 << 21 };
struct Block { uintptr_t p; uint32_t next, gen; uint32_t size; uint16_t depth; uint16_t pad; void* pc[DEPTH]; };
static Block* blocks; static uint32_t* heads; static uint32_t freeList, used;
static std::atomic_flag lock = ATOMIC_FLAG_INIT;
static std::atomic<int> gen(-1); static std::atomic<bool> stacks(false); static std::atomic<uint64_t> allocations(0), full(0);
static thread_local int off = 0;
struct Off { Off() { off++; } ~Off() { off--; } };
static void take() { while (lock.test_and_set(std::memory_order_acquire)) sched_yield(); }
static void give() { lock.clear(std::memory_order_release); }
static uint32_t slot(uintptr_t p) { return (uint32_t)(((p >> 4) * 0x9E3779B97F4A7C15ull) >> (64 - BITS)); }
static void onMalloc(const volatile void* q, size_t n) {
    int g = gen.load(std::memory_order_relaxed); if (g < 0 || off || !q) return;
    void* pc[DEPTH + SKIP]; int d = 0; if (stacks) { off++; d = backtrace(pc, DEPTH + SKIP) - SKIP; off--; if (d < 0) d = 0; }
    take(); uint32_t i = freeList; if (i) freeList = blocks[i].next; else if (used < BLOCKS) i = used++; 
    if (i) { Block& b = blocks[i]; b.p = (uintptr_t)q; b.gen = g; b.size = (uint32_t)std::min<size_t>(n, UINT32_MAX); b.depth = d; if (d) memcpy(b.pc, pc + SKIP, d * sizeof(void*)); uint32_t s = slot(b.p); b.next = heads[s]; heads[s] = i; } else full++;
    give(); allocations++;
}
static void onFree(const volatile void* q) {
    if (!q || !used) return; uintptr_t p = (uintptr_t)q; uint32_t s = slot(p); take(); uint32_t* w = &heads[s];
    while (*w) { Block& b = blocks[*w]; if (b.p == p) { uint32_t i = *w; *w = b.next; b.next = freeList; freeList = i; b.p = 0; break; } w = &b.next; }
    give();
}
static bool start() {
    if (!__sanitizer_install_malloc_and_free_hooks || !__sanitizer_symbolize_pc) return false;
    blocks = (Block*)mmap(NULL, sizeof(Block) * (size_t)BLOCKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    heads = (uint32_t*)mmap(NULL, 4ull << BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (blocks == MAP_FAILED || heads == MAP_FAILED) return false;
    used = 1; void* pc[4]; backtrace(pc, 4); return __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0;
}
static size_t entries(const char* dir) { size_t n = 0; DIR* d = opendir(dir); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
// segments of this process, or left without anybody attached
static size_t segments() { size_t n = 0; struct shm_info si; int m = shmctl(0, SHM_INFO, (struct shmid_ds*)&si); for (int i = 0; i <= m; i++) { struct shmid_ds ds; if (shmctl(i, SHM_STAT, &ds) >= 0 && ds.shm_cpid == getpid()) n++; } return n; }
struct Left { size_t blocks, bytes, fds, threads, segs; };
static Left now(int g) {
    Off o; Left l = {0, 0, 0, 0, 0}; take(); for (uint32_t i = 1; i < used; i++) if (blocks[i].p && (int)blocks[i].gen == g) { l.blocks++; l.bytes += blocks[i].size; } give();
    for (int i = 0; i < 100; i++) { l.threads = entries("/proc/self/task"); if (l.threads <= 3) break; struct timespec t = {0, 1000000}; nanosleep(&t, NULL); if (i > 20) break; }
    l.fds = entries("/proc/self/fd"); l.segs = segments(); return l;
}
static std::string frame(void* pc, const char* f) { char b[1024]; b[0] = 0; __sanitizer_symbolize_pc((char*)pc - 1, f, b, sizeof b); return b; }
// The encoding libraries themselves lose small blocks when they refuse to open an encoder, and the SAO planes when they close one
// (seen with the bare libraries, see DESIGN.md); an encoder that is not closed loses many other blocks too.
static bool ofLibrary(const std::vector<void*>& pc, size_t size) {
    std::string f[8]; for (size_t i = 0, k = 0; i < pc.size() && k < 8; i++) { f[k] = frame(pc[i], "%f"); if (f[k].compare(0, 6, "__asan")) k++; }
    if (f[1].find("x265_malloc") != std::string::npos && (f[2].find("SAO::create") != std::string::npos || f[2].find("x265_encoder_open") != std::string::npos)) return true;
    return size <= 256 && (f[0] == "strdup" || f[0] == "malloc") && f[3].find("x264_encoder_open") != std::string::npos;
}
// places that left something alive in each of the given repetitions
static std::map<std::string, std::string> places(int from, int to) {
    Off o; struct Site { std::set<uint32_t> gens; size_t n, bytes; std::vector<void*> pc; }; std::map<uint64_t, Site> sites; std::vector<Block> live;
    live.reserve(1 << 16); take(); for (uint32_t i = 1; i < used; i++) if (blocks[i].p && (int)blocks[i].gen >= from && (int)blocks[i].gen < to && live.size() < (1u << 16)) live.push_back(blocks[i]); give();
    for (auto& b : live) { vf::Hash h; for (int i = 0; i < b.depth; i++) h.add((uint64_t)b.pc[i]); Site& s = sites[h.h]; if (s.gens.empty()) { s.n = s.bytes = 0; s.pc.assign(b.pc, b.pc + b.depth); } s.gens.insert(b.gen); s.n++; s.bytes += b.size; }
    std::map<std::string, std::string> r;
    for (auto& x : sites) { Site& s = x.second; if ((int)s.gens.size() < to - from || ofLibrary(s.pc, s.bytes / s.n)) continue; std::string where, txt = vf::fmt("%zu blocks, %zu bytes from", s.n, s.bytes);
        for (void* p : s.pc) { std::string f = frame(p, "%f %s:%l"); if (f.find("/harness/vf.cpp") != std::string::npos) break; if (where.empty() && f.find("/src/") != std::string::npos && f.find("/usr/") == std::string::npos) where = frame(p, "%f"); if (txt.size() < 1500 && f.find("/usr/lib") == std::string::npos && f.find("/c++/") == std::string::npos) { size_t k = f.rfind('/'); txt += " <- " + frame(p, "%f").substr(0, 70) + (k != std::string::npos ? " " + f.substr(k + 1) : ""); } }
        size_t k = where.find('('); if (where.empty()) where = "outside"; if (getenv("VF_LEAK_ALL")) fprintf(stderr, "SITE %s\n", txt.c_str()); r[where.substr(0, k)] = txt; }
    return r;
}
}
#endif
