// Schedule perturbation: every mutex operation of the code under test may yield or sleep.
// Harnesses including this carry the line  //!wrap-mutex  so that the linker redirects the calls.
#ifndef PERTURB_HH
#define PERTURB_HH
#include <pthread.h>
#include <atomic>
#include <time.h>
#include <sched.h>
#include <stdint.h>
namespace perturb {
inline std::atomic<int>& level() { static std::atomic<int> l(0); return l; }      // 0 off .. 100
inline std::atomic<uint64_t>& salt() { static std::atomic<uint64_t> s(1); return s; }
inline std::atomic<uint64_t>& delays() { static std::atomic<uint64_t> s(0); return s; }
inline void point() {
    int l = level().load(std::memory_order_relaxed);
    if (!l) return;
    static thread_local uint64_t x = 0;
    if (!x) x = (uint64_t)(uintptr_t)&x * 0x9E3779B97F4A7C15ull ^ salt().load(std::memory_order_relaxed) * 0xD1B54A32D192ED03ull;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    unsigned d = (unsigned)(x >> 20) % 1000;
    if (d >= (unsigned)l * 4) return;
    delays().fetch_add(1, std::memory_order_relaxed);
    if (d % 4) { sched_yield(); return; }
    struct timespec ts = {0, (long)((x >> 40) % 300000)}; nanosleep(&ts, NULL);
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { perturb::point(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); perturb::point(); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { perturb::point(); return __real_pthread_mutex_trylock(m); }
}
#endif
