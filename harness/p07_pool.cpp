// P07: the worker pool under scripted tasks.
//!wrap-mutex
#include "vf.hh"
#include "perturb.hh"
#include "WorkersPool.hh"
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <chrono>
typedef std::chrono::system_clock Clock;
typedef std::chrono::microseconds us;

// What the monitors know about an id. Outlives the tasks.
struct Book {
    std::atomic<uint64_t> starts{0}, causes{0};     // a run needs a cause; a cause needs a later run
    std::atomic<uint64_t> startedAt{0}, wantedAt{0}; // logical clock of the last start / last cause
};
static std::atomic<uint64_t> tick(0);
struct World {
    std::vector<std::unique_ptr<Book>> book;         // by id
    std::atomic<bool> quiet{false};                  // wind-down: no more naming
    std::atomic<uint64_t> overlap{0}, waits{0}, named{0}, pend{0};
    std::mutex logMtx; vf::Hash order;
};

class Task : public Runnable {
public:
    Task(World& w, vf::Rng rng, unsigned maxBusy, unsigned nids, unsigned maxDelay, int fan) : w(w), rng(rng), maxBusy(maxBusy), nids(nids), maxDelay(maxDelay), fan(fan), inside(0), dead(false), magic(0x7A5C7A5C), pendLeft(0), notBefore() {}
    ~Task() { if (inside.load()) vf::fail("destroyed-running", "task %d still running when it was destroyed", getId()); dead = true; magic = 0xDEADBEEF; }
    bool pendingJobs() {
        alive("pendingJobs");
        if (pendLeft > 0 && !w.quiet) { pendLeft--; cause(getId()); w.pend++; return true; }
        return false;
    }
    void cause(int id) { if (id < 0 || (size_t)id >= w.book.size()) return; Book& b = *w.book[id]; b.wantedAt = ++tick; b.causes++; }
    std::atomic<bool> banned{false};      // set once removal/stop has returned
    std::atomic<bool> never{false};       // registration was refused: must never run
protected:
    void alive(const char* what) { if (magic != 0x7A5C7A5C || dead) vf::fail("use-after-removal", "%s of a destroyed task", what); if (banned) vf::fail("run-after-removal", "%s of task %d after its removal had returned", what, getId()); }
    std::vector<int> processFrame(int& ret) {
        alive("processFrame");
        if (never) vf::fail("refused-ran", "a task whose registration was refused was run");
        if (inside.fetch_add(1)) vf::fail("concurrent-self", "task %d runs on two threads at once", getId());
        Clock::time_point now = Clock::now();
        if (now < notBefore) vf::fail("too-early", "task %d ran %lld us before it asked to", getId(), (long long)std::chrono::duration_cast<us>(notBefore - now).count());
        Book& b = *w.book[getId()];
        uint64_t s = ++b.starts; b.startedAt = ++tick;
        if (s > b.causes) vf::fail("run-without-cause", "task %d run %llu times for %llu causes", getId(), (unsigned long long)s, (unsigned long long)b.causes.load());
        { std::lock_guard<std::mutex> g(w.logMtx); w.order.add((uint64_t)getId()); }
        unsigned d = maxBusy ? (unsigned)rng.below(maxBusy) : 0;
        if (d > 30) std::this_thread::sleep_for(us(d)); else for (unsigned i = 0; i < d; i++) std::this_thread::yield();
        std::vector<int> e;
        if (!w.quiet) {
            for (int k = 0; k < fan; k++) if (rng.chance(2, 3)) { int id = (int)rng.below(nids + 1); if (rng.chance(1, 20)) id = (int)rng.pick({-1, 100000}); e.push_back(id); cause(id); w.named++; }
            if (isPeriodic()) { e.push_back(getId()); cause(getId()); }
            if (rng.chance(1, 6)) pendLeft = rng.range(1, 3);
            if (maxDelay && rng.chance(1, 3)) { ret = (int)rng.below(maxDelay); w.waits++; }
        }
        notBefore = Clock::now() + us(ret);
        alive("processFrame"); inside.fetch_sub(1);
        return e;
    }
private:
    World& w; vf::Rng rng; unsigned maxBusy, nids, maxDelay; int fan; std::atomic<int> inside; volatile bool dead; volatile uint32_t magic; int pendLeft; Clock::time_point notBefore;
};

struct Sleeper : public Runnable {
    std::atomic<int> runs{0};
    std::vector<int> processFrame(int& ret) { runs++; ret = 600000000; return std::vector<int>(); }
    bool pendingJobs() { return true; }
    std::vector<int> dummy;
};

void vf_case(vf::Ctx& c) {
    vf::Rng& r = c.rng; World w; tick = 0;
    unsigned n = r.range(1, 12), threads = r.pick({1u, 2u, 2u, 3u, 4u, 6u, 8u, 12u, 0u, 1000u});
    for (unsigned i = 0; i <= n; i++) w.book.emplace_back(new Book);
    perturb::salt() = r.u64(); perturb::level() = (int)r.pick({0, 5, 20, 60});
    unsigned busy = r.pick({0u, 5u, 30u, 200u, 800u}), delay = r.pick({0u, 0u, 200u, 3000u}); int fan = (int)r.range(1, 3);
    std::vector<std::unique_ptr<Task>> ts(n + 1);
    bool periodic = r.chance(1, 3);
    auto mk = [&](int id) { Task* t = new Task(w, vf::Rng(r.u64(), 3), busy, n, delay, fan); (void)id; return t; };
    auto pool = std::unique_ptr<WorkersPool>(new WorkersPool(threads));
    uint64_t removals = 0, readds = 0, refused = 0;
    auto add = [&](unsigned i) {
        ts[i].reset(mk((int)i));
        if (r.chance(1, 10)) { VF_CHECK(!pool->addTask(ts[i].get()), "noid-accepted", "a task without id was registered"); refused++; }
        VF_CHECK(ts[i]->setId((int)i), "setid", "setId refused");
        VF_CHECK(!ts[i]->setId((int)i + 5) && ts[i]->getId() == (int)i, "setid-twice", "an id was reassigned");
        ts[i]->cause((int)i);
        VF_CHECK(pool->addTask(ts[i].get()), "add-refused", "registration of id %u refused", i);
    };
    Task neg(w, vf::Rng(1, 1), 0, n, 0, 0); neg.never = true;
    VF_CHECK(!neg.setId(-(int)r.range(1, 9)), "negative-id", "a negative id was accepted");
    for (unsigned i = 0; i < n; i++) add(i);           // id n stays unregistered at first
    // duplicates are refused and never run
    std::vector<std::unique_ptr<Task>> dups;
    for (unsigned k = 0; k < 2; k++) { dups.emplace_back(new Task(w, vf::Rng(1, k), 0, n, 0, 0)); dups.back()->never = true; dups.back()->setId((int)r.below(n));
        VF_CHECK(!pool->addTask(dups.back().get()), "dup-accepted", "a second task with id %d was registered", dups.back()->getId()); refused++; }
    VF_CHECK(!pool->removeTask((int)n + 7) && !pool->removeTask(-1), "remove-unknown", "removal of an unknown id succeeded");
    (void)periodic;
    unsigned ops = r.range(2, c.thorough ? 40 : 14);
    for (unsigned k = 0; k < ops && !vf::failed(); k++) {
        unsigned i = (unsigned)r.below(n + 1);
        switch (r.below(4)) {
        case 0: std::this_thread::sleep_for(us(r.below(2500))); break;
        case 1: if (ts[i]) {          // remove and destroy at once, maybe register a successor under the same id
                bool ok = pool->removeTask((int)i); VF_CHECK(ok, "remove-refused", "removal of registered id %u refused", i);
                ts[i]->banned = true;
                ts[i].reset(); removals++;
                VF_CHECK(!pool->removeTask((int)i), "remove-twice", "id %u removed twice", i);
            } break;
        default: if (!ts[i]) { add(i); readds++; } else { for (unsigned y = 0; y < 20; y++) std::this_thread::yield(); } break;
        }
    }
    // wind down: every cause must be followed by a run
    std::this_thread::sleep_for(us(r.below(3000)));
    w.quiet = true;
    auto t0 = Clock::now(); bool settled = false; size_t stuck = 0;
    while (!vf::failed() && Clock::now() - t0 < std::chrono::seconds(12)) {
        settled = true;
        for (unsigned i = 0; i <= n; i++) if (ts[i] && w.book[i]->startedAt < w.book[i]->wantedAt) { settled = false; stuck = i; break; }
        if (settled) break;
        std::this_thread::sleep_for(us(300));
    }
    if (!vf::failed()) VF_CHECK(settled, "lost-wakeup", "task %zu was named as runnable after its last start (start %llu, wanted %llu) but not run within 12 s; %u tasks, %u threads", stuck,
        (unsigned long long)w.book[stuck]->startedAt.load(), (unsigned long long)w.book[stuck]->wantedAt.load(), n, threads);
    uint64_t runs = 0;
    if (r.chance(1, 2)) w.quiet = false;   // stop while busy
    // a task asking for a very long wait must not delay its removal or the pool's end
    Sleeper zz; unsigned how = r.below(4);
    if (how < 2 && threads) { zz.setId((int)n + 50); pool->addTask(&zz); auto s0 = Clock::now(); while (!zz.runs && Clock::now() - s0 < std::chrono::seconds(12)) std::this_thread::sleep_for(us(100));
        VF_CHECK(zz.runs, "never-run", "a task registered last was not run within 12 s");
        if (how) { VF_CHECK(pool->removeTask((int)n + 50), "remove-refused", "removal of a waiting task refused"); vf::count("waiting tasks removed"); } }
    pool->stop();
    for (auto& t : ts) if (t) t->banned = true;
    if (r.chance(1, 2)) { ts.clear(); pool->stop(); pool.reset(); }         // tasks may go first
    else pool.reset();
    for (auto& b : w.book) runs += b->starts;
    perturb::level() = 0;
    vf::count("runs", runs); vf::count("removals while running", removals); vf::count("re-registrations", readds); vf::count("refused requests", refused);
    vf::count("wake-ups named", w.named); vf::count("pending re-runs", w.pend); vf::count("waits asked", w.waits); vf::count("injected delays", perturb::delays().exchange(0));
    vf::distinct(w.order.h);
    if (c.idx < 3) vf::sample(vf::fmt("case %llu: %u tasks on %u threads, %llu runs, %llu removals, %llu named", (unsigned long long)c.idx, n, threads, (unsigned long long)runs, (unsigned long long)removals, (unsigned long long)w.named.load()));
}
