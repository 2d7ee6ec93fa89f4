// A small OpenMP runtime on std::thread with the interface of libgomp.  Unlike the system's libgomp it can be
// instrumented (ThreadSanitizer sees its synchronisation), its team size is set per case, and it perturbs schedules:
// random chunk order, random delays before chunks and at the start of threads.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace {
std::atomic<int> g_threads{0};
std::atomic<uint64_t> g_seed{0};
std::atomic<int> g_mode{0};          // 0 none, 1 delays, 2 delays and shuffled chunks
std::atomic<long> g_regions{0}, g_chunks{0};
std::atomic<uint64_t> g_trace{0};    // hash of who took which chunk in which order: tells schedules apart

uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct WorkShare {
    bool ready = false;
    long start = 0, end = 0, incr = 1, chunk = 1;
    std::vector<long> order; // chunk numbers, in the order they are handed out
    long next = 0;
    std::map<int, std::pair<long, long>> stat; // static schedules: next chunk of each thread
    bool single_taken = false;
    void *copy = nullptr;
    bool copy_ready = false;
};
struct Team {
    int n = 1;
    std::mutex mu;
    std::condition_variable cv;
    int waiting = 0;
    long generation = 0;
    std::map<long, std::shared_ptr<WorkShare>> shares;
};
struct Tls {
    Team *team = nullptr;
    int tid = 0, level = 0;
    long ws = 0;       // work shares met so far
    std::shared_ptr<WorkShare> current;
    uint64_t rnd = 88172645463325252ull;
};
thread_local Tls tls;

uint64_t rnd() {
    tls.rnd ^= tls.rnd << 13;
    tls.rnd ^= tls.rnd >> 7;
    tls.rnd ^= tls.rnd << 17;
    return tls.rnd;
}
void perturb() {
    if (g_mode.load(std::memory_order_relaxed) == 0) return;
    switch (rnd() % 8) {
    case 0: case 1: case 2: std::this_thread::yield(); break;
    case 3: std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 120)); break;
    case 4: { uint64_t k = rnd() % 4000; for (volatile uint64_t i = 0; i < k; i = i + 1) {} break; }
    default: break;
    }
}
int default_threads() {
    int n = g_threads.load();
    if (n > 0) return n;
    if (const char *e = getenv("OMP_NUM_THREADS")) if (atoi(e) > 0) return atoi(e);
    n = (int)std::thread::hardware_concurrency();
    return n > 0 ? n : 1;
}
void barrier() {
    Team *t = tls.team;
    if (!t || t->n == 1) return;
    std::unique_lock<std::mutex> l(t->mu);
    long g = t->generation;
    if (++t->waiting == t->n) {
        t->waiting = 0;
        t->generation++;
        t->cv.notify_all();
    } else
        t->cv.wait(l, [&] { return t->generation != g; });
}
Team *team_or_own() {
    static thread_local Team own;
    return tls.team ? tls.team : &own;
}
std::shared_ptr<WorkShare> enter_share() {
    Team *t = team_or_own();
    std::lock_guard<std::mutex> l(t->mu);
    long k = tls.ws++;
    if (t->n == 1) t->shares.clear();
    auto &s = t->shares[k];
    if (!s) s = std::make_shared<WorkShare>();
    return s;
}
void fill(WorkShare &s, long start, long end, long incr, long chunk) {
    if (s.ready) return;
    s.ready = true;
    s.start = start; s.end = end; s.incr = incr ? incr : 1; s.chunk = chunk > 0 ? chunk : 1;
    long iters = s.incr > 0 ? (end > start ? (end - start + s.incr - 1) / s.incr : 0)
                            : (end < start ? (start - end + (-s.incr) - 1) / (-s.incr) : 0);
    long chunks = (iters + s.chunk - 1) / s.chunk;
    s.order.resize(chunks);
    for (long i = 0; i < chunks; ++i) s.order[i] = i;
    if (g_mode.load() >= 2)
        for (long i = chunks; i > 1; --i) std::swap(s.order[i - 1], s.order[rnd() % i]);
}
bool take(long *istart, long *iend) {
    perturb();
    auto s = tls.current;
    if (!s) return false;
    Team *t = team_or_own();
    std::lock_guard<std::mutex> l(t->mu);
    if (s->next >= (long)s->order.size()) return false;
    long c = s->order[s->next++];
    long iters = s->incr > 0 ? (s->end - s->start + s->incr - 1) / s->incr : (s->start - s->end - s->incr - 1) / (-s->incr);
    long lo = c * s->chunk, hi = std::min(iters, lo + s->chunk);
    *istart = s->start + lo * s->incr;
    *iend = s->start + hi * s->incr;
    // the last chunk must not run past the end
    if (s->incr > 0 ? *iend > s->end : *iend < s->end) *iend = s->end;
    g_chunks++;
    g_trace = mix(g_trace.load() ^ (uint64_t)(c * 64 + tls.tid + 1));
    return true;
}
void run_team(void (*fn)(void *), void *data, unsigned num_threads, std::shared_ptr<WorkShare> first) {
    int n = num_threads ? (int)num_threads : default_threads();
    if (tls.level > 0) n = 1;
    g_regions++;
    Tls saved = tls;
    Team team;
    team.n = n;
    if (first) team.shares[0] = first;
    uint64_t seed = mix(g_seed.load() + 77 * g_regions.load());
    auto body = [&](int id) {
        uint64_t keep = tls.rnd;
        tls = Tls();
        tls.team = &team;
        tls.tid = id;
        tls.level = saved.level + 1;
        tls.rnd = mix(seed + id) | 1;
        (void)keep;
        if (first) { tls.ws = 1; tls.current = first; }
        perturb();
        fn(data);
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < n; ++i) ts.emplace_back(body, i);
    body(0);
    for (auto &t : ts) t.join();
    tls = saved;
}
std::recursive_mutex g_critical, g_atomic;
std::mutex g_names_mu;
} // namespace

extern "C" {
// ---- control by the harness
void vgomp_config(int threads, uint64_t seed, int mode) {
    g_threads = threads;
    g_seed = seed;
    g_mode = mode;
    tls.rnd = mix(seed) | 1;
    g_trace = 0;
}
long vgomp_regions() { return g_regions; }
long vgomp_chunks() { return g_chunks; }
uint64_t vgomp_trace() { return g_trace; }

// ---- parallel regions
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_team(fn, data, nt, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    run_team(fn, data, nt, nullptr);
    return nt;
}
#define PLOOP(name)                                                                                                    \
    void name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned) {                 \
        auto w = std::make_shared<WorkShare>();                                                                        \
        fill(*w, s, e, i, c);                                                                                          \
        run_team(fn, data, nt, w);                                                                                     \
    }
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
PLOOP(GOMP_parallel_loop_static)
#define PLOOPR(name)                                                                                                   \
    void name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned) {                         \
        auto w = std::make_shared<WorkShare>();                                                                        \
        fill(*w, s, e, i, 1);                                                                                          \
        run_team(fn, data, nt, w);                                                                                     \
    }
PLOOPR(GOMP_parallel_loop_runtime)
PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)

// ---- loops inside a region
static bool loop_start(long s, long e, long i, long c, long *is, long *ie) {
    tls.current = enter_share();
    {
        Team *t = team_or_own();
        std::lock_guard<std::mutex> l(t->mu);
        fill(*tls.current, s, e, i, c);
    }
    return take(is, ie);
}
#define LOOP(kind)                                                                                                     \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) {                                \
        return loop_start(s, e, i, c, is, ie);                                                                         \
    }                                                                                                                  \
    bool GOMP_loop_##kind##_next(long *is, long *ie) { return take(is, ie); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define LOOPR(kind)                                                                                                    \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) {                                        \
        return loop_start(s, e, i, 1, is, ie);                                                                         \
    }                                                                                                                  \
    bool GOMP_loop_##kind##_next(long *is, long *ie) { return take(is, ie); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
static bool ull_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) {
    long a, b;
    bool r = loop_start((long)s, (long)e, up ? (long)i : (long)i, (long)c, &a, &b);
    if (r) { *is = (ull)a; *ie = (ull)b; }
    return r;
}
static bool ull_next(ull *is, ull *ie) {
    long a, b;
    bool r = take(&a, &b);
    if (r) { *is = (ull)a; *ie = (ull)b; }
    return r;
}
#define LOOPU(kind)                                                                                                    \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) {                         \
        return ull_start(up, s, e, i, c, is, ie);                                                                      \
    }                                                                                                                  \
    bool GOMP_loop_ull_##kind##_next(ull *is, ull *ie) { return ull_next(is, ie); }
LOOPU(static)
LOOPU(dynamic)
LOOPU(guided)
LOOPU(nonmonotonic_dynamic)
LOOPU(nonmonotonic_guided)
#define LOOPUR(kind)                                                                                                   \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull *is, ull *ie) {                                \
        return ull_start(up, s, e, i, 1, is, ie);                                                                      \
    }                                                                                                                  \
    bool GOMP_loop_ull_##kind##_next(ull *is, ull *ie) { return ull_next(is, ie); }
LOOPUR(runtime)
LOOPUR(nonmonotonic_runtime)
LOOPUR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { tls.current.reset(); barrier(); }
void GOMP_loop_end_nowait() { tls.current.reset(); }
bool GOMP_loop_end_cancel() { tls.current.reset(); barrier(); return false; }

// ---- sections
unsigned GOMP_sections_next() {
    long a, b;
    return take(&a, &b) ? (unsigned)a + 1 : 0;
}
unsigned GOMP_sections_start(unsigned count) {
    long a, b;
    return loop_start(0, count, 1, 1, &a, &b) ? (unsigned)a + 1 : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned) {
    auto w = std::make_shared<WorkShare>();
    fill(*w, 0, count, 1, 1);
    run_team(fn, data, nt, w);
}
void GOMP_sections_end() { tls.current.reset(); barrier(); }
void GOMP_sections_end_nowait() { tls.current.reset(); }

// ---- synchronisation
void GOMP_barrier() { perturb(); barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_critical_start() { perturb(); g_critical.lock(); }
void GOMP_critical_end() { g_critical.unlock(); perturb(); }
void GOMP_critical_name_start(void **p) {
    perturb();
    std::recursive_mutex *m;
    {
        std::lock_guard<std::mutex> l(g_names_mu);
        if (!*p) *p = new std::recursive_mutex;
        m = (std::recursive_mutex *)*p;
    }
    m->lock();
}
void GOMP_critical_name_end(void **p) {
    std::recursive_mutex *m;
    {
        std::lock_guard<std::mutex> l(g_names_mu);
        m = (std::recursive_mutex *)*p;
    }
    m->unlock();
}
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
void GOMP_ordered_start() { g_critical.lock(); }
void GOMP_ordered_end() { g_critical.unlock(); }
bool GOMP_single_start() {
    auto s = enter_share();
    Team *t = team_or_own();
    std::lock_guard<std::mutex> l(t->mu);
    if (s->single_taken) return false;
    return s->single_taken = true;
}
void *GOMP_single_copy_start() {
    auto s = enter_share();
    Team *t = team_or_own();
    std::unique_lock<std::mutex> l(t->mu);
    if (!s->single_taken) {
        s->single_taken = true;
        tls.current = s;
        return nullptr;
    }
    t->cv.wait(l, [&] { return s->copy_ready; });
    return s->copy;
}
void GOMP_single_copy_end(void *d) {
    Team *t = team_or_own();
    std::lock_guard<std::mutex> l(t->mu);
    tls.current->copy = d;
    tls.current->copy_ready = true;
    tls.current.reset();
    t->cv.notify_all();
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
// tasks are executed at once by the thread that creates them
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (!cpy) { fn(data); return; }
    std::vector<char> buf(size + align);
    char *a = (char *)(((uintptr_t)buf.data() + align - 1) / align * align);
    cpy(a, data);
    fn(a);
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long start, long end, long) {
    std::vector<char> buf(size + align);
    char *a = (char *)(((uintptr_t)buf.data() + align - 1) / align * align);
    if (cpy) cpy(a, data); else memcpy(a, data, size);
    ((long *)a)[0] = start;
    ((long *)a)[1] = end;
    fn(a);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { perturb(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

// ---- omp_*
int omp_get_num_threads() { return tls.team ? tls.team->n : 1; }
int omp_get_thread_num() { perturb(); return tls.tid; }
int omp_get_max_threads() { return default_threads(); }
int omp_get_num_procs() { return default_threads(); }
int omp_in_parallel() { return tls.level > 0 && tls.team && tls.team->n > 1; }
int omp_get_level() { return tls.level; }
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_num_threads(int n) { g_threads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double omp_get_wtick() { return 1e-9; }
typedef struct { unsigned char x[4]; } vlock;
static std::map<void *, std::unique_ptr<std::recursive_mutex>> g_locks;
static std::recursive_mutex *lock_of(void *p) {
    std::lock_guard<std::mutex> l(g_names_mu);
    auto &m = g_locks[p];
    if (!m) m.reset(new std::recursive_mutex);
    return m.get();
}
void omp_init_lock(void *p) { lock_of(p); }
void omp_destroy_lock(void *p) { std::lock_guard<std::mutex> l(g_names_mu); g_locks.erase(p); }
void omp_set_lock(void *p) { perturb(); lock_of(p)->lock(); }
void omp_unset_lock(void *p) { lock_of(p)->unlock(); }
int omp_test_lock(void *p) { return lock_of(p)->try_lock(); }
void omp_init_nest_lock(void *p) { lock_of(p); }
void omp_destroy_nest_lock(void *p) { std::lock_guard<std::mutex> l(g_names_mu); g_locks.erase(p); }
void omp_set_nest_lock(void *p) { perturb(); lock_of(p)->lock(); }
void omp_unset_nest_lock(void *p) { lock_of(p)->unlock(); }
int omp_test_nest_lock(void *p) { return lock_of(p)->try_lock(); }
}

#ifdef __SANITIZE_ADDRESS__
long verif::sorts_checked = 0;
#endif
