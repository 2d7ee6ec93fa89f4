// Runtime for the "yield" build: the library is compiled with -fsanitize=thread, but linked with these callbacks in
// place of libtsan.  Every memory access of the library thereby becomes a point at which the thread may be delayed, so
// that interleavings between a load and the store that depends on it occur often.
#include <atomic>
#include <cstdint>
#include <sched.h>
#include <time.h>

static std::atomic<uint64_t> g_yield_every{0}; // 0: off
static std::atomic<uint64_t> g_yields{0};
static thread_local uint64_t t_rnd = 0;
extern "C" {
void vyield_config(uint64_t every) { g_yield_every = every; }
uint64_t vyield_count() { return g_yields; }
__attribute__((noinline)) static void slow(uint64_t r) {
    g_yields.fetch_add(1, std::memory_order_relaxed);
    if ((r >> 40) % 16 == 0) {
        timespec ts{0, (long)((r >> 20) % 40000)};
        nanosleep(&ts, nullptr);
    } else if ((r >> 40) % 2)
        sched_yield();
    else
        for (volatile unsigned i = 0, k = (unsigned)(r >> 22) % 600; i < k; i = i + 1) {}
}
static inline void point() {
    uint64_t e = g_yield_every.load(std::memory_order_relaxed);
    if (!e) return;
    uint64_t x = t_rnd;
    if (!x) x = 0x9e3779b97f4a7c15ull ^ (uint64_t)(uintptr_t)&t_rnd;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    t_rnd = x;
    if ((x >> 11) % e == 0) slow(x * 0x2545F4914F6CDD1Dull);
}
#define A1(n) void n(void *) { point(); }
A1(__tsan_read1) A1(__tsan_read2) A1(__tsan_read4) A1(__tsan_read8) A1(__tsan_read16)
A1(__tsan_write1) A1(__tsan_write2) A1(__tsan_write4) A1(__tsan_write8) A1(__tsan_write16)
A1(__tsan_unaligned_read2) A1(__tsan_unaligned_read4) A1(__tsan_unaligned_read8) A1(__tsan_unaligned_read16)
A1(__tsan_unaligned_write2) A1(__tsan_unaligned_write4) A1(__tsan_unaligned_write8) A1(__tsan_unaligned_write16)
A1(__tsan_volatile_read1) A1(__tsan_volatile_read2) A1(__tsan_volatile_read4) A1(__tsan_volatile_read8) A1(__tsan_volatile_read16)
A1(__tsan_volatile_write1) A1(__tsan_volatile_write2) A1(__tsan_volatile_write4) A1(__tsan_volatile_write8) A1(__tsan_volatile_write16)
A1(__tsan_vptr_read)
void __tsan_read_range(void *, uint64_t) { point(); }
void __tsan_write_range(void *, uint64_t) { point(); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}
#define ATOMICS(N, T)                                                                                                  \
    T __tsan_atomic##N##_load(const volatile T *a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }      \
    void __tsan_atomic##N##_store(volatile T *a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }      \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }     \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }     \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }     \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }       \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }     \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }   \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                               \
        point();                                                                                                       \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                                 \
        point();                                                                                                       \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                                     \
        point();                                                                                                       \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return c;                                                                                                      \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
