// Watches the locks of everything linked in: in place of the C library's, these functions note which locks a thread holds
// when it asks for another.  Reported: asking for a lock already held (undefined for the standard's mutexes, shared ones
// included), and an order of acquisition that, with those seen before, makes a cycle.  Not used under sanitizers.
#pragma once
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <atomic>
#include <cstdlib>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

namespace locks {
inline std::atomic<bool> g_on{false};
inline std::atomic<long> g_taken{0}, g_nested{0}, g_orders{0};
struct State {
    std::map<char *, std::set<char *>> after;      // acquired while holding
    std::vector<std::pair<std::string, std::string>> found; // kind, description
};
inline State &state() { static State *s = new State; return *s; }
inline std::atomic_flag g_busy = ATOMIC_FLAG_INIT;
struct Busy {
    Busy() { while (g_busy.test_and_set(std::memory_order_acquire)) {} }
    ~Busy() { g_busy.clear(std::memory_order_release); }
};
inline thread_local bool t_inside = false;
struct Held { char *lock; bool write; };
inline thread_local Held t_held[64];
inline thread_local int t_n = 0;
struct Inside { // what the monitor itself does is not watched
    bool was = t_inside;
    Inside() { t_inside = true; }
    ~Inside() { t_inside = was; }
};
inline bool reaches(char *from, char *to, std::set<char *> &seen) {
    if (from == to) return true;
    if (!seen.insert(from).second) return false;
    auto i = state().after.find(from);
    if (i == state().after.end()) return false;
    for (char *n : i->second)
        if (reaches(n, to, seen)) return true;
    return false;
}
inline void found(const std::string &kind, const std::string &what) {
    if (state().found.size() < 20) state().found.push_back({kind, what});
}
// before a thread waits for the lock
inline void wants(void *p, bool write, bool recursive) {
    if (!g_on || t_inside) return;
    Inside in;
    g_taken++;
    if (!t_n) return;
    Busy b;
    g_nested++;
    char *l = (char *)p;
    for (int i = 0; i < t_n && i < 64; ++i) {
        if (t_held[i].lock == l) {
            if (!recursive)
                found("lock-already-held", std::string("a thread holding a lock for ") + (t_held[i].write ? "writing" : "reading") + " asks for it again, for " + (write ? "writing" : "reading"));
            continue;
        }
        auto &after = state().after[t_held[i].lock];
        if (after.count(l)) continue;
        std::set<char *> seen;
        if (reaches(l, t_held[i].lock, seen))
            found("lock-order", "a thread holding one lock asks for another that was seen held, directly or by way of " + std::to_string(seen.size() - 1) + " more, while the first was asked for");
        after.insert(l);
        g_orders++;
    }
}
inline void got(void *p, bool write) {
    if (!g_on || t_inside) return;
    if (t_n < 64) t_held[t_n] = Held{(char *)p, write};
    t_n++;
}
inline void gone(void *p) {
    if (t_inside) return;
    for (int i = std::min(t_n, 64) - 1; i >= 0; --i)
        if (t_held[i].lock == (char *)p) {
            for (int j = i; j + 1 < t_n && j + 1 < 64; ++j) t_held[j] = t_held[j + 1];
            t_n--;
            return;
        }
}
// memory given back: locks in it are no more
inline void forget(void *p) {
    if (!p || !g_on.load(std::memory_order_relaxed) || t_inside) return;
    Inside in;
    char *b = (char *)p, *e = b + malloc_usable_size(p);
    Busy busy;
    auto &after = state().after;
    std::set<char *> dead;
    for (auto i = after.lower_bound(b); i != after.end() && i->first < e;) { dead.insert(i->first); i = after.erase(i); }
    for (auto &a : after)
        for (auto i = a.second.lower_bound(b); i != a.second.end() && *i < e;) i = a.second.erase(i);
}
inline void watch(bool on) { g_on = on; }
inline std::vector<std::pair<std::string, std::string>> take() {
    Busy b;
    std::vector<std::pair<std::string, std::string>> f;
    f.swap(state().found);
    return f;
}
template <class F> F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
inline bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
} // namespace locks

extern "C" {
#define VLOCK(NAME, TYPE, WRITE, REC, WAITS)                                                                           \
    int NAME(TYPE *l) {                                                                                                \
        static auto real = locks::next<int (*)(TYPE *)>(#NAME);                                                        \
        if (WAITS) locks::wants(l, WRITE, REC);                                                                        \
        int r = real(l);                                                                                               \
        if (r == 0) locks::got(l, WRITE);                                                                              \
        return r;                                                                                                      \
    }
VLOCK(pthread_rwlock_rdlock, pthread_rwlock_t, false, false, true)
VLOCK(pthread_rwlock_wrlock, pthread_rwlock_t, true, false, true)
VLOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t, false, false, false)
VLOCK(pthread_rwlock_trywrlock, pthread_rwlock_t, true, false, false)
VLOCK(pthread_mutex_lock, pthread_mutex_t, true, locks::recursive(l), true)
VLOCK(pthread_mutex_trylock, pthread_mutex_t, true, true, false)
#define VUNLOCK(NAME, TYPE)                                                                                            \
    int NAME(TYPE *l) {                                                                                                \
        static auto real = locks::next<int (*)(TYPE *)>(#NAME);                                                        \
        locks::gone(l);                                                                                                \
        return real(l);                                                                                                \
    }
VUNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
VUNLOCK(pthread_mutex_unlock, pthread_mutex_t)
}
void operator delete(void *p) noexcept { locks::forget(p); std::free(p); }
void operator delete(void *p, std::size_t) noexcept { locks::forget(p); std::free(p); }
void operator delete[](void *p) noexcept { locks::forget(p); std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { locks::forget(p); std::free(p); }
#define LOCKS_WATCHED 1
#endif
