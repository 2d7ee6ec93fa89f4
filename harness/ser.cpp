// C09: saving and loading loses nothing.  C10: loading a damaged file is safe.
#include "graphfile.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*on_malloc)(const volatile void *, size_t), void (*on_free)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
}
#define POISON(a, n) __asan_poison_memory_region(a, n)
#define UNPOISON(a, n) __asan_unpoison_memory_region(a, n)
#else
#define POISON(a, n) (void)0
#define UNPOISON(a, n) (void)0
#endif

// File mappings of the library end at the last byte of the file: what follows in the page is poisoned for
// AddressSanitizer, and an inaccessible page comes after.
static std::mutex g_maps_mu;
static std::map<void *, std::pair<size_t, size_t>> g_maps;
static std::atomic<long> g_mapped{0};
extern "C" {
void *__real_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off);
int __real_munmap(void *a, size_t n);
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    if (fd < 0 || a || n == 0) return __real_mmap(a, n, prot, flags, fd, off);
    size_t page = 4096, whole = (n + page - 1) / page * page;
    char *p = (char *)__real_mmap(nullptr, whole + page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return p;
    void *q = __real_mmap(p, n, prot, flags | MAP_FIXED, fd, off);
    if (q == MAP_FAILED) { int e = errno; __real_munmap(p, whole + page); errno = e; return q; }
    if (whole > n) POISON(p + n, whole - n);
    g_mapped++;
    std::lock_guard<std::mutex> g(g_maps_mu);
    g_maps[q] = {n, whole + page};
    return q;
}
int __wrap_munmap(void *a, size_t n) {
    std::lock_guard<std::mutex> g(g_maps_mu);
    auto it = g_maps.find(a);
    if (it == g_maps.end()) return __real_munmap(a, n);
    size_t len = it->second.first, all = it->second.second;
    UNPOISON((char *)a, all - 4096);
    g_maps.erase(it);
    (void)len;
    return __real_munmap(a, all);
}
void *__wrap_mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, n, prot, flags, fd, off); }
}

// live heap bytes, where the allocator tells
static std::atomic<long long> g_live{0}, g_peak{0};
#if defined(__SANITIZE_ADDRESS__)
static void on_malloc(const volatile void *, size_t n) {
    long long l = g_live += (long long)n, p = g_peak.load();
    while (l > p && !g_peak.compare_exchange_weak(p, l)) {}
}
static void on_free(const volatile void *p) { g_live -= p ? (long long)__sanitizer_get_allocated_size((const void *)p) : 0; }
#endif

static void c09(long n, Rng &r) {
    size_t target;
    int k = (int)r.range(0, 9);
    if (k < 4) target = (size_t)r.range(0, 20);
    else if (k < 8) target = (size_t)r.range(8, 90);
    else if (k == 8) target = (size_t)r.range(90, 260);
    else target = (size_t)r.range(0, 3);
    if (ctx().mode != "asan" && n % 60 == 7) target = ctx().thorough ? 900 : 420;
    std::string what;
    G g = random_graph(r, target, what);
    std::string f = ctx().scratch + "/g", f2 = ctx().scratch + "/h", before, earlier = "none";
    unlink(f.c_str());
    unlink(f2.c_str());
    GraphSerializer::serialize_to_file(g, f2);
    std::string bytes = slurp(f2);
    int prior = (int)r.range(0, 5);
    if (prior == 1) { earlier = "a longer file"; std::string s(bytes.size() + (size_t)r.range(1, 5000), 0); for (auto &c : s) c = (char)r.next(); spit(f, s); }
    if (prior == 2) { earlier = "a shorter file"; std::string s(bytes.size() / 2, 0); for (auto &c : s) c = (char)r.next(); spit(f, s); }
    if (prior == 3) { earlier = "a file of the same length"; std::string s(bytes.size(), 0); for (auto &c : s) c = (char)r.next(); spit(f, s); }
    if (prior == 4) { earlier = "another graph"; std::string w; GraphSerializer::serialize_to_file(random_graph(r, (size_t)r.range(0, 60), w), f); if (r.chance(.5)) GraphSerializer::deserialize_from_file(f); }
    if (prior == 5) { earlier = "the same graph"; GraphSerializer::serialize_to_file(g, f); }
    std::string g_before = content(*g);
    EdgeMap e_before = edges_of(*g);
    GraphSerializer::serialize_to_file(g, f);
    std::string at = what + ", earlier at that path: " + earlier;
    if (content(*g) != g_before || edges_of(*g) != e_before) violate("saving-changed-graph", at);
    G back = GraphSerializer::deserialize_from_file(f);
    std::string d = compare(*g, *back);
    if (!d.empty()) violate("loaded-differs", at + ": " + d);
    if (slurp(f) != bytes) {
        std::string s = slurp(f);
        size_t i = 0;
        while (i < s.size() && i < bytes.size() && s[i] == bytes[i]) i++;
        violate("bytes-differ", at + fmts(": %zu bytes, elsewhere %zu, first difference at %zu", s.size(), bytes.size(), i));
    }
    GraphSerializer::serialize_to_file(back, f2); // over its own earlier bytes
    if (slurp(f2) != bytes) violate("resaved-bytes-differ", at);
    auto vs = g->get_vertices();
    if (vs.size() > 2 && r.chance(.5)) { // a graph with as many of everything, saved right after over it
        for (int k = 0; k < 20; ++k) {
            const Coordinate &a = vs[r.next() % vs.size()], &b = vs[r.next() % vs.size()], &c = vs[r.next() % vs.size()], &e = vs[r.next() % vs.size()];
            if (a == b || c == e || !g->has_edge(a, b) || g->has_edge(c, e)) continue;
            bool over = g->is_edge_meridian_crossing(a, b);
            g->remove_edge(a, b);
            g->add_edge(c, e, over);
            tally("edges_led_elsewhere");
            break;
        }
        GraphSerializer::serialize_to_file(g, f);
        back = GraphSerializer::deserialize_from_file(f);
        d = compare(*g, *back);
        if (!d.empty()) violate("loaded-differs", at + " (saved over a file that was just loaded): " + d);
        bytes = slurp(f);
        e_before = edges_of(*g);
        tally("saved_over_loaded");
    }
    if (r.chance(.2)) { // several at a time
        std::vector<std::thread> ts;
        std::mutex mu;
        std::string bad;
        for (int t = 0; t < 3; ++t)
            ts.emplace_back([&, t] {
                std::string x = ctx().scratch + fmts("/t%d", t);
                GraphSerializer::serialize_to_file(g, x);
                std::string dd = compare(*g, *GraphSerializer::deserialize_from_file(x));
                std::lock_guard<std::mutex> l(mu);
                if (!dd.empty()) bad = dd;
            });
        for (auto &t : ts) t.join();
        if (!bad.empty()) violate("loaded-differs", at + " (saved from several threads): " + bad);
        tally("concurrent_saves", 3);
    }
    tally("graphs_saved");
    tally("bytes_saved", (long)bytes.size());
    tally("edges_saved", (long)e_before.size());
    if (!e_before.empty()) nontrivial(bytes);
    sample(at + fmts(": %zu bytes", bytes.size()));
}

// Loads a file; what comes back is used thoroughly.
static bool load(const std::string &f, size_t size, const std::string &how, G *out = nullptr) {
#if defined(__SANITIZE_ADDRESS__)
    long long start = g_live.load();
    g_peak = start;
#endif
    auto t0 = std::chrono::steady_clock::now();
    G g;
    bool raised = false;
    try {
        g = GraphSerializer::deserialize_from_file(f);
    } catch (const std::bad_alloc &) {
        violate("allocation", how + ": the allocation failed");
        raised = true;
    } catch (const std::exception &) {
        raised = true;
    }
    double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    tally("evaluations");
    tally(raised ? "loads_refused" : "loads_accepted");
#if defined(__SANITIZE_ADDRESS__)
    long long peak = g_peak.load() - start;
    if (peak > 8000000 + 400 * (long long)size) violate("allocation", how + fmts(": %lld bytes allocated for a file of %zu", peak, size));
#endif
    if (took > 20) violate("slow-load", how + fmts(": %.1f s", took));
    if (!raised) {
        if (!g) { violate("null-graph", how); return true; }
        auto vs = g->get_vertices();
        if (vs.size() < 400) {
            for (auto &v : vs)
                for (auto &w : g->get_neighbors(v))
                    if (!g->has_vertex(w) || !g->has_edge(v, w)) violate("inconsistent-graph", how);
            g->to_string_representation();
        }
        size_t pv = 0;
        for (auto &p : g->get_polygons()) pv += p.get_vertices().size();
        if (pv != vs.size()) violate("inconsistent-graph", how);
    }
    if (out) *out = g;
    return !raised;
}
static void c10(Rng &r) {
    ctx().count_cases = false;
    std::string what, f = ctx().scratch + "/d";
    G g = random_graph(r, (size_t)r.range(0, r.chance(.2) ? 60 : 24), what);
    unlink(f.c_str());
    GraphSerializer::serialize_to_file(g, f);
    const std::string good = slurp(f);
    auto same_edges = [&](const G &x) { // obstacles and edges, flags aside
        if (content(*x) != content(*g)) return false;
        auto a = edges_of(*g), b = edges_of(*x);
        if (a.size() != b.size()) return false;
        for (auto &e : a)
            if (!b.count(e.first)) return false;
        return true;
    };
    // every truncation
    size_t most = ctx().thorough ? 4000 : 500, step = good.size() / most + 1;
    for (size_t n = r.next() % step; n < good.size(); n += step) {
        if (truncate(f.c_str(), 0) != 0) throw HarnessError("truncate");
        spit(f, good.substr(0, n));
        G x;
        std::string how = what + fmts(", truncated from %zu to %zu bytes", good.size(), n);
        if (load(f, n, how, &x) && x) {
            tally("accepted_truncations");
            if (!same_edges(x)) violate("truncated-accepted", how);
        }
        tally("truncations");
    }
    nontrivial(good);
    // corruption
    static const uint64_t evil[] = {0, 1, 2, 3, 7, 255, 256, 65535, 65536, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x1fffffffffffffffull, 0x2000000000000000ull,
                                    0x2000000000000001ull, 0x4000000000000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xffffffffffffffffull};
    for (int k = 0; k < (ctx().thorough ? 600 : 200); ++k) {
        std::string s = good, how;
        auto put = [&](size_t at, uint64_t v, int n) { for (int i = 0; i < n && at + i < s.size(); ++i) s[at + i] = (char)(v >> (8 * i)); };
        int edits = (int)r.range(1, 3);
        for (int e = 0; e < edits && !s.empty(); ++e) {
            size_t at = r.next() % s.size();
            switch (r.range(0, 8)) {
            case 0: s[at] ^= (char)(1 << r.range(0, 7)); how += fmts("bit of byte %zu flipped; ", at); break;
            case 1: s[at] = (char)r.next(); how += fmts("byte %zu random; ", at); break;
            case 2: { uint64_t v = evil[r.next() % 21]; at = r.chance(.6) ? at / 4 * 4 : r.chance(.5) ? 0 : s.size() >= 8 ? 8 : 0; put(at, v, 8); how += fmts("%llx at %zu; ", (unsigned long long)v, at); break; }
            case 3: { uint32_t v = r.chance(.5) ? (uint32_t)evil[r.next() % 12] : (uint32_t)r.next(); put(at / 4 * 4, v, 4); how += fmts("%x at %zu; ", v, at / 4 * 4); break; }
            case 4: s.insert(at, std::string((size_t)r.range(1, 9), (char)r.next())); how += fmts("bytes inserted at %zu; ", at); break;
            case 5: s.erase(at, (size_t)r.range(1, 9)); how += fmts("bytes deleted at %zu; ", at); break;
            case 6: s.resize(at); how += fmts("cut at %zu; ", at); break;
            case 7: s += s.substr(at); how += fmts("tail from %zu repeated; ", at); break;
            default: for (size_t i = at; i < s.size(); ++i) s[i] = (char)r.next(); how += fmts("random from %zu; ", at); break;
            }
        }
        if (k % 40 == 0) { s.assign((size_t)r.range(0, 400), 0); for (auto &c : s) c = r.chance(.5) ? 0 : (char)r.next(); how = "random file"; }
        if (k % 50 == 1) { // a count field near the true one
            s = good;
            size_t at = r.chance(.4) ? 0 : 8;
            uint64_t v = 0;
            for (int i = 0; i < 8 && at + i < s.size(); ++i) v |= (uint64_t)(uint8_t)s[at + i] << (8 * i);
            put(at, v + (uint64_t)r.range(-3, 3), 8);
            how = fmts("count at %zu changed", at);
        }
        spit(f, s);
        bool ok = load(f, s.size(), what + ": " + how);
        tally("corruptions");
        nontrivial(s);
        (void)ok;
    }
    // a file that claims many vertices with little else: large enough for a large allocation
    if (r.chance(.1)) {
        size_t nv = (size_t)r.range(2000, 20000);
        std::string s(16 + nv * 8 + (size_t)r.range(0, 20000), 0);
        s[0] = 1;
        for (int i = 0; i < 8; ++i) s[8 + i] = (char)(nv >> (8 * i));
        for (size_t i = 16; i < 16 + nv * 8; ++i) s[i] = (char)((i & 3) == 3 ? 0 : r.next());
        spit(f, s);
        load(f, s.size(), fmts("%zu random vertices and next to no adjacency data", nv));
        tally("corruptions");
    }
    if (r.chance(.2)) {
        unlink(f.c_str());
        bool accepted = load(f, 0, "missing file");
        if (accepted) violate("missing-accepted", "a missing file was loaded");
        if (load(ctx().scratch, 0, "directory")) violate("missing-accepted", "a directory was loaded");
        spit(f, "");
        if (load(f, 0, "empty file")) violate("empty-accepted", "an empty file was loaded");
    }
    sample(what + fmts(": %zu bytes, truncated everywhere and corrupted", good.size()));
}

int main(int argc, char **argv) {
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    return run(argc, argv, [](long n, Rng &r) {
        threads(1);
        ctx().prop == "C10" ? c10(r) : c09(n, r);
        ctx().stats["file_mappings_guarded"] = g_mapped.load();
    });
}
