// Common part of the harnesses: case loop, reporting, conversions, scene families.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include "geo.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <cfloat>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <thread>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "types/coordinate/coordinate.hpp"
#include "types/line_segment/line_segment.hpp"
#include "types/polygon/polygon.hpp"
#include "datastructures/graph/graph.hpp"

// harness/gomp.cpp and harness/yieldrt.cpp, where linked in
extern "C" {
void vgomp_config(int threads, uint64_t seed, int mode) __attribute__((weak));
uint64_t vgomp_trace() __attribute__((weak));
long vgomp_chunks() __attribute__((weak));
void vyield_config(uint64_t every) __attribute__((weak));
uint64_t vyield_count() __attribute__((weak));
void omp_set_num_threads(int n);
}

namespace h {
using namespace ref;
inline void threads(int n, uint64_t seed = 0, int perturbation = 0) {
    if (vgomp_config) vgomp_config(n, seed, perturbation);
    else omp_set_num_threads(n);
}
inline uint64_t schedule_trace() { return vgomp_trace ? vgomp_trace() : 0; }
inline void yields(uint64_t every) { if (vyield_config) vyield_config(every); }

struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Ctx {
    std::string prop;
    uint64_t seed = 1;
    bool thorough = false;
    long cases = 100, only = -1;
    int shard = 0, nshards = 1;
    double soft_deadline = 1e9;
    std::string scratch = ".", repo = "/repo", mode;
    FILE *out = nullptr;
    long current = -1;
    bool count_cases = true; // false: the harness counts its evaluations itself
    int violations = 0;
    std::map<std::string, long long> stats;
    std::set<uint64_t> sigs;
    int samples = 0;
    std::mutex mu;
};
inline Ctx &ctx() {
    static Ctx c;
    return c;
}
inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline std::string fmts(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmts(const char *f, ...) {
    va_list a;
    va_start(a, f);
    char b[2048];
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
inline void emit(const std::string &line) {
    fprintf(ctx().out, "%s\n", line.c_str());
    fflush(ctx().out);
}
// key: what kind of violation; detail: the witness
inline void violate(const std::string &key, const std::string &detail) {
    std::lock_guard<std::mutex> g(ctx().mu);
    ctx().violations++;
    emit("{\"t\":\"viol\",\"key\":\"" + esc(key) + "\",\"case\":" + std::to_string(ctx().current) + ",\"detail\":\"" +
         esc(detail.substr(0, 6000)) + "\"}");
}
inline void tally(const std::string &k, long long v = 1) {
    std::lock_guard<std::mutex> g(ctx().mu);
    ctx().stats[k] += v;
}
inline void sample(const std::string &s) {
    std::lock_guard<std::mutex> g(ctx().mu);
    if (ctx().samples++ < 3) emit("{\"t\":\"sample\",\"v\":\"" + esc(s.substr(0, 900)) + "\"}");
}
inline uint64_t fnv(const std::string &s) {
    uint64_t x = 1469598103934665603ull;
    for (unsigned char c : s) x = (x ^ c) * 1099511628211ull;
    return x;
}
inline void nontrivial(const std::string &s) {
    std::lock_guard<std::mutex> g(ctx().mu);
    ctx().sigs.insert(fnv(s));
}
inline Rng case_rng(long c, uint64_t salt = 0) {
    return Rng(ctx().seed * 1000003ull + (uint64_t)c * 7919ull + salt * 104729ull + fnv(ctx().prop + ctx().mode) % 1000000007ull);
}

struct Mute { // the library prints progress bars to std::cout
    std::streambuf *old;
    Mute() : old(std::cout.rdbuf(nullptr)) {}
    ~Mute() { std::cout.rdbuf(old); std::cout.clear(); }
};

inline int run(int argc, char **argv, const std::function<void(long, Rng &)> &one) {
    Ctx &c = ctx();
    std::string outp;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") c.prop = v;
        else if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--tier") c.thorough = v == "thorough";
        else if (k == "--cases") c.cases = atol(v.c_str());
        else if (k == "--only") c.only = atol(v.c_str());
        else if (k == "--shard") c.shard = atoi(v.c_str());
        else if (k == "--nshards") c.nshards = atoi(v.c_str());
        else if (k == "--soft") c.soft_deadline = atof(v.c_str());
        else if (k == "--scratch") c.scratch = v;
        else if (k == "--mode") c.mode = v;
        else if (k == "--repo") c.repo = v;
        else if (k == "--out") outp = v;
        else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 3; }
    }
    c.out = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    if (!c.out) return 3;
    auto t0 = std::chrono::steady_clock::now();
    Mute mute;
    for (long i = c.shard; i < c.cases; i += c.nshards) {
        if (c.only >= 0) { if (i > c.only) break; if (i != c.only) continue; }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > c.soft_deadline) {
            c.stats["cut_short"] = 1;
            break;
        }
        if (c.violations >= 12) break;
        c.current = i;
        emit("{\"t\":\"case\",\"n\":" + std::to_string(i) + "}");
        Rng r = case_rng(i);
        try {
            one(i, r);
        } catch (const HarnessError &e) {
            emit(std::string("{\"t\":\"harness_error\",\"v\":\"") + esc(e.what()) + "\"}");
            return 3;
        } catch (const std::exception &e) {
            violate("exception", std::string("the library raised: ") + e.what());
        }
        if (c.count_cases) tally("evaluations");
    }
    for (auto &s : c.stats)
        emit("{\"t\":\"stat\",\"k\":\"" + esc(s.first) + "\",\"v\":" + std::to_string(s.second) + "}");
    std::string sg = "{\"t\":\"sigs\",\"v\":[";
    bool first = true;
    for (auto s : c.sigs) { sg += (first ? "" : ",") + std::to_string(s >> 12); first = false; }
    emit(sg + "]}");
    emit("{\"t\":\"done\"}");
    fflush(c.out);
    return 0;
}

// ------------------------------------------------------------------ conversions
inline Coordinate C(const Pt &p) { return Coordinate((int32_t)p.x, (int32_t)p.y); }
inline Pt P(const Coordinate &c) { return Pt{c.get_longitude_microdegrees(), c.get_latitude_microdegrees()}; }
inline Polygon to_polygon(const Poly &p) {
    std::vector<Coordinate> v;
    for (auto &q : p) v.push_back(C(q));
    return Polygon(v);
}
inline std::vector<Polygon> to_polygons(const World &w) {
    std::vector<Polygon> r;
    for (auto &p : w) r.push_back(to_polygon(p));
    return r;
}
inline std::vector<Pt> corners(const World &w) {
    std::vector<Pt> r;
    for (auto &p : w) r.insert(r.end(), p.begin(), p.end());
    return r;
}
inline Poly from_polygon(const Polygon &p) {
    Poly r;
    for (auto &v : p.get_vertices()) r.push_back(P(v));
    return r;
}
inline bool same_cycle(const Poly &a, const Poly &b) {
    if (a.size() != b.size()) return false;
    if (a.empty()) return true;
    for (size_t s = 0; s < a.size(); ++s) {
        bool ok = true;
        for (size_t i = 0; i < a.size() && ok; ++i) ok = a[(i + s) % a.size()] == b[i];
        if (ok) return true;
    }
    return false;
}

// Content of a graph through its queries: directed (from, to) -> crossing
using EdgeMap = std::map<std::pair<std::pair<i64, i64>, std::pair<i64, i64>>, bool>;
template <class G> inline EdgeMap edges_of(const G &g) {
    EdgeMap m;
    for (auto &v : g.get_vertices())
        for (auto &n : g.get_neighbors(v))
            m[{{v.get_longitude_microdegrees(), v.get_latitude_microdegrees()},
               {n.get_longitude_microdegrees(), n.get_latitude_microdegrees()}}] = g.is_edge_meridian_crossing(v, n);
    return m;
}
inline std::string show_edge(const EdgeMap::key_type &k) {
    return show(Pt{k.first.first, k.first.second}) + "->" + show(Pt{k.second.first, k.second.second});
}
inline std::string diff(const EdgeMap &a, const EdgeMap &b) { // empty if equal
    for (auto &e : a) {
        auto it = b.find(e.first);
        if (it == b.end()) return "only in the first: " + show_edge(e.first);
        if (it->second != e.second) return fmts("crossing %d in the first, %d in the second: ", (int)e.second, (int)it->second) + show_edge(e.first);
    }
    for (auto &e : b)
        if (!a.count(e.first)) return "only in the second: " + show_edge(e.first);
    return "";
}

// Another place within the world whose hash is the same: tables that take hashes for the things themselves mix them up.
// Found by turning the library's formula round, and only given when the hashes are indeed equal.
inline Pt alike(Rng &r, const Pt &v, i64 reach = 40000) {
    const uint64_t h = std::hash<Coordinate>()(C(v));
    for (int t = 0; t < 40; ++t) {
        i64 y = v.y + r.range(-reach, reach);
        uint64_t l = (uint64_t)(i64)(int32_t)y, x = (h ^ l) - 0x9e3779b9 - (l << 6) - (l >> 2);
        Pt q{(i64)x, y};
        if (q == v || std::abs(q.y) > 90000000 || q.x > 180000000 || q.x < -180000000) continue;
        if (std::hash<Coordinate>()(C(q)) == h) return q;
    }
    return v;
}

// ------------------------------------------------------------------ scene families
struct Scene {
    World w;
    std::string family;
    i64 x0, y0, x1, y1; // where query points are drawn from
    i64 gap;
};
constexpr i64 LON = 180000000, LAT = 90000000;

inline World rect_grid(Rng &r, i64 x0, i64 y0, i64 pitch, int nx, int ny, double fill) { // many equidistant, collinear edges
    World w;
    for (int i = 0; i < nx; ++i)
        for (int j = 0; j < ny; ++j)
            if (r.chance(fill)) {
                i64 a = x0 + i * 2 * pitch, b = y0 + j * 2 * pitch;
                i64 wx = r.chance(.5) ? pitch : pitch / 2, wy = r.chance(.5) ? pitch : pitch / 2;
                if (r.chance(.3)) w.push_back({{a, b}, {a + wx, b}, {a + wx, b + wy}, {a, b + wy}});
                else if (r.chance(.4)) w.push_back({{a + wx / 2, b}, {a + wx, b + wy / 2}, {a + wx / 2, b + wy}, {a, b + wy / 2}});
                else w.push_back({{a, b}, {a + wx, b}, {a, b + wy}});
            }
    return w;
}
// Alternating meridional walls: no two points in the box between latitude -cap and cap see each other the long way round.
inline World baffles(Rng &r, i64 first_lon, int n, i64 thick) {
    World w;
    i64 step = 360000000 / n;
    for (int k = 0; k < n; ++k) {
        i64 x = first_lon + k * step + r.range(0, step / 4), t = thick + r.range(0, thick);
        i64 lo = (k % 2) ? -r.range(30000000, 50000000) : -r.range(84000000, 88000000);
        i64 hi = (k % 2) ? r.range(84000000, 88000000) : r.range(30000000, 50000000);
        i64 sl = r.range(-step / 8, step / 8);
        w.push_back({{x, lo}, {x + t, lo + r.range(0, 900000)}, {x + t + sl, hi}, {x + sl, hi + r.range(0, 900000)}});
    }
    for (auto &p : w) make_ccw(p);
    return w;
}
inline Spec spec(i64 x0, i64 y0, i64 x1, i64 y1, int n, i64 gap, i64 pitch = 0, int maxv = 60) {
    return Spec{x0, y0, x1, y1, n, gap, pitch != 0, pitch, maxv};
}
inline const char *family_name(int f) {
    static const char *n[] = {"local", "lattice", "world", "antimeridian", "sparse", "tiny", "grid", "dense", "offset", "large", "needles", "continents", "city", "coast", "dateline", "archipelago"};
    return n[f];
}
constexpr int FAMILIES = 10, NEEDLES = 10, CONTINENTS = 11, CITY = 12, COAST = 13, DATELINE = 14, ARCHIPELAGO = 15; // the last six only where asked for
// Long obstacles a few hundred microdegrees thick, with small ones about the lines of their sides: sightlines meet edges
// at the smallest of angles.
inline World needles(Rng &r) {
    World w;
    auto put = [&](Poly p) {
        for (auto &v : p)
            if (std::abs(v.x) > LON || std::abs(v.y) > LAT) return;
        if (!simple_poly(p) || clearance_within(p) < 12) return;
        for (auto &q : w)
            if (poly_gap(p, q) < 12) return;
        make_ccw(p);
        w.push_back(p);
    };
    int n = (int)r.range(1, 2);
    for (int t = 0; t < 20 && n > 0; ++t) {
        ld len = expl(logl(3e6L) + (logl(1.6e8L) - logl(3e6L)) * r.unit()), ang = M_PIl * r.unit();
        if (len > 5e7) ang = (r.chance(.5) ? 0 : M_PIl) + (r.unit() - .5L) * .5L;
        ld ux = cosl(ang), uy = sinl(ang), cx = (r.unit() - .5L) * 2.4e8L, cy = (r.unit() - .5L) * 1e8L;
        auto at = [&](ld along, ld off) { return Pt{llroundl(cx + ux * along - uy * off), llroundl(cy + uy * along + ux * off)}; };
        ld h = 30 + 400 * r.unit() * r.unit();
        size_t before = w.size();
        switch (r.range(0, 2)) {
        case 0: put({at(0, 0), at(len, 0), at(len * r.unit(), h)}); break;
        case 1: put({at(0, 0), at(len, (r.unit() - .5L) * h), at(len, h * 1.6L), at(0, h)}); break;
        default: put({at(0, 0), at(len / 2, (r.unit() - .5L) * h), at(len, 0), at(len * (.3L + .4L * r.unit()), h * 2)});
        }
        if (w.size() == before) continue;
        n--;
        for (int k = 0, m = (int)r.range(2, 6); k < m; ++k) { // around its ends, or beside it
            ld along = r.chance(.4) ? -len * .3L * r.unit() : r.chance(.6) ? len * (1 + .3L * r.unit()) : len * r.unit();
            Pt c = at(along, (r.unit() - .5L) * 4 * h);
            i64 z = r.range(12, 200);
            put({{c.x, c.y}, {c.x + z, c.y + r.range(0, z)}, {c.x - r.range(0, z / 2), c.y + z}});
        }
    }
    return w;
}
// Right-angled obstacles made of the cells of a coarse grid: sides in line with corners and other sides everywhere, also
// across bays and across the obstacles themselves.  The grid may be slanted.
inline Poly trace_cells(const std::set<std::pair<int, int>> &cells) { // empty if there are holes or cells that touch at a corner only
    std::map<std::pair<int, int>, std::pair<int, int>> to;
    auto has = [&](int i, int j) { return cells.count({i, j}) > 0; };
    for (auto &c : cells) {
        int i = c.first, j = c.second;
        auto side = [&](int a, int b, int x, int y) { return to.insert({{a, b}, {x, y}}).second; };
        if (!has(i, j - 1) && !side(i, j, i + 1, j)) return {};
        if (!has(i + 1, j) && !side(i + 1, j, i + 1, j + 1)) return {};
        if (!has(i, j + 1) && !side(i + 1, j + 1, i, j + 1)) return {};
        if (!has(i - 1, j) && !side(i, j + 1, i, j)) return {};
    }
    Poly p;
    auto at = to.begin()->first;
    const auto first = at;
    size_t n = 0;
    do { p.push_back({at.first, at.second}); at = to.at(at); n++; } while (at != first && n <= to.size());
    if (n != to.size()) return {};
    Poly q;
    for (size_t i = 0; i < p.size(); ++i)
        if (orient(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) != 0) q.push_back(p[i]);
    return q;
}
inline World cells_world(Rng &r, int nx, int ny, int n) {
    World w;
    std::set<std::pair<int, int>> used; // cells of obstacles, and around them
    for (int k = 0; k < n * 3 && (int)w.size() < n; ++k) {
        std::set<std::pair<int, int>> cells{{(int)r.range(0, nx - 1), (int)r.range(0, ny - 1)}};
        for (int m = (int)r.range(2, 16), t = 0; (int)cells.size() < m && t < 60; ++t) {
            auto it = cells.begin();
            std::advance(it, r.range(0, cells.size() - 1));
            auto c = *it;
            (r.chance(.5) ? c.first : c.second) += r.chance(.5) ? 1 : -1;
            if (c.first >= 0 && c.second >= 0 && c.first < nx && c.second < ny) cells.insert(c);
        }
        bool ok = true;
        for (auto &c : cells) ok = ok && !used.count(c);
        if (!ok) continue;
        Poly p = trace_cells(cells);
        if (p.empty()) continue;
        w.push_back(p);
        for (auto &c : cells)
            for (int i = -1; i <= 1; ++i)
                for (int j = -1; j <= 1; ++j) used.insert({c.first + i, c.second + j});
    }
    return w;
}
inline World city(Rng &r, i64 x0, i64 y0, i64 x1, i64 y1) { // as large as the box allows
    int nx = (int)r.range(4, 12), ny = (int)r.range(4, 10);
    World w = cells_world(r, nx, ny, (int)r.range(1, 6));
    // (i, j) -> (a i + b j, c i + d j), with a d > b c
    static const int slants[][4] = {{1, 0, 0, 1}, {1, 0, 0, 1}, {2, 1, 0, 1}, {2, -1, 1, 2}, {1, 1, -1, 1}, {3, 1, 1, 2}};
    auto &m = slants[r.range(0, 5)];
    for (auto &p : w)
        for (auto &v : p) v = Pt{m[0] * v.x + m[1] * v.y, m[2] * v.x + m[3] * v.y};
    BB b{0, 0, 0, 0};
    for (auto &p : w)
        for (auto &v : p) { b.x0 = std::min(b.x0, v.x); b.y0 = std::min(b.y0, v.y); b.x1 = std::max(b.x1, v.x); b.y1 = std::max(b.y1, v.y); }
    i64 px = (x1 - x0) / std::max<i64>(b.x1 - b.x0, 1), py = (y1 - y0) / std::max<i64>(b.y1 - b.y0, 1);
    if (r.chance(.5)) px = py = std::min(px, py);
    if (r.chance(.5)) { px -= px / 4; py -= py / 4; }
    for (auto &p : w)
        for (auto &v : p) v = Pt{x0 + (v.x - b.x0) * px, y0 + (v.y - b.y0) * py};
    return w;
}
// A shore, rougher and rougher from close up
inline Poly gen_shore(Rng &r, ld cx, ld cy, ld rad, int n) {
    Poly p;
    int k = (int)r.range(3, 5);
    ld turn = 2 * M_PIl * r.unit();
    for (int i = 0; i < k; ++i) p.push_back({llroundl(cx + rad * cosl(turn + 2 * M_PIl * i / k)), llroundl(cy + rad * sinl(turn + 2 * M_PIl * i / k))});
    ld rough = .3L + .6L * r.unit();
    while ((int)p.size() < n) {
        Poly q;
        for (size_t i = 0; i < p.size(); ++i) {
            const Pt &a = p[i], &b = p[(i + 1) % p.size()];
            q.push_back(a);
            ld t = .3L + .4L * r.unit(), off = (r.unit() - .5L) * rough;
            Pt m{llroundl(a.x + t * (b.x - a.x) - off * (b.y - a.y)), llroundl(a.y + t * (b.y - a.y) + off * (b.x - a.x))};
            if (!(m == a) && !(m == b)) q.push_back(m);
        }
        if (q.size() == p.size()) break;
        p = q;
    }
    return p;
}
inline World coast(Rng &r, i64 x0, i64 y0, i64 x1, i64 y1, i64 gap, int maxv) {
    World w;
    int n = (int)r.range(1, 5), total = 0;
    for (int t = 0; t < 200 && n > 0; ++t) {
        ld size = std::min(x1 - x0, y1 - y0) / 2 * (w.empty() ? .3L + .6L * r.unit() : expl(logl(.02L) + logl(20) * r.unit()));
        Poly p = gen_shore(r, x0 + (x1 - x0) * r.unit(), y0 + (y1 - y0) * r.unit(), size, (int)r.range(5, w.empty() ? 40 : 20));
        bool ok = p.size() >= 3 && total + (int)p.size() <= maxv + 20;
        for (auto &v : p) ok = ok && v.x >= x0 && v.x <= x1 && v.y >= y0 && v.y <= y1;
        if (!ok || !simple_poly(p) || clearance_within(p) < gap) continue;
        for (auto &q : w) ok = ok && poly_gap(p, q) > gap;
        for (size_t i = 0; i < p.size() && ok; ++i) ok = orient(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) != 0;
        if (!ok) continue;
        total += (int)p.size();
        w.push_back(p);
        n--;
    }
    return w;
}
// Land cut in two by the antimeridian, as maps have it, and land around a pole; obstacles reach to the bounds of the world.
inline World dateline(Rng &r, int maxv) {
    World w;
    i64 unit = r.chance(.4) ? 300000 : 10000000;
    auto half = [&](i64 side, i64 y0, i64 y1, int n) { // with a side on the antimeridian, side = 1: west of it
        Poly p{{side * LON, y0}};
        i64 m = (y0 + y1) / 2, h = (y1 - y0) / 2;
        for (int i = 1; i <= n; ++i) {
            ld a = -M_PIl / 2 + M_PIl * (i - .5L + .8L * (r.unit() - .5L)) / n, q = h * (.3L + .9L * r.unit());
            p.push_back({side * LON - side * llroundl(q * cosl(a)), m + llroundl(q * sinl(a))});
        }
        p.push_back({side * LON, y1});
        return p;
    };
    int n = (int)r.range(1, 3);
    i64 y = -llroundl(unit * 2.5L) + r.range(0, unit);
    for (int k = 0; k < n; ++k) {
        i64 y0 = y + r.range(unit / 10, unit), y1 = y0 + r.range(unit / 3, unit);
        int which = (int)r.range(0, 3); // mostly both halves, cut alike
        if (which != 1) w.push_back(half(1, y0, y1, (int)r.range(1, 6)));
        if (which != 2) w.push_back(which == 3 ? half(-1, y0 + unit / 20, y1 - unit / 30, (int)r.range(1, 6)) : half(-1, y0, y1, (int)r.range(1, 6)));
        y = y1;
    }
    if (unit > 1000000 && r.chance(.4)) { // around the south pole, across the whole map
        Poly p{{-LON, r.chance(.5) ? -LAT : -LAT + 100000}};
        p.push_back({LON, p[0].y});
        int m = (int)r.range(3, 12);
        i64 last = r.range(-80, -70) * 1000000;
        for (int i = m; i >= 0; --i)
            p.push_back({i == m ? LON : i == 0 ? -LON : -LON + llroundl(2.0L * LON * (i + .6L * (r.unit() - .5L)) / m), i == m || i == 0 ? last : r.range(-83, -68) * 1000000});
        w.push_back(p);
    }
    World k;
    for (auto &p : w) {
        if (!simple_poly(p) || clearance_within(p) < 300) continue;
        bool ok = true;
        for (size_t i = 0; i < p.size() && ok; ++i) ok = orient(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) != 0;
        for (auto &q : k) ok = ok && poly_gap(p, q) > 300;
        if (ok) k.push_back(p);
    }
    for (auto &q : gen_world(r, spec(-LON + 7 * unit, -6 * unit, r.chance(.5) ? -LON + 14 * unit : LON - 4 * unit, 6 * unit, 4, 3000, 0, maxv / 2))) { // and elsewhere
        bool ok = true;
        for (auto &p : k) ok = ok && poly_gap(p, q) > 3000;
        if (ok) k.push_back(q);
    }
    return k;
}
// Very many obstacles, or obstacles of very many corners: one in each cell of a grid
inline World archipelago(Rng &r, i64 x0, i64 y0, i64 x1, i64 y1, int maxv) {
    World w;
    int nx = (int)r.range(1, 12), ny = (int)r.range(1, 10), per = std::max(3, maxv / (nx * ny));
    for (int i = 0; i < nx; ++i)
        for (int j = 0; j < ny; ++j) {
            if (nx * ny > 2 && r.chance(.15)) continue;
            ld cw = (x1 - x0) / nx, ch = (y1 - y0) / ny;
            Poly p = gen_star(r, x0 + cw * (i + .5L), y0 + ch * (j + .5L), std::min(cw, ch) * (.25L + .22L * r.unit()), std::max(3, (int)r.range(per / 2, per + per / 2)), .4L + .5L * r.unit());
            bool ok = simple_poly(p) && clearance_within(p) > 30;
            for (size_t a = 0; a < p.size() && ok; ++a) ok = orient(p[(a + p.size() - 1) % p.size()], p[a], p[(a + 1) % p.size()]) != 0;
            if (ok) w.push_back(p);
        }
    return w;
}
inline Scene make_scene(Rng &r, int f, int maxv = 60) {
    Scene s;
    s.family = family_name(f);
    auto fill = [&](const Spec &sp) {
        for (int t = 0; t < 20; ++t) {
            s.w = gen_world(r, sp);
            if (!s.w.empty()) break;
        }
        s.x0 = sp.x0; s.y0 = sp.y0; s.x1 = sp.x1; s.y1 = sp.y1; s.gap = sp.gap;
    };
    switch (f) {
    case 0: fill(spec(-1000000, -1000000, 1000000, 1000000, 8, 300, 0, maxv)); break;
    case 1: fill(spec(-1000000, -1000000, 1000000, 1000000, 8, 300, r.chance(.5) ? 100000 : 200000, maxv)); break;
    case 2: fill(spec(-LON, -80000000, LON, 80000000, 8, 30000, 0, maxv)); break;
    case 3: { // clusters on both sides of the antimeridian
        fill(spec(-15000000, -15000000, 15000000, 15000000, 9, 30000, 0, maxv));
        World k;
        for (auto &p : s.w) {
            BB b = bbox(p);
            if (b.x0 < 0 && b.x1 >= 0) continue;
            Poly q = p;
            for (auto &v : q) v.x += b.x0 >= 0 ? -LON : LON;
            bool ok = true;
            for (auto &v : q) ok = ok && v.x >= -LON && v.x <= LON;
            if (ok) k.push_back(q);
        }
        s.w = k;
        s.x0 = 165000000; s.x1 = 195000000; // to be wrapped
        break;
    }
    case 4: fill(spec(-LON, -80000000, LON, 80000000, 2, 30000, 0, 16)); break;
    case 5: fill(spec(-1500, -1500, 1500, 1500, 6, 24, 0, maxv)); break;
    case 6: {
        i64 p = r.chance(.5) ? 100000 : 2000000;
        i64 ox = r.range(-20, 20) * p, oy = r.range(-8, 8) * p;
        int nx = (int)r.range(1, 4), ny = (int)r.range(1, 4);
        s.w = rect_grid(r, ox, oy, p, nx, ny, 0.8);
        s.x0 = ox - p; s.y0 = oy - p; s.x1 = ox + 2 * nx * p; s.y1 = oy + 2 * ny * p; s.gap = p / 2;
        break;
    }
    case 7: fill(spec(-1000000, -1000000, 1000000, 1000000, 30, 300, 0, std::max(maxv, 60) * 2)); break;
    case 8: { // anywhere on the map, local scale
        i64 ox = r.range(-170, 169) * 1000000, oy = r.range(-80, 79) * 1000000;
        fill(spec(ox, oy, ox + 3000000, oy + 3000000, 8, 300, 0, maxv));
        break;
    }
    case NEEDLES:
        s.w = needles(r);
        s.x0 = -LON; s.x1 = LON; s.y0 = -70000000; s.y1 = 70000000; s.gap = 60;
        break;
    case CITY: {
        i64 k = r.chance(.15) ? 600 : r.chance(.5) ? 1000000 : r.chance(.5) ? 20000000 : 80000000;
        s.x0 = k == 80000000 ? -175000000 : -k + r.range(-5, 5) * k / 3; s.y0 = k == 80000000 ? -k : -k + r.range(-2, 2) * k / 3;
        s.x1 = k == 80000000 ? 175000000 : s.x0 + 2 * k; s.y1 = s.y0 + 2 * k;
        s.gap = std::max<i64>(k / 100, 30);
        for (int t = 0; t < 20 && s.w.empty(); ++t) s.w = city(r, s.x0, s.y0, s.x1, s.y1);
        break;
    }
    case COAST: {
        i64 k = r.chance(.4) ? 1000000 : r.chance(.5) ? 20000000 : 80000000;
        s.x0 = k == 80000000 ? -LON : -k + r.range(-5, 5) * k / 3; s.y0 = k == 80000000 ? -k : -k + r.range(-2, 2) * k / 3;
        s.x1 = k == 80000000 ? LON : s.x0 + 2 * k; s.y1 = s.y0 + 2 * k;
        s.gap = std::max<i64>(k / 10000, 30);
        for (int t = 0; t < 20 && s.w.empty(); ++t) s.w = coast(r, s.x0, s.y0, s.x1, s.y1, s.gap, maxv);
        break;
    }
    case DATELINE:
        for (int t = 0; t < 20 && s.w.empty(); ++t) s.w = dateline(r, maxv);
        s.x0 = LON - 20000000; s.x1 = LON + 20000000; s.y0 = -40000000; s.y1 = 40000000; s.gap = 300; // to be wrapped
        break;
    case ARCHIPELAGO: {
        i64 k = r.chance(.5) ? 1000000 : r.chance(.5) ? 20000000 : 80000000;
        s.x0 = k == 80000000 ? -LON : -k + r.range(-5, 5) * k / 3; s.y0 = k == 80000000 ? -k : -k + r.range(-2, 2) * k / 3;
        s.x1 = k == 80000000 ? LON : s.x0 + 2 * k; s.y1 = s.y0 + 2 * k;
        s.gap = std::max<i64>(k / 3000, 30);
        s.w = archipelago(r, s.x0, s.y0, s.x1, s.y1, maxv);
        break;
    }
    case CONTINENTS: { // tens of degrees across: points of them lie far from any shore
        int n = (int)r.range(1, 3);
        for (int t = 0; t < 30 && n > 0; ++t) {
            Poly p = gen_star(r, (r.unit() - .5L) * 2.4e8L, (r.unit() - .5L) * 5e7L, 1e6L * r.range(15, 45), (int)r.range(5, 16), .6L + .3L * r.unit());
            if (!simple_poly(p) || clearance_within(p) < 1000000) continue;
            bool ok = true;
            for (auto &v : p) ok = ok && std::abs(v.x) < LON && std::abs(v.y) < 80000000;
            for (auto &q : s.w) ok = ok && poly_gap(p, q) > 3000000;
            if (ok) { s.w.push_back(p); n--; }
        }
        s.x0 = -LON; s.x1 = LON; s.y0 = -80000000; s.y1 = 80000000; s.gap = 100000;
        break;
    }
    default: { // one or two large rings
        fill(spec(-1000000, -1000000, 1000000, 1000000, 3, 300, 0, maxv));
        World k;
        for (int t = 0; t < 30 && k.empty(); ++t) {
            Poly p = gen_star(r, 0, 0, 900000, (int)r.range(40, 90), 0.3L + 0.5L * r.unit());
            if (simple_poly(p) && clearance_within(p) >= 100) { make_ccw(p); k.push_back(p); }
        }
        if (!k.empty()) s.w = k;
        s.gap = 100;
    }
    }
    for (auto &p : s.w) make_ccw(p);
    if (s.w.size() > 1 && s.w.size() < 40 && r.chance(.08)) { // corners of different obstacles with equal hashes
        for (int t = 0; t < 12; ++t) {
            size_t i = r.next() % s.w.size(), j = r.next() % s.w.size();
            if (i == j) continue;
            const Pt &b = s.w[j][r.next() % s.w[j].size()];
            i64 reach = std::max<i64>(3, std::min<i64>(1000000, (s.x1 - s.x0) / 100));
            Pt a = s.w[i][r.next() % s.w[i].size()], q = alike(r, a, reach);
            if (q == a) continue;
            Poly p = s.w[j];
            i64 dx = q.x - b.x, dy = q.y - b.y;
            bool ok = q.x >= s.x0 && q.x <= s.x1;
            for (auto &v : p) { v.x += dx; v.y += dy; ok = ok && std::abs(v.x) <= LON && std::abs(v.y) <= LAT; }
            for (size_t k = 0; k < s.w.size() && ok; ++k) ok = k == j || poly_gap(p, s.w[k]) > std::min<i64>(s.gap, 300);
            if (!ok) continue;
            s.w[j] = p;
            s.family += "+corners-alike";
            break;
        }
    }
    return s;
}
// Very many corners, all over the place or around one place from which nearly all of them are seen.
inline Scene scene_of_many(Rng &r, int corners_) {
    if (r.chance(.5)) return make_scene(r, ARCHIPELAGO, corners_);
    Scene s;
    s.family = "amphitheatre";
    s.gap = 100;
    const int n = std::max(8, corners_ / 3 - 1);
    const ld R = r.chance(.3) ? 2000000 : 10000000 + 60000000 * r.unit();
    const Pt o{r.range(-LON + (i64)(1.3L * R), LON - (i64)(1.3L * R)), r.range(-LAT + (i64)(1.3L * R) < 0 ? -LAT + (i64)(1.2L * R) : 0, LAT - (i64)(1.2L * R) > 0 ? LAT - (i64)(1.2L * R) : 0)};
    auto at = [&](ld a, ld rad) { return Pt{o.x + llroundl(rad * cosl(a)), o.y + llroundl(rad * sinl(a))}; };
    const ld turn = 2 * M_PIl * r.unit(), step = 2 * M_PIl / n;
    for (int k = 0; k < n; ++k) {
        ld a = turn + k * step, in = R * (.9L + .1L * r.unit());
        s.w.push_back({at(a - step * (.05L + .3L * r.unit()), in), at(a + step * .1L, R * (1.02L + .1L * r.unit())), at(a + step * (.05L + .3L * r.unit()), in)});
    }
    Poly mid;
    do mid = gen_star(r, o.x, o.y, R / 40, (int)r.range(3, 6), .5L); while (!simple_poly(mid) || clearance_within(mid) < 100);
    s.w.push_back(mid);
    if (r.chance(.5)) r.shuffle(s.w);
    for (auto &p : s.w) make_ccw(p);
    i64 e = (i64)(1.15L * R);
    s.x0 = std::max(-LON, o.x - e); s.x1 = std::min(LON, o.x + e);
    s.y0 = std::max(-LAT, o.y - e); s.y1 = std::min(LAT, o.y + e);
    return s;
}
inline int pick_family(Rng &r) { // "large" scenes are costly for the oracles
    int f = (int)r.range(0, FAMILIES - 1);
    if (f == 9 && !r.chance(.3)) f = 0;
    return f;
}
inline int pick_rare(Rng &r) { // of the families left out by pick_family
    return r.chance(.35) ? CITY : r.chance(.35) ? COAST : r.chance(.4) ? DATELINE : r.chance(.7) ? NEEDLES : CONTINENTS;
}
inline Pt wrap(Pt p) {
    while (p.x > LON) p.x -= PERIOD;
    while (p.x < -LON) p.x += PERIOD;
    return p;
}
inline Pt random_point(Rng &r, const Scene &s) {
    i64 mx = (s.x1 - s.x0) / 8, my = (s.y1 - s.y0) / 8;
    Pt p{r.range(s.x0 - mx, s.x1 + mx), r.range(s.y0 - my, s.y1 + my)};
    p.y = std::max(-LAT, std::min(LAT, p.y));
    return wrap(p);
}
inline ld dist_to_world(const World &w, const Pt &p) {
    ld d = INFINITY;
    for (auto &q : w)
        for (size_t i = 0; i < q.size(); ++i) d = std::min(d, dist_pt_seg(p, q[i], q[(i + 1) % q.size()]));
    return d;
}
inline int inside_world(const World &w, const Pt &p) {
    int b = -1;
    for (auto &q : w) b = std::max(b, locate(q, p));
    return b;
}
} // namespace h
#endif
