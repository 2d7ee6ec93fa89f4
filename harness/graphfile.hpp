// Random graphs, and comparing what was saved with what was loaded.
#pragma once
#include "h.hpp"
#include "serialization/graph_serializer.hpp"
using namespace h;
typedef std::shared_ptr<Graph> G;

inline std::string slurp(const std::string &f) {
    std::string s;
    FILE *h = fopen(f.c_str(), "rb");
    if (!h) throw HarnessError("cannot read " + f);
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    fclose(h);
    return s;
}
inline void spit(const std::string &f, const std::string &s) {
    FILE *h = fopen(f.c_str(), "wb");
    if (!h || fwrite(s.data(), 1, s.size(), h) != s.size()) throw HarnessError("cannot write " + f);
    fclose(h);
}
inline i64 place(Rng &r, i64 lim) { // coordinates with all byte patterns
    switch (r.range(0, 4)) {
    case 0: return r.range(-lim, lim);
    case 1: return (r.chance(.5) ? 1 : -1) * std::min<i64>(lim, (i64)1 << r.range(0, 27));
    case 2: return r.chance(.5) ? lim : -lim;
    case 3: return std::max(-lim, std::min<i64>(lim, r.range(-3, 3) * 256 * 256 + r.range(-300, 300)));
    default: return r.range(-3, 3);
    }
}
// Any vertices, all different: what they look like together does not matter to the file.
inline std::vector<Polygon> random_obstacles(Rng &r, size_t target, std::string &what) {
    std::vector<Polygon> ps;
    std::set<Pt> used;
    size_t n = 0;
    for (int t = 0; n < target && t < 2000; ++t) {
        size_t k = r.chance(.05) ? (size_t)r.range(0, 2) : r.chance(.1) ? std::min<size_t>(target - n, (size_t)r.range(3, 600)) : (size_t)r.range(3, 9);
        std::vector<Coordinate> v;
        std::set<Pt> mine;
        bool far_ = r.chance(.4);
        for (size_t i = 0; i < k; ++i) {
            Pt p = far_ ? Pt{place(r, LON), place(r, LAT)} : Pt{(i64)(r.range(-1000, 1000) * 1000), (i64)r.range(-1000000, 1000000)};
            if (used.count(p) || !mine.insert(p).second) continue;
            v.push_back(C(p));
        }
        Polygon p(v);
        used.insert(mine.begin(), mine.end());
        n += p.get_vertices().size();
        ps.push_back(p);
    }
    what = fmts("%zu obstacles, %zu vertices", ps.size(), n);
    return ps;
}
inline G random_graph(Rng &r, size_t target, std::string &what) {
    auto ps = random_obstacles(r, target, what);
    G g = std::make_shared<Graph>(ps);
    auto vs = g->get_vertices();
    size_t n = vs.size();
    double density = n > 120 ? 0.02 * r.unit() : r.chance(.15) ? 1 : r.chance(.15) ? 0 : r.unit(), cross = r.chance(.2) ? 1 : r.chance(.2) ? 0 : r.unit();
    size_t edges = 0, crossing = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
            if (r.chance(density)) {
                bool x = r.chance(cross);
                g->add_edge(vs[i], vs[j], x);
                if (r.chance(.05)) { g->add_edge(vs[i], vs[j], !x); x = false; } // both ways
                edges++;
                crossing += x;
            }
    what += fmts(", %zu edges, %zu crossing", edges, crossing);
    return g;
}
inline std::string content(const Graph &g) { // everything that can be asked
    std::string s;
    for (auto &p : g.get_polygons()) s += show(from_polygon(p)) + "\n";
    s += "|";
    for (auto &v : g.get_vertices()) s += show(P(v));
    return s;
}
inline std::string compare(const Graph &a, const Graph &b) {
    if (a.get_polygons().size() != b.get_polygons().size()) return "number of obstacles differs";
    if (content(a) != content(b)) return "obstacles or vertices differ: " + content(a).substr(0, 800) + " loaded as " + content(b).substr(0, 800);
    std::string d = diff(edges_of(a), edges_of(b));
    if (!d.empty()) return d + " (first: saved, second: loaded)";
    if (a != b || !(a == b)) return "compares unequal";
    if (a.to_string_representation() != b.to_string_representation()) return "printed forms differ";
    return "";
}
