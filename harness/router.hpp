// Reference router: brute-force visibility and Dijkstra, with lower and upper bounds where a sightline is too close to
// an obstacle to be judged.
#pragma once
#include "h.hpp"
#include "sphere.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "visgraph/visgraph_generator.hpp"

namespace h {
struct Place {
    Scene s;
    World per;
    std::vector<BB> bb, pbb;
    Sphere sph;
    std::vector<Pt> vs;
    std::vector<std::vector<Sight>> D, X; // direct, across
    std::shared_ptr<Graph> graph;
    std::unique_ptr<ShortestPathComputer> computer;

    explicit Place(const Scene &sc, bool tables = true, bool build = true) : s(sc), per(periodic(sc.w)), bb(bboxes(sc.w)), pbb(bboxes(per)), sph(sc.w) {
        if (!sph.valid) return;
        vs = corners(s.w);
        if (tables) {
            size_t n = vs.size();
            D.assign(n, std::vector<Sight>(n, CLEAR));
            X.assign(n, std::vector<Sight>(n, BLOCKED));
            for (size_t i = 0; i < n; ++i)
                for (size_t j = i + 1; j < n; ++j) {
                    D[i][j] = D[j][i] = direct(vs[i], vs[j]);
                    X[i][j] = X[j][i] = across(vs[i], vs[j]);
                }
        }
        if (!build) return;
        auto polys = to_polygons(s.w);
        graph = VisgraphGenerator::generate(polys);
        computer = std::make_unique<ShortestPathComputer>(graph);
    }
    Sight direct(const Pt &a, const Pt &b) const { return sight(s.w, bb, a, b); }
    Sight across(const Pt &a, Pt b) const {
        Pt c = b, d = b;
        c.x += PERIOD;
        d.x -= PERIOD;
        Sight p = sight(per, pbb, a, c), q = sight(per, pbb, a, d);
        if (p == CLEAR || q == CLEAR) return CLEAR;
        return p == BLOCKED && q == BLOCKED ? BLOCKED : UNCLEAR;
    }
    // 1 well inside an obstacle (straight and geodesic edges), -1 well outside or an obstacle vertex, 0 not judged
    int land(const Pt &p) const {
        if (std::find(vs.begin(), vs.end(), p) != vs.end()) return -1;
        if (dist_to_world(s.w, p) <= 10) return 0;
        S2Point x = S(p);
        if (sph.boundary_distance(x) <= 10 * MICRO) return 0;
        bool a = inside_world(s.w, p) >= 0, b = sph.contains(x);
        return a && b ? 1 : !a && !b ? -1 : 0;
    }
    bool is_vertex(const Pt &p) const { return std::find(vs.begin(), vs.end(), p) != vs.end(); }
};
inline double planar(const Pt &a, const Pt &b) { return 1e-6 * (double)hypotl(a.x - b.x, a.y - b.y); }
inline double wrapped(const Pt &a, Pt b) { // shortest over the other side
    Pt c = b, d = b;
    c.x += PERIOD;
    d.x -= PERIOD;
    return std::min(planar(a, c), planar(a, d));
}
inline double nearest(const Pt &a, const Pt &b) { return std::min(planar(a, b), wrapped(a, b)); }

struct Bounds { double lo, hi; };
// length of the leg a-b: direct if unobstructed, otherwise over the antimeridian
inline Bounds leg(const Pt &a, const Pt &b, Sight d, Sight x) {
    double p = planar(a, b), w = wrapped(a, b);
    Bounds r{INFINITY, INFINITY};
    if (d == CLEAR) return {p, p};
    if (d == BLOCKED) {
        if (x == CLEAR) return {w, w};
        if (x == UNCLEAR) return {w, INFINITY};
        return r;
    }
    // direct not judged
    r.lo = x == BLOCKED ? p : std::min(p, w);
    if (x == CLEAR) r.hi = std::max(p, w);
    return r;
}

// Dijkstra over s(0), d(1), vertices(2..).  allowed(i, lower) tells whether node i may be used.
struct Router {
    const Place &pl;
    Pt s, d;
    size_t n;
    std::vector<std::vector<Bounds>> E;
    std::vector<Pt> pts;
    Router(const Place &p, const Pt &s_, const Pt &d_) : pl(p), s(s_), d(d_) {
        pts = {s, d};
        pts.insert(pts.end(), p.vs.begin(), p.vs.end());
        n = pts.size();
        E.assign(n, std::vector<Bounds>(n, Bounds{INFINITY, INFINITY}));
        auto set = [&](size_t i, size_t j, Sight a, Sight b) { E[i][j] = E[j][i] = leg(pts[i], pts[j], a, b); };
        size_t m = p.vs.size();
        for (size_t i = 0; i < m; ++i)
            for (size_t j = i + 1; j < m; ++j) set(i + 2, j + 2, p.D[i][j], p.X[i][j]);
        for (size_t e = 0; e < 2; ++e) {
            size_t at = m;
            for (size_t i = 0; i < m; ++i) if (p.vs[i] == pts[e]) at = i;
            for (size_t i = 0; i < m; ++i) {
                if (i == at) { E[e][i + 2] = E[i + 2][e] = {0, 0}; continue; }
                if (at < m) set(e, i + 2, p.D[at][i], p.X[at][i]);
                else set(e, i + 2, p.direct(pts[e], p.vs[i]), p.across(pts[e], p.vs[i]));
            }
        }
        // no leg s-d here: it is available through an obstacle vertex or as the direct leg only
    }
    Bounds best(double limit = INFINITY) const {
        return {dijkstra(true, limit), dijkstra(false, limit)};
    }
    double dijkstra(bool lower, double limit) const {
        std::vector<double> dist(n, INFINITY);
        std::vector<char> done(n, 0);
        dist[0] = 0;
        for (;;) {
            size_t u = n;
            for (size_t i = 0; i < n; ++i)
                if (!done[i] && dist[i] < INFINITY && (u == n || dist[i] < dist[u])) u = i;
            if (u == n || u == 1) break;
            done[u] = 1;
            for (size_t v = 0; v < n; ++v) {
                double c = lower ? E[u][v].lo : E[u][v].hi;
                if (c == INFINITY || dist[u] + c >= dist[v]) continue;
                // a point exactly at the limit, by whole degrees along a parallel or meridian, is within it
                bool at_it = (s.x == pts[v].x || s.y == pts[v].y) && 2 * limit == std::floor(2 * limit) &&
                             (double)(std::abs(s.x - pts[v].x) + std::abs(s.y - pts[v].y)) == 1e6 * limit;
                if (!at_it && nearest(s, pts[v]) > limit + (lower ? 1 : -1) * 1e-10 * (1 + limit)) continue;
                dist[v] = dist[u] + c;
            }
        }
        return dist[1];
    }
};
struct Answer {
    bool raised = false;
    std::string error;
    std::vector<Pt> path;
    bool operator==(const Answer &o) const { return raised == o.raised && error == o.error && path == o.path; }
    std::string text() const {
        if (raised) return "raised " + error;
        return "path " + show(path);
    }
};
inline Answer ask(const ShortestPathComputer &c, const Pt &s, const Pt &d, double limit = INFINITY, bool correct = false, double greed = 1) {
    Answer a;
    try {
        for (auto &p : c.shortest_path(C(s), C(d), limit, correct, greed)) a.path.push_back(P(p));
    } catch (const std::exception &e) {
        a.raised = true;
        a.error = e.what();
    }
    return a;
}
inline Answer from_batch(const BatchInterpolateResult &b, bool &malformed) {
    Answer a;
    malformed = b.path.has_value() == b.error_msg.has_value();
    if (b.path)
        for (auto &p : *b.path) a.path.push_back(P(p));
    else a.raised = true;
    if (b.error_msg) a.error = *b.error_msg;
    return a;
}
inline Pt interior_point(Rng &r, const World &w) { // of some obstacle, by rejection
    for (int t = 0; t < 200; ++t) {
        auto &p = w[r.next() % w.size()];
        BB b = bbox(p);
        Pt q{r.range(b.x0, b.x1), r.range(b.y0, b.y1)};
        if (locate(p, q) > 0) return q;
    }
    return w[0][0];
}
// A query point of one of several kinds
inline Pt query_point(Rng &r, const Place &pl, double on_land, double at_vertex) {
    const Scene &s = pl.s;
    if (r.chance(on_land)) return interior_point(r, s.w);
    if (r.chance(at_vertex)) return pl.vs[r.next() % pl.vs.size()];
    if (r.chance(.03)) { // whose hash is a corner's
        Pt v = pl.vs[r.next() % pl.vs.size()], q = alike(r, v, std::max<i64>(3, std::min<i64>(1000000, (s.x1 - s.x0) / 100)));
        if (q != v) return q;
    }
    if (r.chance(.3)) { // near an obstacle, often in a bay
        Pt v = pl.vs[r.next() % pl.vs.size()];
        i64 d = std::max<i64>(s.gap, 30) * r.range(1, 6);
        Pt q{v.x + r.range(-d, d), v.y + r.range(-d, d)};
        q.y = std::max(-LAT, std::min(LAT, q.y));
        q = wrap(q);
        return q;
    }
    return random_point(r, s);
}
} // namespace h
