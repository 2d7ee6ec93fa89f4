// Brute-force spherical geometry over all obstacle edges, from S2's exact predicates (not from the library's index).
#pragma once
#include "h.hpp"
#include <s2/s2edge_crossings.h>
#include <s2/s2edge_distances.h>
#include <s2/s2latlng.h>
#include <s2/s2loop.h>
#include <s2/s2point.h>
#include <memory>

namespace h {
constexpr double MICRO = 1e-6 * M_PI / 180; // a microdegree in radians
inline S2Point S(const Pt &p) { return S2LatLng::FromDegrees(1e-6 * p.y, 1e-6 * p.x).ToPoint(); }
inline double sdist(const Pt &a, const Pt &b) { return S(a).Angle(S(b)); }

struct Sphere {
    struct Edge { S2Point a, b; Pt pa, pb; size_t poly; };
    std::vector<Edge> edges;
    std::vector<std::unique_ptr<S2Loop>> loops;
    bool valid = true; // geodesic versions of the obstacles are simple, disjoint and smaller than a hemisphere
    double bulge = 0;  // greatest distance between a straight edge in longitude/latitude and the geodesic, radians
    double straight_bulge = 0; // the same in microdegrees of longitude/latitude

    explicit Sphere(const World &w, bool validate = true) {
        for (size_t k = 0; k < w.size(); ++k) {
            std::vector<S2Point> v;
            for (auto &p : w[k]) v.push_back(S(p));
            for (size_t i = 0; i < v.size(); ++i) {
                edges.push_back({v[i], v[(i + 1) % v.size()], w[k][i], w[k][(i + 1) % v.size()], k});
                if (v[i] == v[(i + 1) % v.size()] || v[i].Angle(v[(i + 1) % v.size()]) > 2.6) valid = false;
            }
            loops.push_back(std::make_unique<S2Loop>());
            loops.back()->set_s2debug_override(S2Debug::DISABLE);
            loops.back()->Init(v);
        }
        if (!validate) return;
        for (size_t i = 0; i < edges.size() && valid; ++i)
            for (size_t j = i + 1; j < edges.size() && valid; ++j)
                if (S2::CrossingSign(edges[i].a, edges[i].b, edges[j].a, edges[j].b) > 0) valid = false;
        for (size_t i = 0; i < loops.size() && valid; ++i) {
            if (!loops[i]->IsNormalized()) valid = false;
            for (size_t j = 0; j < loops.size() && valid; ++j)
                if (i != j && loops[i]->Contains(loops[j]->vertex(0))) valid = false;
        }
        for (auto &e : edges)
            for (int t = 1; t < 8; ++t) {
                double lat = 1e-6 * (e.pa.y + (e.pb.y - e.pa.y) * t / 8.0), lon = 1e-6 * (e.pa.x + (e.pb.x - e.pa.x) * t / 8.0);
                bulge = std::max(bulge, S2::GetDistance(S2LatLng::FromDegrees(lat, lon).ToPoint(), e.a, e.b).radians());
                S2LatLng g(S2::Interpolate(e.a, e.b, t / 8.0));
                ld x = 1e6L * g.lng().degrees(), y = 1e6L * g.lat().degrees(), dx = e.pb.x - e.pa.x, dy = e.pb.y - e.pa.y;
                x += 360e6L * roundl((1e6L * lon - x) / 360e6L);
                straight_bulge = std::max(straight_bulge, (double)(fabsl(dx * (y - e.pa.y) - dy * (x - e.pa.x)) / hypotl(dx, dy)));
            }
    }
    double boundary_distance(const S2Point &x) const {
        double d = 10;
        for (auto &e : edges) d = std::min(d, S2::GetDistance(x, e.a, e.b).radians());
        return d;
    }
    bool contains(const S2Point &x) const {
        for (auto &l : loops)
            if (l->Contains(x)) return true;
        return false;
    }
    // deepest point (radians) of the geodesic a-b inside an obstacle
    double penetration(const S2Point &a, const S2Point &b) const {
        std::vector<std::pair<double, S2Point>> cuts{{0, a}, {a.Angle(b), b}};
        for (auto &e : edges)
            if (S2::CrossingSign(a, b, e.a, e.b) > 0) {
                S2Point x = S2::GetIntersection(a, b, e.a, e.b);
                cuts.push_back({a.Angle(x), x});
            } else {
                for (const S2Point *v : {&e.a, &e.b})
                    if (S2::GetDistance(*v, a, b).radians() < 20 * MICRO) cuts.push_back({a.Angle(*v), S2::Project(*v, a, b)});
            }
        std::sort(cuts.begin(), cuts.end(), [](const auto &x, const auto &y) { return x.first < y.first; });
        double deepest = 0;
        for (size_t i = 0; i + 1 < cuts.size(); ++i) {
            if (cuts[i + 1].first - cuts[i].first < 6 * MICRO) continue;
            for (double f : {0.5, 0.2, 0.8}) {
                S2Point m = S2::Interpolate(f, cuts[i].second, cuts[i + 1].second);
                if (contains(m)) deepest = std::max(deepest, boundary_distance(m));
            }
        }
        return deepest;
    }
    Sight sight(const S2Point &a, const S2Point &b, double tol = 8 * MICRO) const {
        if (a.Angle(b) > 3.1) return UNCLEAR;
        if (penetration(a, b) > tol) return BLOCKED;
        if (contains(a) || contains(b)) return UNCLEAR;
        for (auto &e : edges) {
            if (S2::CrossingSign(a, b, e.a, e.b) >= 0) return UNCLEAR;
            double d = std::min(std::min(S2::GetDistance(a, e.a, e.b).radians(), S2::GetDistance(b, e.a, e.b).radians()),
                                std::min(S2::GetDistance(e.a, a, b).radians(), S2::GetDistance(e.b, a, b).radians()));
            if (d <= tol) return UNCLEAR;
        }
        return CLEAR;
    }
};
} // namespace h
