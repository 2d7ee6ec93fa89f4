// C17: the spatial index against exhaustive search.
#include "router.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
using namespace h;

typedef std::pair<std::pair<i64, i64>, std::pair<i64, i64>> Key;
static Key key(Pt a, Pt b) {
    std::pair<i64, i64> x{a.x, a.y}, y{b.x, b.y};
    return x < y ? Key{x, y} : Key{y, x};
}
static Key key(const LineSegment &s) { return key(P(s.get_endpoint_1()), P(s.get_endpoint_2())); }

static void one(long, Rng &r) {
    bool many = r.chance(.02);
    Scene sc = many ? scene_of_many(r, (int)r.range(600, 3000)) : make_scene(r, r.chance(.2) ? pick_rare(r) : pick_family(r));
    if (many) tally("scenes_of_many_corners");
    if (r.chance(.02)) sc.w.clear();
    for (auto &p : sc.w)
        for (auto &v : p)
            if (std::abs(v.y) >= LAT) { tally("scenes_at_a_pole"); return; }
    if (!sc.w.empty() && r.chance(.25)) { // obstacles over one another, some sharing corners or edges
        for (int t = 0, n = (int)r.range(1, 3); t < n; ++t) {
            Poly p = sc.w[r.next() % sc.w.size()];
            i64 dx = r.range(-sc.gap, sc.gap) * 20, dy = r.range(-sc.gap, sc.gap) * 20;
            if (r.chance(.3)) { Pt a = p[r.next() % p.size()], b = p[r.next() % p.size()]; dx = b.x - a.x; dy = b.y - a.y; }
            for (auto &v : p) { v.x += dx; v.y += dy; }
            BB b = bbox(p);
            if (b.x0 < -LON || b.x1 > LON || b.y0 <= -LAT || b.y1 >= LAT) continue;
            bool again = false; // an edge that is there already would be listed twice
            for (auto &q : sc.w)
                for (size_t i = 0; i < q.size(); ++i)
                    for (size_t j = 0; j < p.size(); ++j) again = again || key(q[i], q[(i + 1) % q.size()]) == key(p[j], p[(j + 1) % p.size()]);
            if (again) continue;
            sc.w.push_back(p);
            tally("overlaid_obstacles");
        }
    }
    Sphere sph(sc.w, false);
    bool valid = true;
    for (auto &p : sc.w) valid = valid && Sphere(World{p}).valid;
    if (!valid) { tally("scenes_not_valid_on_the_sphere"); return; }
    World shuffled_world = sc.w;
    r.shuffle(shuffled_world);
    SpatialSegmentIndex index(to_polygons(shuffled_world));
    std::map<Key, size_t> known;
    for (size_t i = 0; i < sph.edges.size(); ++i) known[key(sph.edges[i].pa, sph.edges[i].pb)] = i;
    std::vector<Pt> cs = corners(sc.w);
    auto point = [&] {
        Pt p = !cs.empty() && r.chance(.25) ? interior_point(r, sc.w) : random_point(r, sc);
        if (!cs.empty() && r.chance(.1)) p = cs[r.next() % cs.size()];
        if (!cs.empty() && r.chance(.1)) { p = cs[r.next() % cs.size()]; p.x += r.range(-20, 20); p.y += r.range(-20, 20); p = wrap(p); p.y = std::max(-LAT, std::min(LAT, p.y)); }
        if (r.chance(.05)) p = {r.range(-LON, LON), r.range(-LAT, LAT)};
        return p;
    };
    for (int q = 0; q < 40; ++q) {
        Pt p = point();
        S2Point sp = S(p);
        std::string at = show(p) + " in " + show(sc.w);
        std::vector<double> dist;
        double nearest = 10;
        for (auto &e : sph.edges) {
            dist.push_back(S2::GetDistance(sp, e.a, e.b).radians());
            nearest = std::min(nearest, dist.back());
        }
        // distances as the index keeps them (squared chord length), and what they are good for
        auto tol = [](double d) { return 1e-13 + 1e-9 * d + (d > 1.5 ? 2e-7 * (d > 3.0 ? 10 : 1) : 0); };
        tally("evaluations");
        // containment
        bool inside = false, unclear = false;
        for (size_t k = 0; k < sc.w.size(); ++k) {
            if (std::find(sc.w[k].begin(), sc.w[k].end(), p) != sc.w[k].end()) continue; // corners do not count as contained
            double near_ = 10;
            for (size_t i = 0; i < sph.edges.size(); ++i)
                if (sph.edges[i].poly == k) near_ = std::min(near_, dist[i]);
            if (near_ <= 1 * MICRO) unclear = true;
            else if (sph.loops[k]->Contains(sp)) inside = true;
        }
        if (inside || !unclear) {
            tally(inside ? "points_inside" : "points_outside");
            if (index.is_point_contained(C(p)) != inside) violate(inside ? "contained point denied" : "point outside said to be contained", at);
        }
        // closest edge
        if (sph.edges.empty()) {
            bool raised = false;
            try { index.closest_segment_to_point(C(p)); } catch (const std::exception &) { raised = true; }
            if (!raised) violate("closest edge of nothing", at);
            if (!index.segments_within_distance_of_point(C(p), 4).empty()) violate("edges of nothing", at);
            tally("empty_indexes");
        } else {
            auto s = index.closest_segment_to_point(C(p));
            auto it = known.find(key(s));
            tally("closest_edges");
            if (it == known.end()) violate("closest edge is not an obstacle edge", at);
            else if (dist[it->second] > nearest + tol(nearest)) violate("closest edge is not the closest", at + fmts(" at %.17g, nearest at %.17g", dist[it->second], nearest));
        }
        // edges within a distance
        for (int k = 0; k < 3; ++k) {
            double rad = dist.empty() || r.chance(.2) ? r.unit() * 3.2 : dist[r.next() % dist.size()] * (r.chance(.3) ? 1 + 1e-6 : r.chance(.5) ? 1 - 1e-6 : 2 * r.unit());
            if (r.chance(.05)) rad = 0;
            std::set<Key> got;
            for (auto &s : index.segments_within_distance_of_point(C(p), rad)) {
                if (!got.insert(key(s)).second) violate("edge listed twice within a distance", at);
                if (!known.count(key(s))) violate("listed edge is not an obstacle edge", at);
            }
            for (auto &e : known) {
                double d = dist[e.second];
                if (std::abs(d - rad) <= tol(d)) continue;
                tally(d < rad ? "edges_within" : "edges_beyond");
                if ((d < rad) != (got.count(e.first) > 0)) {
                    violate(d < rad ? "edge within the distance left out" : "edge beyond the distance listed", at + fmts(" radius %.17g distance %.17g", rad, d));
                    break;
                }
            }
        }
        // edges met by a geodesic
        for (int k = 0; k < 3; ++k) {
            Pt t = point();
            if (!cs.empty() && r.chance(.2)) { // through or along something
                const auto &e = sph.edges[r.next() % sph.edges.size()];
                if (r.chance(.5)) t = e.pa;
                else { t = {2 * e.pa.x - p.x, 2 * e.pa.y - p.y}; t.y = std::max(-LAT, std::min(LAT, t.y)); t = wrap(t); }
            }
            S2Point st = S(t);
            if (sp == st || sp.Angle(st) > 3.1) continue;
            std::set<Key> want;
            for (auto &e : sph.edges)
                if (S2::CrossingSign(sp, st, e.a, e.b) >= 0) want.insert(key(e.pa, e.pb));
            auto got = index.intersect_with_segments(LineSegment(C(p), C(t)));
            std::string leg = show(p) + "-" + show(t) + " in " + show(sc.w);
            std::set<Key> gs;
            double last = 0;
            for (auto &s : got) {
                gs.insert(key(s));
                auto it = known.find(key(s));
                if (it == known.end()) { violate("met edge is not an obstacle edge", leg); break; }
                if (dist[it->second] < last - tol(last)) violate("met edges not sorted by distance from the start", leg);
                last = dist[it->second];
            }
            tally("geodesics");
            tally("edges_met", want.size());
            if (want.size() > 1) tally("edges_sorted", want.size());
            if (got.size() != gs.size()) violate("met edge listed twice", leg);
            for (auto &e : want)
                if (!gs.count(e)) { violate("met edge left out", leg); break; }
            for (auto &e : gs)
                if (!want.count(e)) { violate("edge listed that is not met", leg); break; }
            if (index.does_segment_intersect_with_segments(LineSegment(C(p), C(t))) != !want.empty()) violate("whether a geodesic meets an edge", leg);
            if (!want.empty()) nontrivial(leg);
        }
    }
    sample(show(sc.w));
}

int main(int argc, char **argv) {
    ctx().count_cases = false;
    return run(argc, argv, one);
}
