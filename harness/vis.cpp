// C01 / C02: generated graphs and vistrees against the reference line-of-sight oracle.
#include "h.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"
using namespace h;

struct Geo { // a world together with its periodic copies
    World w, per;
    std::vector<BB> bb, pbb;
    explicit Geo(const World &x) : w(x), per(periodic(x)), bb(bboxes(x)), pbb(bboxes(per)) {}
    Sight direct(const Pt &a, const Pt &b) const { return sight(w, bb, a, b); }
    // within +-180 degrees no copy can be in the way of a direct sightline, but it can of one across
    Sight across(const Pt &a, Pt b) const {
        Pt c = b, d = b;
        c.x += PERIOD;
        d.x -= PERIOD;
        Sight s = sight(per, pbb, a, c), t = sight(per, pbb, a, d);
        if (s == CLEAR || t == CLEAR) return CLEAR;
        return s == BLOCKED && t == BLOCKED ? BLOCKED : UNCLEAR;
    }
};

static bool want_blocked() { return ctx().prop == "C01"; }

static void check_graph(const Scene &s, Rng &r) {
    threads((int)r.range(1, 4), r.next(), 1);
    std::shared_ptr<Graph> g = VisgraphGenerator::generate(to_polygons(s.w));
    Geo geo(s.w);
    auto vs = corners(s.w);
    long blocked = 0, clear = 0, unclear = 0, xs = 0;
    for (size_t i = 0; i < vs.size(); ++i)
        for (size_t j = i + 1; j < vs.size(); ++j) {
            Coordinate a = C(vs[i]), b = C(vs[j]);
            bool e = g->has_edge(a, b), x = g->is_edge_meridian_crossing(a, b);
            if (e != g->has_edge(b, a) || x != g->is_edge_meridian_crossing(b, a))
                violate("asymmetric", "edge or flag differs by direction: " + show(vs[i]) + " " + show(vs[j]) + " in " + show(s.w));
            if (x && !e) violate("flag-without-edge", show(vs[i]) + " " + show(vs[j]) + " in " + show(s.w));
            Sight d = geo.direct(vs[i], vs[j]);
            Sight o = geo.across(vs[i], vs[j]);
            (d == BLOCKED ? blocked : d == CLEAR ? clear : unclear)++;
            if (x) xs++;
            auto at = [&] { return show(vs[i]) + " " + show(vs[j]) + fmts(" (direct %s, across %s, edge %d, crossing %d) in ", name(d), name(o), e, x) + show(s.w); };
            if (want_blocked()) {
                if (e && !x && d == BLOCKED) violate("edge-through-obstacle", at());
                if (x && o == BLOCKED) violate("crossing-edge-through-obstacle", at());
            } else {
                if (d == CLEAR && !e) violate("clear-pair-not-connected", at());
                if (d == CLEAR && e && x) violate("clear-pair-flagged-crossing", at());
                if (o == CLEAR && !e) violate("pair-clear-across-not-connected", at());
                if (o == CLEAR && d == BLOCKED && e && !x) violate("crossing-flag-missing", at());
            }
        }
    // consecutive corners of an obstacle
    if (!want_blocked())
        for (auto &p : s.w)
            for (size_t i = 0; i < p.size(); ++i)
                if (!g->has_edge(C(p[i]), C(p[(i + 1) % p.size()])))
                    violate("consecutive-not-connected", show(p[i]) + " " + show(p[(i + 1) % p.size()]) + " in " + show(s.w));
    tally("pairs_blocked", blocked);
    tally("pairs_clear", clear);
    tally("pairs_unclear", unclear);
    tally("crossing_edges", xs);
    tally("graphs");
    if (blocked > 0 && clear > 0) nontrivial(show(s.w));
    sample(s.family + " graph of " + show(s.w) + fmts(": %ld pairs blocked, %ld clear, %ld unclear, %ld crossing edges", blocked, clear, unclear, xs));
}

static void check_observers(const Scene &s, Rng &r) {
    auto polys = to_polygons(s.w);
    VistreeGenerator tree(make_polygons_periodic(polys));
    VistreeGenerator raw(polys);
    Geo geo(s.w);
    auto vs = corners(s.w);
    int n = ctx().thorough ? 24 : 8;
    std::vector<std::pair<size_t, size_t>> aligned; // edges in line with a corner elsewhere
    for (size_t q = 0; q < s.w.size() && vs.size() < 80; ++q)
        for (size_t i = 0; i < s.w[q].size(); ++i) {
            const Pt &a = s.w[q][i], &b = s.w[q][(i + 1) % s.w[q].size()];
            for (auto &v : vs)
                if (!(v == a) && !(v == b) && orient(a, b, v) == 0) { aligned.push_back({q, i}); break; }
        }
    for (int k = 0; k < n; ++k) {
        Pt o;
        const char *kind;
        Geo local = geo;
        int what = (int)r.range(0, 7);
        bool on_edge = false;
        if (what == 0) { // a vertex of an obstacle
            o = vs[r.next() % vs.size()];
            kind = "vertex";
        } else if (what == 1) { // exactly on an edge
            size_t p_i = r.next() % s.w.size(), i = r.next() % s.w[p_i].size();
            if (!aligned.empty() && r.chance(.7)) {
                auto e = aligned[r.next() % aligned.size()];
                p_i = e.first;
                i = e.second;
                tally("observers on or along aligned edges");
            }
            auto &p = s.w[p_i];
            Pt a = p[i], b = p[(i + 1) % p.size()];
            i64 g = std::__gcd(std::llabs(b.x - a.x), std::llabs(b.y - a.y));
            if (g < 2) continue;
            i64 t = r.range(1, g - 1);
            o = Pt{a.x + (b.x - a.x) / g * t, a.y + (b.y - a.y) / g * t};
            if (hypotl(o.x - a.x, o.y - a.y) < 20 || hypotl(o.x - b.x, o.y - b.y) < 20) continue;
            World w = s.w;
            for (auto &q : w)
                if (q == p) { q.insert(q.begin() + i + 1, o); break; }
            local = Geo(w);
            kind = "on edge";
            on_edge = true;
        } else if (what == 2) { // same latitude or longitude as a vertex
            Pt v = vs[r.next() % vs.size()];
            o = random_point(r, s);
            if (r.chance(.5)) o.x = v.x; else o.y = v.y;
            kind = "aligned with a vertex";
        } else if (what == 3) { // on the extension of an edge
            size_t p_i = r.next() % s.w.size(), i = r.next() % s.w[p_i].size();
            if (!aligned.empty() && r.chance(.7)) {
                auto e = aligned[r.next() % aligned.size()];
                p_i = e.first;
                i = e.second;
                tally("observers on or along aligned edges");
            }
            auto &p = s.w[p_i];
            Pt a = p[i], b = p[(i + 1) % p.size()];
            i64 g = std::__gcd(std::llabs(b.x - a.x), std::llabs(b.y - a.y));
            i64 f = r.range(1, 4 * g);
            o = Pt{b.x + (b.x - a.x) / g * f, b.y + (b.y - a.y) / g * f};
            kind = "in line with an edge";
        } else if (what == 7) { // next to the line of an edge, seeing along it at the smallest of angles
            auto &p = s.w[r.next() % s.w.size()];
            size_t i = r.next() % p.size();
            Pt a = p[i], b = p[(i + 1) % p.size()];
            ld len = hypotl(b.x - a.x, b.y - a.y), t = r.unit() * 2 - .5L, off = (r.chance(.5) ? 1 : -1) * (7 + 300 * r.unit() * r.unit());
            o = Pt{llroundl(a.x + (b.x - a.x) * t - (b.y - a.y) / len * off), llroundl(a.y + (b.y - a.y) * t + (b.x - a.x) / len * off)};
            kind = "next to the line of an edge";
        } else if (what == 4) { // close to an obstacle
            Pt v = vs[r.next() % vs.size()];
            i64 d = std::max<i64>(s.gap / 3, 9);
            o = Pt{v.x + r.range(-3 * d, 3 * d), v.y + r.range(-3 * d, 3 * d)};
            kind = "close";
        } else {
            o = random_point(r, s);
            kind = "anywhere";
        }
        if (o.y > LAT || o.y < -LAT || o.x < -LON || o.x > LON) continue;
        bool is_vertex = std::find(vs.begin(), vs.end(), o) != vs.end();
        if (!is_vertex && !on_edge && (inside_world(s.w, o) >= 0 || dist_to_world(s.w, o) <= 6)) continue;
        long blocked = 0, clear = 0;
        for (int mode = 0; mode < 3; ++mode) {
            // 0 periodic, 1 in-range obstacles only, 2 candidate segments (all of the obstacles)
            std::vector<VisibleVertex> seen;
            if (mode == 0) seen = tree.get_visible_vertices(C(o));
            else if (mode == 1) seen = raw.get_visible_vertices(C(o));
            else {
                if (!r.chance(.3)) continue;
                std::vector<LineSegment> flat;
                for (auto &p : polys)
                    for (auto &e : p.get_line_segments()) flat.push_back(e);
                seen = tree.get_visible_vertices_from_candidate_segments(C(o), make_segments_periodic(flat));
            }
            std::set<std::pair<std::pair<i64, i64>, bool>> got;
            for (auto &v : seen) got.insert({{v.coord.get_longitude_microdegrees(), v.coord.get_latitude_microdegrees()}, v.is_visible_across_meridian});
            for (auto &v : seen)
                if (std::find(vs.begin(), vs.end(), P(v.coord)) == vs.end())
                    violate("unknown-vertex-seen", show(P(v.coord)) + " from " + show(o) + " in " + show(s.w));
            for (auto &v : vs) {
                if (v == o) continue;
                Sight d = local.direct(o, v);
                bool sd = got.count({{v.x, v.y}, false}), sx = got.count({{v.x, v.y}, true});
                (d == BLOCKED ? blocked : clear) += d != UNCLEAR;
                auto at = [&] { return show(o) + " (" + kind + fmts(", mode %d) looking at ", mode) + show(v) + fmts(": oracle %s, reported direct %d across %d, in ", name(d), sd, sx) + show(s.w); };
                if (want_blocked() && d == BLOCKED && sd) violate("sees-through-obstacle", at());
                if (!want_blocked() && d == CLEAR && !sd) violate("clear-vertex-not-seen", at());
                if (mode == 1) {
                    if (sx) violate("across-without-copies", at());
                    continue;
                }
                Sight x = local.across(o, v);
                if (want_blocked() && x == BLOCKED && sx) violate("sees-through-obstacle-across", at());
                if (!want_blocked() && x == CLEAR && !sx) violate("vertex-clear-across-not-seen", at() + fmts(" across %s", name(x)));
            }
        }
        // half scan: nothing that the full scan does not report, and everything at or above the observer's latitude
        {
            auto full = tree.get_visible_vertices(C(o)), half = tree.get_visible_vertices(C(o), true);
            std::set<std::pair<std::pair<i64, i64>, bool>> f, hs;
            for (auto &v : full) f.insert({{v.coord.get_longitude_microdegrees(), v.coord.get_latitude_microdegrees()}, v.is_visible_across_meridian});
            for (auto &v : half) hs.insert({{v.coord.get_longitude_microdegrees(), v.coord.get_latitude_microdegrees()}, v.is_visible_across_meridian});
            for (auto &v : hs)
                if (want_blocked() && !f.count(v)) violate("half-scan-sees-more", show(Pt{v.first.first, v.first.second}) + " from " + show(o) + " in " + show(s.w));
            for (auto &v : f)
                if (!want_blocked() && v.first.second > o.y && !hs.count(v))
                    violate("half-scan-misses", show(Pt{v.first.first, v.first.second}) + " from " + show(o) + " in " + show(s.w));
        }
        tally("evaluations");
        tally("observers");
        tally(std::string("observers ") + kind);
        tally("sightlines_blocked", blocked);
        tally("sightlines_clear", clear);
        if (blocked && clear) nontrivial(show(o) + show(s.w));
    }
    sample(s.family + " observers in " + show(s.w));
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long c, Rng &r) {
        int f = c < 2 * FAMILIES ? (int)(c % FAMILIES) : r.chance(.25) ? pick_rare(r) : pick_family(r);
        bool many = c >= 2 * FAMILIES && r.chance(.004);
        Scene s = many ? scene_of_many(r, (int)r.range(130, ctx().mode == "obs" ? 700 : 450)) : make_scene(r, f, 60);
        if (many) tally("scenes_of_many_corners");
        if (s.w.empty()) { tally("empty_scenes"); return; }
        if (ctx().mode == "obs") ctx().count_cases = false;
        if (ctx().mode == "obs") check_observers(s, r);
        else check_graph(s, r);
    });
}
