// C04-C07: single path queries against the reference router.
#include "router.hpp"
using namespace h;

static void viol(const char *prop, const char *key, const std::string &detail) {
    if (ctx().prop == prop) violate(key, detail);
}

// penetration of the leg (direct and across) into obstacles, planar; smallest over the two ways
static ld leg_depth(const Place &pl, const Pt &a, const Pt &b) {
    ld best = INFINITY;
    for (i64 dx : {(i64)0, PERIOD, -PERIOD}) {
        Pt c = b;
        c.x += dx;
        ld deep = 0;
        for (size_t k = 0; k < pl.per.size(); ++k)
            if (bb_meets(pl.pbb[k], a, c, 2)) deep = std::max(deep, penetration(pl.per[k], a, c));
        best = std::min(best, deep);
    }
    return best;
}

static void check_query(const Place &pl, const Pt &s, const Pt &d, double limit, bool correct, double greed) {
    int ls = pl.land(s), ld_ = pl.land(d);
    if (ls == 0 || ld_ == 0) { tally("not_judged_endpoints"); return; }
    Answer a = ask(*pl.computer, s, d, limit, correct, greed);
    std::string at = "from " + show(s) + " to " + show(d) + fmts(" limit %.17g correct %d greed %g: ", limit, correct, greed) + a.text() + " in " + show(pl.s.w);
    tally("evaluations");
    bool on_land = ls > 0 || ld_ > 0;
    S2Point ps = S(s), pd = S(d);

    if (on_land && !correct) {
        tally("on_land_refused");
        if (!a.raised) viol("C06", "on-land-answered", at);
        if (ctx().prop == "C06") nontrivial(at);
        return;
    }
    if (a.raised) {
        tally("raised");
        tally(limit < INFINITY ? "raised_under_limit" : "raised_without_limit");
        if (s == d && ls > 0) viol("C07", "no-shore-found", at); // from a shore to itself no obstacle is in the way
    }
    const double micro_tol = 6;
    double tol = 6, straight_tol = 6; // microdegrees, for legs at moved endpoints
    if (on_land) tol += 2 * pl.sph.bulge / MICRO + 4, straight_tol += 2 * std::max(pl.sph.bulge / MICRO, pl.sph.straight_bulge) + 4;

    if (!a.raised) {
        if (a.path.empty() || (a.path.size() < 2 && s != d && !on_land)) { viol("C04", "too-few-points", at); viol("C05", "too-few-points", at); return; }
        // where it starts and ends
        struct End { const Pt &asked, &got; int land; const S2Point &x; } ends[2] = {{s, a.path.front(), ls, ps}, {d, a.path.back(), ld_, pd}};
        for (auto &e : ends) {
            if (e.land < 0) {
                if (e.got != e.asked) { viol("C04", "endpoint-moved", at); viol("C07", "endpoint-moved", at); }
                if (correct) tally("kept_ends");
            } else {
                // nearest shore of the obstacles on the sphere
                double nearest_shore = pl.sph.boundary_distance(e.x), moved = e.x.Angle(S(e.got)), off = pl.sph.boundary_distance(S(e.got));
                tally("moved_ends");
                if (off > 3 * MICRO) { viol("C07", "moved-off-shore", at + fmts(" (%.3g microdegrees off)", off / MICRO)); viol("C04", "endpoint-not-on-shore", at); }
                if (moved > nearest_shore + 3 * MICRO)
                    viol("C07", "not-the-nearest-shore", at + fmts(" (moved by %.9g, nearest shore at %.9g microdegrees)", moved / MICRO, nearest_shore / MICRO));
                if (ctx().prop == "C07") nontrivial(at);
            }
        }
        bool moved = on_land;
        Pt cs = a.path.front(), cd = a.path.back();
        for (size_t i = 1; i + 1 < a.path.size(); ++i)
            if (!pl.is_vertex(a.path[i])) viol("C04", "waypoint-not-a-vertex", at);
        if (a.path.size() == 2) {
            tally("direct_answers");
            double deep_geo = pl.sph.penetration(S(cs), S(cd)) / MICRO;
            if (deep_geo > (moved ? tol : micro_tol)) {
                ld deep = leg_depth(pl, cs, cd);
                if (deep > (moved ? straight_tol : micro_tol))
                    viol("C04", "direct-leg-through-obstacle", at + fmts(" (%.1f microdegrees deep as a geodesic, %.1Lf straight)", deep_geo, deep));
            }
        } else {
            tally("routed_answers");
            tally("waypoints", (long)a.path.size() - 2);
            for (size_t i = 0; i + 1 < a.path.size(); ++i) {
                ld deep = leg_depth(pl, a.path[i], a.path[i + 1]);
                bool end_leg = i == 0 || i + 2 == a.path.size();
                if (deep > (moved && end_leg ? straight_tol : micro_tol))
                    viol("C04", "leg-through-obstacle", at + fmts(" (leg %zu, %.1Lf microdegrees deep)", i, deep));
            }
            if (ctx().prop == "C04") nontrivial(at);
            // the limit
            if (limit < INFINITY)
                for (auto &p : a.path)
                    if (nearest(cs, p) > limit + 1e-10 * (1 + limit)) viol("C06", "point-beyond-limit", at);
        }
    }
    if (ctx().prop == "C07") return;
    if (on_land) { // optimality is claimed for moved ends that lie in the open, seen with straight edges
        if (s == d) return;
        if (limit < INFINITY) { // a limit that the unlimited route respects changes nothing
            Answer free = ask(*pl.computer, s, d, INFINITY, correct, greed);
            bool within = !free.raised;
            double len[2] = {0, 0};
            for (size_t i = 0; within && i < free.path.size(); ++i) {
                within = nearest(free.path.front(), free.path[i]) < limit - 1e-5;
                if (i) len[0] += nearest(free.path[i - 1], free.path[i]);
            }
            if (!within) return;
            tally("limits_respected_from_shores");
            for (size_t i = 0; i + 1 < a.path.size(); ++i) len[1] += nearest(a.path[i], a.path[i + 1]);
            if (a.raised || fabs(len[0] - len[1]) > (std::max(1.0, greed) - 1) * len[0] + 2e-5) viol("C06", "limit-changes-answer", at + " (without a limit: " + free.text() + ")");
            return;
        }
        Answer where[2] = {ask(*pl.computer, s, s, INFINITY, true), ask(*pl.computer, d, d, INFINITY, true)};
        Pt moved_to[2] = {s, d};
        Scene with = pl.s; // with ends that lie exactly on a side as corners of their obstacles
        bool on_side = false;
        for (int e = 0; e < 2; ++e) {
            if ((e ? ld_ : ls) < 0) continue;
            if (where[e].raised || where[e].path.empty()) return;
            Pt m = moved_to[e] = where[e].path.front();
            if (pl.is_vertex(m)) continue;
            bool open = inside_world(pl.s.w, m) < 0 && dist_to_world(pl.s.w, m) >= 8, put = false;
            for (auto &q : with.w)
                for (size_t i = 0; i < q.size() && !open && !put; ++i) {
                    const Pt &u = q[i], &v = q[(i + 1) % q.size()];
                    if (!on_seg(u, v, m) || hypotl(u.x - m.x, u.y - m.y) < 20 || hypotl(v.x - m.x, v.y - m.y) < 20) continue;
                    q.insert(q.begin() + i + 1, m);
                    put = on_side = true;
                }
            if (!open && !put) { tally("moved_ends_not_in_the_open"); return; }
        }
        tally("moved_ends_in_the_open");
        Bounds b;
        if (on_side) {
            Place place(with, true, false);
            Router ref(place, moved_to[0], moved_to[1]);
            for (size_t i = 0; i < ref.n; ++i) // no leg from end to end
                for (size_t j = 0; j < ref.n; ++j)
                    if ((ref.pts[i] == moved_to[0] && ref.pts[j] == moved_to[1]) || (ref.pts[i] == moved_to[1] && ref.pts[j] == moved_to[0])) ref.E[i][j] = {INFINITY, INFINITY};
            b = ref.best();
        } else b = Router(pl, moved_to[0], moved_to[1]).best();
        if (a.raised) {
            if (b.hi < INFINITY) viol("C05", "raised-though-routable", at + fmts(" (a route of length %.6f from the shore exists)", b.hi));
            return;
        }
        double len = 0;
        for (size_t i = 0; i + 1 < a.path.size(); ++i) len += nearest(a.path[i], a.path[i + 1]);
        if (b.hi < INFINITY) {
            tally("lengths_from_shores_compared");
            if (len > b.hi * std::max(1.0, greed) * (1 + 1e-9) + 2e-5)
                viol("C05", "longer-than-necessary", at + fmts(" (length %.9f, a route of %.9f from the shore exists)", len, b.hi));
        }
        return;
    }

    // against the reference router
    Sight geo = s == d ? CLEAR : pl.sph.sight(ps, pd);
    if (s == d) return;
    Router ref(pl, s, d);
    Bounds b = ref.best(limit);
    bool routable = b.hi < INFINITY;
    tally(routable ? "routable" : b.lo < INFINITY ? "routable_unclear" : "unroutable");
    if (geo == CLEAR) {
        tally("in_clear_sight");
        if (a.raised || a.path.size() != 2) viol("C05", "clear-sight-not-direct", at);
        if (a.raised) viol("C06", "raised-though-in-sight", at);
        return;
    }
    if (a.raised) {
        if (routable) {
            viol(limit < INFINITY ? "C06" : "C05", "raised-though-routable", at + fmts(" (a route of length %.6f exists)", b.hi));
            if (limit < INFINITY) viol("C05", "raised-though-routable-within-limit", at);
        }
        if (ctx().prop == "C06" && limit < INFINITY) nontrivial(at);
        return;
    }
    if (geo == BLOCKED && b.lo == INFINITY) {
        viol("C06", "answered-without-a-route", at);
        viol("C04", "answered-without-a-route", at);
    }
    if (a.path.size() > 2 || pl.is_vertex(s) || pl.is_vertex(d)) {
        // lengths of the answer's legs, in the most favourable reading
        double len = 0;
        for (size_t i = 0; i + 1 < a.path.size(); ++i) {
            const Pt &p = a.path[i], &q = a.path[i + 1];
            Bounds l = leg(p, q, pl.direct(p, q), pl.across(p, q));
            len += l.lo < INFINITY ? l.lo : nearest(p, q);
        }
        double allow = std::max(1.0, greed);
        if (a.path.size() > 2 && routable && len > b.hi * allow * (1 + 1e-9) + 2e-5) {
            viol("C05", "longer-than-necessary", at + fmts(" (length %.9f, a route of %.9f exists)", len, b.hi));
            if (limit < INFINITY) viol("C06", "limit-changes-length", at + fmts(" (length %.9f, a route of %.9f within the limit exists)", len, b.hi));
        }
        if (a.path.size() > 2 && len < b.lo * (1 - 1e-9) - 2e-5)
            viol("C04", "shorter-than-possible", at + fmts(" (length %.9f, no route shorter than %.9f)", len, b.lo));
        if (a.path.size() > 2) {
            tally("lengths_compared");
            if (b.hi - b.lo < 1e-5) tally("lengths_exact");
            if (ctx().prop == "C05") nontrivial(at);
            if (ctx().prop == "C06" && limit < INFINITY) nontrivial(at);
        }
    }
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long c, Rng &r) {
        ctx().count_cases = false;
        const std::string &prop = ctx().prop;
        bool land = prop == "C07" || r.chance(prop == "C04" ? .4 : .2);
        Scene sc;
        if (land) {
            // small enough for straight and geodesic edges to nearly coincide; C07 alone also at any scale
            if (prop == "C07" && r.chance(.12)) { // close to a pole
                i64 ox = r.range(-150, 150) * 1000000, w = r.range(1, 29) * 1000000, y1 = r.chance(.5) ? 89999000 : 89900000, y0 = y1 - r.range(1, 12) * 500000;
                sc.family = "polar";
                sc.w = gen_world(r, spec(ox - w, y0, ox + w, y1, (int)r.range(1, 4), 1000, 0, 30));
                if (r.chance(.5))
                    for (auto &p : sc.w) {
                        for (auto &v : p) v.y = -v.y;
                        make_ccw(p);
                    }
                bool south = !sc.w.empty() && sc.w[0][0].y < 0;
                sc.x0 = ox - w; sc.x1 = ox + w; sc.y0 = south ? -y1 : y0; sc.y1 = south ? -y0 : y1; sc.gap = 1000;
            } else if (prop == "C07" && r.chance(.3)) sc = make_scene(r, r.chance(.3) ? CONTINENTS : pick_family(r), 40);
            else {
                i64 h = r.range(1, 5) * 50000, ox = r.range(-179, 179) * 1000000, oy = r.range(-70, 70) * 1000000;
                sc.family = "land";
                bool blocks = r.chance(.3); // whose sides along meridians are straight and geodesic
                for (int t = 0; t < 20 && blocks && sc.w.empty(); ++t) sc.w = city(r, ox - h, oy - h, ox + h, oy + h);
                for (auto &p : sc.w) make_ccw(p);
                for (int t = 0; t < 20 && sc.w.empty(); ++t) sc.w = gen_world(r, spec(ox - h, oy - h, ox + h, oy + h, (int)r.range(1, 6), 1000, r.chance(.2) ? h / 8 : 0, 40));
                sc.x0 = ox - h; sc.x1 = ox + h; sc.y0 = oy - h; sc.y1 = oy + h; sc.gap = 1000;
                if (r.chance(.3)) { // astride the antimeridian
                    World k;
                    for (auto &p : sc.w) {
                        BB b = bbox(p);
                        if (b.x0 < ox && b.x1 >= ox) continue;
                        for (auto &v : p) v.x += (b.x0 >= ox ? -LON : LON) - ox;
                        k.push_back(p);
                    }
                    sc.w = k;
                    sc.x0 = LON - h; sc.x1 = LON + h; // to be wrapped
                    sc.family = "land astride the antimeridian";
                }
            }
        } else {
            int f = pick_family(r);
            if (r.chance(.1)) { sc.w = baffles(r, -r.range(120, 175) * 1000000, (int)r.range(4, 9), 2000000); sc.family = "baffles"; sc.x0 = -LON; sc.x1 = LON; sc.y0 = -70000000; sc.y1 = 70000000; sc.gap = 100000; bool in = true; for (auto &p : sc.w) for (auto &v : p) in = in && v.x > -LON && v.x < LON; if (!in) sc.w.clear(); }
            else if (r.chance(.004)) { sc = scene_of_many(r, (int)r.range(100, 330)); tally("scenes_of_many_corners"); }
            else sc = make_scene(r, r.chance(.2) ? pick_rare(r) : f, 40);
        }
        if (sc.w.empty()) { tally("empty_scenes"); return; }
        threads(1);
        Place pl(sc, prop != "C07");
        if (!pl.sph.valid) { tally("scenes_not_valid_on_the_sphere"); return; }
        tally("scenes");
        int q = ctx().thorough ? 60 : 24;
        for (int k = 0; k < q && ctx().violations < 12; ++k) {
            double pland = land ? .45 : prop == "C06" ? .08 : .02;
            Pt s = query_point(r, pl, pland, .08), d = query_point(r, pl, pland, .08);
            if (r.chance(prop == "C07" ? .15 : .03)) d = s;
            double limit = INFINITY, greed = 1;
            if (r.chance(prop == "C06" ? .7 : .1)) limit = nearest(s, d) * (r.chance(.2) ? r.unit() : 0.9 + 1.2 * r.unit());
            if (prop == "C06" && !land && r.chance(.15)) { // as far as a corner or the destination, next to nothing more or less
                double far = nearest(s, r.chance(.3) ? d : pl.vs[r.next() % pl.vs.size()]);
                limit = far * (1 + (r.chance(.5) ? 1 : -1) * 1e-9 * r.range(1, 30));
                tally("limits_at_a_point");
            }
            if (prop == "C06" && !land && r.chance(.1)) { // whole degrees away, with just that for a limit
                i64 k = r.range(1, 2 * (i64)(90 * r.unit() * r.unit()) + 2) * 500000 * (r.chance(.5) ? 1 : -1);
                Pt e = r.chance(.7) ? Pt{s.x + k, s.y} : Pt{s.x, s.y + k};
                if (std::abs(e.x) < 180000000 && std::abs(e.y) <= 90000000 && std::abs(k) <= 170000000 && pl.land(e) == -1) {
                    d = e;
                    limit = std::abs(k) / 1e6;
                    tally("limits_just_reached");
                }
            }
            if (r.chance(.01)) limit = 0;
            if (r.chance(prop == "C05" ? .5 : .2)) {
                static const double ws[] = {0, 0.3, 0.9, 1.2, 2, 5, 50, -1, 1e6};
                greed = ws[r.next() % 9];
            }
            bool correct = land ? r.chance(.9) : r.chance(prop == "C06" ? .1 : .25);
            if (correct && !land && prop != "C07") { // moved endpoints are checked in small scenes only
                if (pl.land(s) != -1 || pl.land(d) != -1) continue;
            }
            if (prop == "C07") {
                Pt s2 = s, d2 = d;
                int a = pl.land(s2), b = pl.land(d2);
                if (a == 0 || b == 0) continue;
            }
            if (r.chance(prop == "C06" ? .1 : .03)) { // the same again, with other options
                tally("asked_again_otherwise");
                check_query(pl, s, d, r.chance(.5) ? INFINITY : limit * (r.chance(.5) ? 2 : .5), correct, r.chance(.5) ? 1 : 3);
            }
            check_query(pl, s, d, limit, correct, greed);
        }
        sample(sc.family + " queries in " + show(sc.w));
    });
}
