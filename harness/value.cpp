// C24: coordinates, segments, polygons and visible vertices as values: equality, hashes, arithmetic, printing, conversions, projection.
#include "h.hpp"
#include "sphere.hpp"
#include "constants/constants.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "types/visible_vertex/visible_vertex.hpp"
#include <s2/s2edge_distances.h>
#include <s2/s2polyline.h>
using namespace h;

static const i64 WIDE = LON + PERIOD;
static const i64 FITS = INT32_MAX;
static Coordinate K(const Pt &p) { return Coordinate((int32_t)p.x, (int32_t)p.y); }
static bool fits(ld v) { return v > -(ld)FITS && v < (ld)FITS; }
static bool close_to(ld got, ld want, ld scale) { return fabsl(got - want) <= scale * 4e-15L + 1e-300L; }

static Pt draw(Rng &r, const std::vector<Pt> &seen) {
    if (!seen.empty() && r.chance(.5)) {
        const Pt &a = seen[r.next() % seen.size()], &b = seen[r.next() % seen.size()];
        Pt p = a;
        switch (r.range(0, 10)) {
        case 0: return a;
        case 10:
            if (std::abs(a.x) <= LON)
                if (Pt q = alike(r, a); !(q == a)) { tally("equal_hashes"); return q; }
            break;
        case 1: return {a.x, b.y};
        case 2: return {a.y, std::max(-LAT, std::min(LAT, a.x))}; // swapped
        case 3: return {-a.x, -a.y};
        case 4: return {-a.x, a.y};
        case 5: return {a.x, -a.y};
        case 6: p.x += r.chance(.5) ? PERIOD : -PERIOD; break;
        case 7: { // a multiple
            i64 g = std::gcd(std::abs(a.x), std::abs(a.y));
            if (!g) break;
            i64 k = std::max<i64>(1, std::min<i64>(WIDE / std::max<i64>(1, std::abs(a.x / g)), LAT / std::max<i64>(1, std::abs(a.y / g))));
            k = r.range(-k, k);
            return {a.x / g * k, a.y / g * k};
        }
        default: p.x += r.range(-1, 1); p.y += r.range(-1, 1);
        }
        if (std::abs(p.x) <= WIDE && std::abs(p.y) <= LAT) return p;
    }
    if (r.chance(.05)) return {r.chance(.5) ? 0 : r.chance(.5) ? LON : -LON, r.chance(.4) ? 0 : r.chance(.5) ? LAT : -LAT};
    if (r.chance(.15)) { i64 s = (i64)powl(10, r.range(0, 8)); return {r.range(-9, 9) * s, std::max(-LAT, std::min(LAT, r.range(-9, 9) * s))}; } // round numbers
    if (r.chance(.2)) { i64 s = r.chance(.5) ? 9 : 2000; return {r.range(-s, s), r.range(-s, s)}; }
    Pt p{r.range(-LON, LON), r.range(-LAT, LAT)};
    if (r.chance(.15)) p.x = r.range(-WIDE, WIDE);
    return p;
}

static void equal_or_not(const Pt &a, const Pt &b) {
    Coordinate ca = K(a), cb = K(b);
    std::string in = show(a) + " and " + show(b);
    bool same = a == b;
    if ((ca == cb) != same || (ca != cb) == same) violate("equality of coordinates", in);
    if (same && std::hash<Coordinate>()(ca) != std::hash<Coordinate>()(cb)) violate("hash of coordinates", in);
    std::string sa = ca.to_string_representation(), sb = cb.to_string_representation();
    if ((sa == sb) != same) violate("printed forms", in + ": " + sa + " and " + sb);
    for (bool fa : {false, true})
        for (bool fb : {false, true}) {
            VisibleVertex va{ca, fa}, vb{cb, fb};
            if ((va == vb) != (same && fa == fb) || (va != vb) == (same && fa == fb)) violate("equality of visible vertices", in);
        }
    tally(same ? "equal_pairs" : "unequal_pairs");
}

static void arithmetic(Rng &r, const Pt &a, const Pt &b) {
    Coordinate ca = K(a), cb = K(b);
    std::string in = show(a) + " and " + show(b);
    if (!(P(ca) == a)) violate("coordinate not kept", show(a) + " as " + show(P(ca)));
    if (ca.get_longitude_microdegrees_long() != a.x || ca.get_latitude_microdegrees_long() != a.y) violate("long microdegrees", show(a));
    if (!close_to(ca.get_longitude(), a.x * 1e-6L, fabsl(a.x * 1e-6L)) || !close_to(ca.get_latitude(), a.y * 1e-6L, fabsl(a.y * 1e-6L)))
        violate("degrees", show(a));
    if (!(P(-ca) == Pt{-a.x, -a.y})) violate("negation", show(a));
    if (fits(a.x + b.x) && fits(a.y + b.y) && !(P(ca + cb) == Pt{a.x + b.x, a.y + b.y})) violate("sum", in);
    if (fits(a.x - b.x) && fits(a.y - b.y) && !(P(ca - cb) == Pt{a.x - b.x, a.y - b.y})) violate("difference", in);
    double s = 0;
    switch (r.range(0, 4)) {
    case 0: s = (double)r.range(-3, 3); break;
    case 1: s = (double)(r.unit() * 2 - 1); break;
    case 2: s = (double)r.range(-9, 9) / 2; break;
    case 3: s = 1.0 / (double)r.range(1, 1000); break;
    default: s = (double)powl(10, r.unit() * 12 - 9) * (r.chance(.5) ? 1 : -1);
    }
    auto scaled = [&](const Pt &got, ld f, ld slack, const char *what) {
        ld wx = a.x * f, wy = a.y * f;
        if (!fits(wx) || !fits(wy)) return;
        tally("scalings");
        if (fabsl(got.x - wx) > .5L + slack || fabsl(got.y - wy) > .5L + slack) violate(what, show(a) + fmts(" and %.17g: ", s) + show(got));
    };
    if (fits(a.x * (ld)s) && fits(a.y * (ld)s)) scaled(P(ca * s), s, 1e-6L, "scaling");
    if (s != 0 && fits(a.x / (ld)s) && fits(a.y / (ld)s)) scaled(P(ca / s), 1 / (ld)s, 2e-6L, "division");

    i128 dot = (i128)a.x * b.x + (i128)a.y * b.y, cross = (i128)a.x * b.y - (i128)a.y * b.x, sq = (i128)a.x * a.x + (i128)a.y * a.y;
    if (ca.dot_product_microdegrees(cb) != (i64)dot) violate("dot product in microdegrees", in);
    if (ca.cross_product_magnitude_microdegrees(cb) != (i64)cross) violate("cross product in microdegrees", in);
    if (ca.magnitude_squared_microdegrees() != (i64)sq) violate("squared magnitude in microdegrees", show(a));
    ld px = fabsl((ld)a.x * b.x), py = fabsl((ld)a.y * b.y), qx = fabsl((ld)a.x * b.y), qy = fabsl((ld)a.y * b.x);
    if (!close_to(ca.dot_product(cb), (ld)dot * 1e-12L, (px + py) * 1e-12L)) violate("dot product", in + fmts(": %.17g", ca.dot_product(cb)));
    if (!close_to(ca.cross_product_magnitude(cb), (ld)cross * 1e-12L, (qx + qy) * 1e-12L)) violate("cross product", in + fmts(": %.17g", ca.cross_product_magnitude(cb)));
    if (!close_to(ca.magnitude_squared(), (ld)sq * 1e-12L, (ld)sq * 1e-12L)) violate("squared magnitude", show(a));
    if (!close_to(ca.magnitude(), sqrtl((ld)sq) * 1e-6L, sqrtl((ld)sq) * 1e-6L)) violate("magnitude", show(a) + fmts(": %.17g", ca.magnitude()));
    Orientation o = ca.vector_orientation(cb);
    if (o != (cross > 0 ? Orientation::COUNTER_CLOCKWISE : cross < 0 ? Orientation::CLOCKWISE : Orientation::COLLINEAR)) violate("turn between vectors", in);
    if (ca.parallel(cb) != (cross == 0)) violate("parallel", in);
    auto f = ca.scalar_multiple_factor(cb);
    if (f.has_value() != (cross == 0)) violate("multiples", in);
    if (f && sq) {
        tally("multiples");
        if (fabsl((ld)*f * a.x - b.x) > 1e-6L || fabsl((ld)*f * a.y - b.y) > 1e-6L) violate("factor of a multiple", in + fmts(": %.17g", *f));
    }
    if (sq) {
        double t = ca.angle_to_horizontal();
        ld want = atan2l(a.y, a.x);
        if (want < 0) want += 2 * M_PIl;
        if (!(t >= 0 && t <= 2 * M_PI) || fabsl(t - want) > 4e-15L) violate("angle", show(a) + fmts(": %.17g", t));
    }
}

static void conversions(Rng &r, const Pt &a, const Pt &b) {
    Coordinate ca = K(a);
    // printed degrees say what the coordinate is
    std::ostringstream os;
    os << ca;
    std::string s = ca.to_string_representation();
    if (os.str() != s) violate("streamed unlike printed", show(a));
    const char *c = s.c_str();
    char *e = nullptr;
    double x = 0, y = 0;
    bool good = *c == '(';
    if (good) { x = strtod(c + 1, &e); good = *e == ','; }
    if (good) { y = strtod(e + 1, &e); good = std::string(e) == ")"; }
    if (!good || llroundl(x * 1e6L) != a.x || llroundl(y * 1e6L) != a.y) violate("printed degrees", show(a) + ": " + s);
    // degrees given are kept to the microdegree
    ld gx = a.x + (ld)r.unit() - .5L, gy = a.y + (ld)r.unit() - .5L;
    if (r.chance(.3)) gx = a.x, gy = a.y;
    double dx = (double)(gx * 1e-6L), dy = (double)(gy * 1e-6L);
    Pt got = P(Coordinate(dx, dy));
    if (fabsl(got.x - dx * 1e6L) >= 1 + 1e-6L || fabsl(got.y - dy * 1e6L) >= 1 + 1e-6L) violate("degrees not kept", fmts("%.17g %.17g: ", dx, dy) + show(got));
    if (std::abs(a.x) > LON || std::abs(b.x) > LON) return;
    // on the sphere
    Coordinate cb = K(b);
    tally("spherical_conversions");
    if (std::abs(a.y) != LAT) {
        Pt back = P(Coordinate(ca.to_s2_point()));
        bool turned = std::abs(a.x) == LON && back.x == -a.x; // both writings of the antimeridian are one place
        if (!(back.y == a.y && (back.x == a.x || turned))) violate("to the sphere and back", show(a) + ": " + show(back));
    } else if (std::llabs(P(Coordinate(ca.to_s2_point())).y) != LAT) violate("pole to the sphere and back", show(a));
    auto rad = [](i64 m) { return (ld)m * 1e-6L * M_PIl / 180; };
    ld p1 = rad(a.y), p2 = rad(b.y), dl = rad(a.x - b.x);
    ld vx = cosl(p2) * sinl(dl), vy = cosl(p1) * sinl(p2) - sinl(p1) * cosl(p2) * cosl(dl), vz = sinl(p1) * sinl(p2) + cosl(p1) * cosl(p2) * cosl(dl);
    ld want = atan2l(hypotl(vx, vy), vz), slack = 1e-15L + 4e-16L / std::max(1e-8L, cosl(want / 2));
    double d1 = ca.spherical_distance(cb), d2 = cb.spherical_distance(ca);
    if (fabsl(d1 - d2) > slack * 4) violate("distance depends on the direction", show(a) + " and " + show(b));
    if (a == b && d1 != 0) violate("distance to itself", show(a));
    if (fabsl(d1 - want) > slack * 4) violate("distance on the sphere", show(a) + " and " + show(b) + fmts(": %.17g, not %.17Lg", d1, want));
    S2Point sp = ca.to_s2_point();
    ld wx = cosl(p1) * cosl(rad(a.x)), wy = cosl(p1) * sinl(rad(a.x)), wz = sinl(p1);
    if (fabsl(sp.x() - wx) > 1e-15L || fabsl(sp.y() - wy) > 1e-15L || fabsl(sp.z() - wz) > 1e-15L) violate("place on the sphere", show(a));
}

static void copies(Rng &r, const Pt &a, const std::vector<Pt> &ps) {
    // the thing itself and its two copies, in whatever order
    auto three = [](const std::vector<Pt> &got, const Pt &p) {
        std::set<std::pair<i64, i64>> x, want{{p.x, p.y}, {p.x + PERIOD, p.y}, {p.x - PERIOD, p.y}};
        for (auto &g : got) x.insert({g.x, g.y});
        return got.size() == 3 && x == want;
    };
    std::vector<Pt> one;
    for (auto &c : periodic_coordinates_from_coordinate(K(a))) one.push_back(P(c));
    if (!three(one, a)) violate("copies of a coordinate", show(a));
    std::vector<Coordinate> cs;
    std::vector<LineSegment> ls;
    for (size_t i = 0; i < ps.size(); ++i)
        if (std::abs(ps[i].x) <= LON) { cs.push_back(K(ps[i])); if (cs.size() > 1) ls.emplace_back(cs[cs.size() - 2], cs.back()); }
    auto text = [](i64 x, i64 y) { return fmts("%lld %lld", (long long)x, (long long)y); };
    std::multiset<std::string> got, want;
    for (auto &c : make_coordinates_periodic(cs)) got.insert(text(P(c).x, P(c).y));
    for (auto &c : cs) for (i64 d : {(i64)0, PERIOD, -PERIOD}) want.insert(text(P(c).x + d, P(c).y));
    if (got != want) violate("copies of coordinates", fmts("%zu of %zu", got.size(), cs.size()));
    got.clear(), want.clear();
    auto line = [&](const Pt &p, const Pt &q) { auto t = text(p.x, p.y), u = text(q.x, q.y); return std::min(t, u) + " " + std::max(t, u); };
    for (auto &s : make_segments_periodic(ls)) got.insert(line(P(s->get_endpoint_1()), P(s->get_endpoint_2())));
    for (auto &s : ls)
        for (i64 d : {(i64)0, PERIOD, -PERIOD}) {
            Pt p = P(s.get_endpoint_1()), q = P(s.get_endpoint_2());
            want.insert(line({p.x + d, p.y}, {q.x + d, q.y}));
        }
    if (got != want) violate("copies of segments", fmts("%zu of %zu", got.size(), ls.size()));
    if (is_coordinate_over_meridian(K(a)) != (a.x > LON || a.x < -LON)) violate("over the meridian", show(a));
    Pt far{a.x + PERIOD * r.range(-3, 3), a.y};
    if (!fits(far.x)) far = a;
    Pt in = P(coordinate_from_periodic_coordinate(K(far)));
    if (in.x > LON || in.x < -LON || in.y != far.y || (far.x - in.x) % PERIOD != 0) violate("re-expressed in range", show(far) + ": " + show(in));
    if (!(P(coordinate_from_periodic_coordinate(K(in))) == in)) violate("re-expressed again", show(far));
}

static void segments(Rng &r, const Pt &a, const Pt &b, const Pt &c, const Pt &d) {
    LineSegment s(K(a), K(b)), t(K(c), K(d));
    std::string in = show(a) + show(b) + " and " + show(c) + show(d);
    if (!(P(s.get_endpoint_1()) == a && P(s.get_endpoint_2()) == b)) violate("ends of a segment", in);
    bool same = (a == c && b == d) || (a == d && b == c);
    if ((s == t) != same || (s != t) == same) violate("equality of segments", in);
    if (same && std::hash<LineSegment>()(s) != std::hash<LineSegment>()(t)) violate("hash of segments", in);
    LineSegment back(K(b), K(a));
    if (!(s == back) || s != back || std::hash<LineSegment>()(s) != std::hash<LineSegment>()(back)) violate("segment turned round", in);
    if (same) tally("equal_segments");
    if (fits(b.x - a.x) && !(P(s.get_tangent_vector()) == Pt{b.x - a.x, b.y - a.y})) violate("tangent", in);
    if (!(a == b)) {
        if (!(P(s.get_adjacent_to(K(a))) == b && P(s.get_adjacent_to(K(b))) == a)) violate("other end", in);
        if (!(c == a) && !(c == b)) {
            bool threw = false;
            try { s.get_adjacent_to(K(c)); } catch (const std::exception &) { threw = true; }
            if (!threw) violate("other end from elsewhere", in);
        }
    }
    // nearest point of the edge on the sphere
    if (std::abs(a.x) > LON || std::abs(b.x) > LON || std::abs(c.x) > LON || std::abs(a.x - b.x) > 170000000) return;
    if (std::max({std::abs(a.y), std::abs(b.y), std::abs(c.y)}) > 89000000) return;
    S2Point pa = S(a), pb = S(b), pc = S(c);
    const double MICRO_RAD = 1e-6 * M_PI / 180;
    Pt got = P(s.project(K(c)));
    S2Point pg = S(got);
    double off = S2::GetDistance(pg, pa, pb).radians(), near = S2::GetDistance(pc, pa, pb).radians(), far = S1Angle(pg, pc).radians();
    tally("projections");
    if (near > 3.13) return; // everything on the edge is about as far
    if (off > 1.5 * MICRO_RAD || fabs(far - near) > 1.5 * MICRO_RAD) violate("projection", show(c) + " on " + show(a) + show(b) + ": " + show(got));
    // a margin goes on from there, straight away from the point
    ld vx = got.x - c.x, vy = got.y - c.y, len = hypotl(vx, vy);
    if (len < 3 || len > 1e8) return;
    float m = (float)(r.chance(.5) ? r.unit() : r.unit() * 1e-3);
    Pt moved = P(s.project(K(c), m));
    ld wx = got.x + vx / len * m * 1e6L, wy = got.y + vy / len * m * 1e6L, slack = 1.01L + m * 1e6L / len; // the direction is rounded to microdegrees
    tally("projections_with_margin");
    if (fabsl(moved.x - wx) > slack || fabsl(moved.y - wy) > slack) violate("margin of a projection", show(c) + " on " + show(a) + show(b) + fmts(" by %.9g: ", m) + show(moved));
}

static void rings(Rng &r, std::vector<Pt> ps) {
    auto make = [](const std::vector<Pt> &v) { std::vector<Coordinate> c; for (auto &p : v) c.push_back(K(p)); return Polygon(c); };
    auto text = [](const std::vector<Coordinate> &v) {
        std::string t = "Polygon (";
        for (size_t i = 0; i < v.size(); ++i) t += (i ? ", " : "") + v[i].to_string_representation();
        return t + ")";
    };
    std::vector<Pt> in;
    for (auto &p : ps) if (std::abs(p.x) <= LON) in.push_back(p);
    Polygon p = make(in), again = make(in), copy = p;
    const auto vs = p.get_vertices();
    if (p != again || !(p == copy) || std::hash<Polygon>()(p) != std::hash<Polygon>()(again) || std::hash<Polygon>()(p) != std::hash<Polygon>()(copy))
        violate("one ring, unequal polygons", text(vs));
    if (in.size() && r.chance(.7)) {
        size_t i = r.next() % in.size();
        if (r.chance(.2)) in.erase(in.begin() + i);
        else if (r.chance(.3)) std::reverse(in.begin(), in.end());
        else if (r.chance(.5)) (r.chance(.5) ? in[i].x : in[i].y) += in[i].x > 0 ? -1 : 1, in[i].y = std::max(-LAT, std::min(LAT, in[i].y));
        else in.insert(in.begin() + i, draw(r, ps));
        for (auto &q : in) if (std::abs(q.x) > LON) q.x = q.x > 0 ? LON : -LON;
    }
    Polygon q = make(in);
    const auto ws = q.get_vertices();
    bool same = vs.size() == ws.size();
    for (size_t i = 0; same && i < vs.size(); ++i) same = P(vs[i]) == P(ws[i]);
    if ((p == q) != same || (p != q) == same || (q == p) != same) violate("equality of polygons", text(vs) + " and " + text(ws));
    if (same && std::hash<Polygon>()(p) != std::hash<Polygon>()(q)) violate("hash of polygons", text(vs));
    if ((p.to_string_representation() == q.to_string_representation()) != same) violate("printed polygons", text(vs) + " and " + text(ws));
    tally(same ? "equal_polygons" : "unequal_polygons");
    std::ostringstream os;
    os << p;
    if (os.str() != p.to_string_representation()) violate("polygon streamed unlike printed", text(vs));
    if (vs.size() && p.to_string_representation() != text(vs)) violate("printed polygon", text(vs) + ": " + p.to_string_representation());
    auto es = p.get_line_segments();
    bool good = es.size() == vs.size();
    for (size_t i = 0; good && i < es.size(); ++i) good = P(es[i].get_endpoint_1()) == P(vs[i]) && P(es[i].get_endpoint_2()) == P(vs[(i + 1) % vs.size()]);
    if (!good) violate("edges of a polygon", text(vs));
    p = q; // a copy keeps what it was
    const auto kept = copy.get_vertices();
    good = kept.size() == vs.size();
    for (size_t i = 0; good && i < vs.size(); ++i) good = P(kept[i]) == P(vs[i]);
    if (!good || p != q) violate("copied polygon", text(vs));
    // assigned to itself, exchanged, moved on, kept in a growing list
    Polygon &alias = copy;
    copy = alias;
    Polygon a = copy, b = q;
    std::swap(a, b);
    std::vector<Polygon> list;
    for (int i = 0; i < 5; ++i) list.push_back(i % 2 ? b : a);
    Polygon moved = std::move(a);
    if (copy != again || b != again || moved != q) violate("copied polygon", text(vs) + " and " + text(ws) + ": assigned to itself, exchanged or moved");
    for (int i = 0; i < 5; ++i) if (list[(size_t)i] != (i % 2 ? again : q)) violate("copied polygon", text(vs) + " and " + text(ws) + ": kept in a list");
    if (!Polygon().get_vertices().empty() || !Polygon().get_line_segments().empty() || Polygon() != Polygon()) violate("empty polygon", "");
}

int main(int argc, char **argv) {
    ctx().count_cases = false;
    return run(argc, argv, [](long, Rng &r) {
        for (int k = 0; k < 20; ++k) {
            std::vector<Pt> ps;
            for (int i = (int)r.range(2, 9); i-- > 0;) ps.push_back(draw(r, ps));
            auto any = [&] { return ps[r.next() % ps.size()]; };
            for (int i = 0; i < 4; ++i) {
                Pt a = any(), b = any();
                equal_or_not(a, b);
                arithmetic(r, a, b);
                conversions(r, a, b);
                segments(r, a, b, any(), any());
                copies(r, a, ps);
            }
            rings(r, ps);
            tally("evaluations");
            std::string all;
            for (auto &p : ps) all += show(p);
            nontrivial(all);
            if (k == 0) sample(all);
        }
    });
}
