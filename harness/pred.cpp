// C15 exact predicates, C16 polygon normalisation, C21 graph equality, C22 graph overlays.
#include "h.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include "datastructures/open_edges/open_edges.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"
#include "types/polyline/three_vertex_polyline.hpp"
using namespace h;

static LineSegment L(const Pt &a, const Pt &b) { return LineSegment(C(a), C(b)); }
static int sign_of(Orientation o) { return o == Orientation::COUNTER_CLOCKWISE ? 1 : o == Orientation::CLOCKWISE ? -1 : 0; }

// ------------------------------------------------------------------------------------ C15
struct Points { // points that make degenerate and nearly degenerate configurations likely
    Rng &r;
    int mode;
    i64 ox, oy, span;
    std::vector<Pt> seen;
    explicit Points(Rng &rr) : r(rr), mode((int)rr.range(0, 5)) {
        static const i64 spans[] = {2, 6, 40, 1000, 1000000, 0};
        span = spans[mode];
        ox = r.range(-LON, LON);
        oy = r.range(-LAT, LAT);
        if (r.chance(.3)) ox = r.chance(.5) ? LON : -LON;
        if (r.chance(.2)) oy = r.chance(.5) ? LAT : -LAT;
    }
    Pt clamp(Pt p) { return {std::max(-LON - PERIOD, std::min(LON + PERIOD, p.x)), std::max(-LAT, std::min(LAT, p.y))}; }
    Pt fresh() {
        Pt p = span ? Pt{ox + r.range(-span, span), oy + r.range(-span, span)} : Pt{r.range(-LON, LON), r.range(-LAT, LAT)};
        if (r.chance(span ? .05 : .4)) p.x += r.chance(.5) ? PERIOD : -PERIOD;
        if (!span && r.chance(.2)) p.x = r.chance(.5) ? LON : -LON;
        if (r.chance(.02)) p = {r.chance(.5) ? 0 : r.chance(.5) ? LON : -LON, r.chance(.5) ? 0 : r.chance(.5) ? LAT : -LAT}; // landmarks
        return clamp(p);
    }
    Pt operator()() {
        Pt p = fresh();
        if (seen.size() >= 2 && r.chance(.6)) {
            const Pt &a = seen[r.next() % seen.size()], &b = seen[r.next() % seen.size()];
            switch (r.range(0, 6)) {
            case 0: p = a; break;
            case 1: { // on the line through a and b, perhaps one microdegree off, on or past the segment
                i64 dx = b.x - a.x, dy = b.y - a.y, g = std::gcd(std::abs(dx), std::abs(dy));
                if (g) {
                    i64 k = r.range(-g / 2 - 1, g + g / 2 + 1);
                    if (r.chance(.4)) k = r.chance(.5) ? g + r.range(-1, 1) : r.range(-1, 1);
                    p = {a.x + dx / g * k, a.y + dy / g * k};
                }
                break;
            }
            case 2: p = {a.x, p.y}; break;
            case 3: p = {p.x, a.y}; break;
            case 4: p = beside(a, b, r.unit() * 2 - .5, r.range(-3, 3)); break; // the least possible turn
            case 5: p = {a.x + (i64)((b.x - a.x) * r.unit() * 2), a.y + (i64)((b.y - a.y) * r.unit() * 2)}; break;
            default: p = {a.x + r.range(-1, 1), a.y + r.range(-1, 1)};
            }
            if (r.chance(.2)) { p.x += r.range(-1, 1); p.y += r.range(-1, 1); }
            p = clamp(p);
        }
        seen.push_back(p);
        return p;
    }
};

static void intersection(const Pt &a, const Pt &b, const Pt &c, const Pt &d) {
    std::string in = show(a) + show(b) + " and " + show(c) + show(d);
    const auto got = L(a, b).intersection_with_segment(L(c, d));
    Pt n{b.x - a.x, b.y - a.y}, m{d.x - c.x, d.y - c.y};
    i128 den = (i128)n.x * m.y - (i128)n.y * m.x;
    tally("intersections");
    for (auto &o : {L(b, a).intersection_with_segment(L(c, d)), L(a, b).intersection_with_segment(L(d, c)), L(c, d).intersection_with_segment(L(a, b))})
        if (o.has_value() != got.has_value()) violate("intersection depends on the order", in);
    if (den == 0) {
        tally("parallel_segments");
        if (got && !(on_seg(a, b, P(*got)) && on_seg(c, d, P(*got)))) violate("intersection of parallel segments off them", in + " at " + show(P(*got)));
        return;
    }
    bool meet = segs_touch(a, b, c, d);
    if (meet != got.has_value()) {
        violate(meet ? "meeting segments reported apart" : "separate segments reported to meet", in + (got ? " at " + show(P(*got)) : ""));
        return;
    }
    if (!meet) return;
    tally("segments_met");
    // exact point a + n * (cross(c - a, m) / den); |got - exact| <= 1 per axis
    i128 num = (i128)(c.x - a.x) * m.y - (i128)(c.y - a.y) * m.x;
    if (den < 0) { den = -den; num = -num; }
    Pt g = P(*got);
    for (int axis = 0; axis < 2; ++axis) {
        i128 diff = ((i128)(axis ? g.y - a.y : g.x - a.x)) * den - (i128)(axis ? n.y : n.x) * num;
        if (diff > den || diff < -den) violate("intersection point more than a microdegree off", in + " at " + show(g));
    }
}

static void wedge(const Pt &p, const Pt &o, const Pt &q, const Pt &t) {
    int turn = orient(p, o, q);
    if (turn == 0 || t == o) return;
    // interior (left of p-o-q) is swept counter-clockwise from q to p
    int on = orient(o, q, t), op = orient(o, p, t);
    // the library lets an edge's line of sight extend two microdegrees past the edge's end (test "Vistree generator boundaries")
    auto past = [&](const Pt &e) { return !on_seg(o, e, t) && hypotl(t.x - e.x, t.y - e.y) < 3; };
    auto ahead = [&](const Pt &e) { return (i128)(e.x - o.x) * (t.x - o.x) + (i128)(e.y - o.y) * (t.y - o.y) > 0; };
    bool want, along = true;
    if (on == 0 && ahead(q)) want = on_seg(o, q, t);
    else if (op == 0 && ahead(p)) want = on_seg(o, p, t);
    else {
        along = false;
        want = turn > 0 ? !(on > 0 && op < 0) : (on < 0 && op > 0);
    }
    if (along && past(on == 0 && ahead(q) ? q : p)) { tally("wedges_just_past_an_edge"); return; }
    tally("wedges");
    if (along) tally("wedges_along_an_edge");
    bool got = ThreeVertexPolyline(C(p), C(o), C(q)).point_visible(C(t));
    if (got != want)
        violate(want ? "wedge hides a point in sight" : "wedge shows a point behind it", show(p) + show(o) + show(q) + " target " + show(t));
}

static void sweep(Rng &r, Points &pts) {
    Pt o = pts();
    std::vector<Coordinate> v;
    std::set<std::pair<i64, i64>> had;
    for (int i = 0, n = (int)r.range(2, 40); i < n; ++i) {
        Pt p = pts();
        if (had.insert({p.x, p.y}).second) v.push_back(C(p));
    }
    auto before = v;
    AngleSorter::sort_counter_clockwise_around_observer(C(o), v);
    tally("sweeps");
    std::string in = "observer " + show(o) + " order";
    for (auto &c : v) in += " " + show(P(c));
    auto half = [&](const Pt &d) { return d.y < 0 || (d.y == 0 && d.x < 0); };
    std::vector<std::pair<i64, i64>> x, y;
    for (auto &c : before) x.push_back({P(c).x, P(c).y});
    for (auto &c : v) y.push_back({P(c).x, P(c).y});
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) { violate("sorting by angle loses vertices", in); return; }
    for (size_t i = 0; i + 1 < v.size(); ++i) {
        Pt a{P(v[i]).x - o.x, P(v[i]).y - o.y}, b{P(v[i + 1]).x - o.x, P(v[i + 1]).y - o.y};
        if (a == Pt{0, 0}) continue;
        bool bad = b == Pt{0, 0};
        if (!bad) {
            if (half(a) != half(b)) bad = half(a);
            else {
                int s = sgn((i128)a.x * b.y - (i128)a.y * b.x);
                bad = s < 0 || (s == 0 && (i128)a.x * a.x + (i128)a.y * a.y > (i128)b.x * b.x + (i128)b.y * b.y);
            }
        }
        if (bad) { violate("vertices not in angular order", in + " at " + std::to_string(i)); return; }
        tally("angles_ordered");
    }
}

// Edges that cross one ray from an observer and nothing else of each other; the nearest must always be known.
// Open: OpenEdges, an internal part of the sweep that may change its interface; C01 and C02 watch what depends on it
template <class Open> static void nearest_open(Rng &r) {
    Pt o{r.range(-1000, 1000), r.range(-1000, 1000)};
    i64 reach = r.chance(.5) ? 2000 : 150000000;
    std::vector<std::pair<Pt, Pt>> segs;
    int want = (int)r.range(2, 14);
    for (int t = 0; t < 200 && (int)segs.size() < want; ++t) {
        i64 x = o.x + r.range(1, reach);
        Pt a{x + r.range(-reach / 8, reach / 8), o.y - r.range(1, reach / 4)}, b{x + r.range(-reach / 8, reach / 8), o.y + r.range(1, reach / 4)};
        if (r.chance(.3) && !segs.empty()) { // share an endpoint with an edge that is there
            auto &s = segs[r.next() % segs.size()];
            (r.chance(.5) ? a : b) = r.chance(.5) ? (a.y < o.y ? s.first : s.first) : s.second;
            if ((a.y < o.y) == (b.y < o.y)) continue;
        }
        if (orient(a, b, o) == 0) continue;
        Pt far_{o.x + 2 * reach, o.y};
        if (!segs_touch(a, b, o, far_) || a.y == o.y || b.y == o.y) continue;
        bool ok = true;
        for (auto &s : segs) {
            bool shared = s.first == a || s.first == b || s.second == a || s.second == b;
            if (!shared && segs_touch(a, b, s.first, s.second)) ok = false;
            if (shared) { // only the endpoint may be common
                Pt e = (s.first == a || s.second == a) ? a : b, fa = e == a ? b : a, fs = e == s.first ? s.second : s.first;
                if (on_seg(a, b, fs) || on_seg(s.first, s.second, fa)) ok = false;
            }
        }
        if (ok) segs.push_back(r.chance(.5) ? std::make_pair(a, b) : std::make_pair(b, a));
    }
    if (segs.size() < 2) return;
    // where the ray meets a segment, exactly comparable: x = a.x + (o.y - a.y) * dx / dy
    auto before = [&](const std::pair<Pt, Pt> &s, const std::pair<Pt, Pt> &t) {
        auto frac = [&](const std::pair<Pt, Pt> &u, i128 &num, i128 &den) {
            den = u.second.y - u.first.y;
            num = (i128)(u.first.x - o.x) * den + (i128)(o.y - u.first.y) * (u.second.x - u.first.x);
            if (den < 0) { den = -den; num = -num; }
        };
        i128 n1, d1, n2, d2;
        frac(s, n1, d1);
        frac(t, n2, d2);
        return n1 * d2 < n2 * d1;
    };
    if constexpr (std::is_constructible_v<Open, Coordinate>) {
    Open open(C(o));
    std::vector<size_t> in;
    std::string log = "observer " + show(o);
    for (int step = 0; step < 60; ++step) {
        size_t k = r.next() % segs.size();
        auto it = std::find(in.begin(), in.end(), k);
        LineSegment s = r.chance(.5) ? L(segs[k].first, segs[k].second) : L(segs[k].second, segs[k].first);
        if (it == in.end() || r.chance(.15)) {
            open.add_edge(s);
            if (it == in.end()) in.push_back(k);
            log += " +" + show(segs[k].first) + show(segs[k].second);
        } else {
            open.remove_edge(s);
            in.erase(it);
            log += " -" + show(segs[k].first) + show(segs[k].second);
        }
        if (open.empty() != in.empty()) { violate("open edges forgotten or left over", log); return; }
        if (in.empty()) continue;
        size_t best = in[0];
        for (size_t j : in)
            if (before(segs[j], segs[best])) best = j;
        auto c = open.closest_edge();
        tally("nearest_edges");
        if (!(c == L(segs[best].first, segs[best].second))) {
            size_t g = 0;
            while (g < segs.size() && !(c == L(segs[g].first, segs[g].second))) ++g;
            if (g == segs.size() || before(segs[best], segs[g])) { violate("nearest open edge is not the nearest", log + " gives " + show(P(c.get_endpoint_1())) + show(P(c.get_endpoint_2()))); return; }
        }
    }
    }
}

static void vectors(const Pt &a, const Pt &b) {
    // differences of world points
    Coordinate u = C(a), v = C(b);
    i128 cr = (i128)a.x * b.y - (i128)a.y * b.x;
    if (u.cross_product_magnitude_microdegrees(v) != (int64_t)cr) violate("cross product", show(a) + show(b));
    if (u.dot_product_microdegrees(v) != (int64_t)((i128)a.x * b.x + (i128)a.y * b.y)) violate("dot product", show(a) + show(b));
    if (u.magnitude_squared_microdegrees() != (int64_t)((i128)a.x * a.x + (i128)a.y * a.y)) violate("squared length", show(a));
    if (sign_of(u.vector_orientation(v)) != sgn(cr)) violate("vector orientation", show(a) + show(b));
    if (u.parallel(v) != (cr == 0)) violate("parallel", show(a) + show(b));
    auto f = u.scalar_multiple_factor(v);
    if (f.has_value() != (cr == 0)) violate("scalar multiple", show(a) + show(b));
    if (f && !(a == Pt{0, 0})) {
        i128 dot = (i128)a.x * b.x + (i128)a.y * b.y;
        ld want = (ld)dot / ((ld)a.x * a.x + (ld)a.y * a.y);
        if (fabsl(*f - want) > 1e-12L * std::max((ld)1, fabsl(want))) violate("scalar multiple", show(a) + show(b) + fmts(" %g", *f));
    }
    ld m = hypotl(a.x, a.y) * 1e-6L;
    if (fabsl(u.magnitude() - m) > 1e-12L * (m + 1e-6L)) violate("length", show(a));
    if ((u == v) != (a == b) || (u != v) == (a == b)) violate("coordinate equality", show(a) + show(b));
    if (a == b && std::hash<Coordinate>()(u) != std::hash<Coordinate>()(v)) violate("equal coordinates, different hashes", show(a));
    tally("vectors");
}

static void polygons(Rng &r, Poly ring) {
    // the same ring, another start, the other winding, the corners in another order: equal exactly when the corners
    // are listed alike, and then with equal hashes
    Poly other = ring;
    switch (r.range(0, 4)) {
    case 0: break;
    case 1: std::rotate(other.begin(), other.begin() + r.range(0, (i64)other.size() - 1), other.end()); break;
    case 2: std::reverse(other.begin(), other.end()); break;
    case 3: r.shuffle(other); break;
    default: other[r.next() % other.size()].x += 1;
    }
    Polygon p = to_polygon(ring), q = to_polygon(other), copy = p;
    bool same = p.get_vertices().size() == q.get_vertices().size() && std::equal(p.get_vertices().begin(), p.get_vertices().end(), q.get_vertices().begin());
    if (!(p == copy) || std::hash<Polygon>()(p) != std::hash<Polygon>()(copy)) violate("a polygon and its copy", show(ring));
    if (same && (!(p == q) || std::hash<Polygon>()(p) != std::hash<Polygon>()(q))) violate("polygons of the same corners", show(ring) + show(other));
    if (p == q) {
        if (std::hash<Polygon>()(p) != std::hash<Polygon>()(q)) violate("equal polygons, different hashes", show(ring) + show(other));
        // rings that enclose different regions are different
        auto cycle = [](const Polygon &g) {
            Poly v;
            for (auto &c : g.get_vertices()) v.push_back(P(c));
            if (!v.empty()) std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end());
            return v;
        };
        Poly a = cycle(p), b = cycle(q), c = b;
        if (!c.empty()) std::reverse(c.begin() + 1, c.end());
        if (a != b && a != c && std::set<Pt>(a.begin(), a.end()).size() == a.size()) violate("different polygons, equal", show(ring) + show(other));
        tally("equal_polygons");
    }
    tally("polygon_pairs");
}

static void predicates(long, Rng &r) {
    Points pts(r);
    for (int i = 0; i < 300; ++i) {
        if (pts.seen.size() > 40) pts.seen.clear();
        Pt a = pts(), b = pts(), c = pts(), d = pts();
        vectors(a, b);
        int s = orient(a, b, c);
        tally("orientations");
        if (s == 0) tally("collinear_triples");
        if (sign_of(L(a, b).orientation_of_point_to_segment(C(c))) != s) violate("orientation", show(a) + show(b) + " of " + show(c));
        if (sign_of(L(b, a).orientation_of_point_to_segment(C(c))) != -s) violate("orientation", show(b) + show(a) + " of " + show(c));
        bool on = on_seg(a, b, c);
        if (on) tally("points_on_segments");
        if (L(a, b).on_segment(C(c)) != on || L(b, a).on_segment(C(c)) != on) violate("point on segment", show(a) + show(b) + " and " + show(c));
        if (!(a == b) && !(c == d)) intersection(a, b, c, d);
        if (!(a == b) && !(b == c) && !(a == c)) wedge(a, b, c, d);
        LineSegment x = L(a, b), y = r.chance(.5) ? L(b, a) : L(c, d);
        bool same = (P(y.get_endpoint_1()) == a && P(y.get_endpoint_2()) == b) || (P(y.get_endpoint_1()) == b && P(y.get_endpoint_2()) == a);
        if ((x == y) != same || (y == x) != same || (x != y) == same) violate("segment equality", show(a) + show(b) + show(c) + show(d));
        if (same && std::hash<LineSegment>()(x) != std::hash<LineSegment>()(y)) violate("equal segments, different hashes", show(a) + show(b));
        Poly ring{a, b, c, d};
        Polygon p1 = to_polygon(ring), p2 = to_polygon(r.chance(.5) ? Poly{d, c, b, a} : ring);
        if (p1 == p2 && std::hash<Polygon>()(p1) != std::hash<Polygon>()(p2)) violate("equal polygons, different hashes", show(ring));
        polygons(r, ring);
        tally("evaluations");
        if (s == 0 || on) nontrivial(show(a) + show(b) + show(c) + show(d));
    }
    for (int i = 0; i < 10; ++i) sweep(r, pts);
    for (int i = 0; i < 10; ++i) nearest_open<OpenEdges>(r);
    sample("points such as " + show(pts()) + show(pts()) + show(pts()));
}

// ------------------------------------------------------------------------------------ C16
static Poly reference_normal(Poly p) {
    Poly q;
    for (size_t i = 0; i < p.size(); ++i)
        if (p[i] != p[(i + p.size() - 1) % p.size()]) q.push_back(p[i]);
    Poly k;
    for (size_t i = 0, n = q.size(); i < n; ++i) {
        const Pt &a = q[(i + n - 1) % n], &b = q[i], &c = q[(i + 1) % n];
        i128 dot = (i128)(b.x - a.x) * (c.x - b.x) + (i128)(b.y - a.y) * (c.y - b.y);
        if (orient(a, b, c) == 0 && dot > 0) continue;
        k.push_back(b);
    }
    if (area2(k) < 0) std::reverse(k.begin(), k.end());
    return k;
}
// rings of more corners than fit into small numbers
static void long_ring(Rng &r) {
    Poly want, ring;
    i64 n = r.chance(.5) ? r.range(100, 3000) : r.range(32000, 70000), step = r.range(1, std::min<i64>(500000, 160000000 / n)), x0 = r.range(-LON, LON - 2 * n * step - 2), y0 = r.range(-80000000, 70000000);
    for (i64 i = 0; i <= n; ++i) want.push_back({x0 + 2 * i * step, y0 + (i % 2 ? r.range(5, 9) : r.range(0, 4)) * step});
    for (i64 i = n; i >= 0; --i) want.push_back({x0 + 2 * i * step + 1, y0 + (i % 2 ? r.range(25, 29) : r.range(20, 24)) * step});
    want = reference_normal(want);
    for (auto &p : want) {
        ring.push_back(p);
        if (r.chance(.05)) ring.push_back(p);
    }
    std::rotate(ring.begin(), ring.begin() + r.next() % ring.size(), ring.end());
    if (r.chance(.5)) std::reverse(ring.begin(), ring.end());
    Poly got = from_polygon(to_polygon(ring));
    std::rotate(got.begin(), std::min_element(got.begin(), got.end()), got.end());
    std::rotate(want.begin(), std::min_element(want.begin(), want.end()), want.end());
    tally("evaluations");
    tally("long_rings");
    if (got != want) violate("long ring", fmts("%zu vertices, of which %zu are corners, give %zu: ", ring.size(), want.size(), got.size()) + show(ring).substr(0, 300));
    if (to_polygon(ring).get_line_segments().size() != want.size()) violate("edges are not the ring", fmts("long ring of %zu", want.size()));
    nontrivial(show(ring).substr(0, 3000));
}
static void normal(long, Rng &r) {
    if (r.chance(.002)) long_ring(r);
    for (int rep = 0; rep < 30; ++rep) {
        Poly p;
        int kind = (int)r.range(0, 3);
        i64 span = r.chance(.3) ? 4 : r.chance(.4) ? 60 : r.chance(.5) ? 1000000 : 80000000;
        Pt o{r.range(-LON + 0, LON), r.range(-LAT, LAT)};
        if (span > 1000) o = {r.range(-90000000, 90000000), r.range(-5000000, 5000000)};
        auto put = [&](Pt q) { p.push_back({std::max(-LON, std::min(LON, q.x)), std::max(-LAT, std::min(LAT, q.y))}); };
        if (kind == 0)
            for (int i = 0, n = (int)r.range(3, 12); i < n; ++i) put({o.x + r.range(-span, span), o.y + r.range(-span, span)}); // any ring
        else {
            Poly s = kind == 1 ? gen_star(r, o.x, o.y, span, (int)r.range(3, 14), .2L + .7L * r.unit())
                   : kind == 2 ? gen_wild(r, o.x, o.y, span, (int)r.range(4, 12)) : gen_comb(r, o.x, o.y, span);
            for (auto &q : s) put(q);
        }
        if (r.chance(.4)) // corners that turn as little as they can
            for (int t = 0, n = (int)r.range(1, 3); t < n && p.size() > 2; ++t) {
                size_t i = r.next() % p.size();
                Pt q = beside(p[i], p[(i + 1) % p.size()], r.unit(), r.chance(.5) ? r.range(1, 3) : -r.range(1, 3));
                if (std::abs(q.x) > LON || std::abs(q.y) > LAT) continue;
                p.insert(p.begin() + i + 1, q);
                tally("slight_corners");
            }
        Poly want = reference_normal(p);
        if (want.size() < 3 || area2(want) == 0) continue; // no region
        bool simple = simple_poly(want);
        // the same ring, presented differently
        Poly ring = p;
        bool dressed = r.chance(.8);
        if (dressed) {
            Poly d;
            for (size_t i = 0; i < ring.size(); ++i) {
                const Pt &a = ring[i], &b = ring[(i + 1) % ring.size()];
                d.push_back(a);
                while (r.chance(.2)) d.push_back(a);
                i64 dx = b.x - a.x, dy = b.y - a.y, g = std::gcd(std::abs(dx), std::abs(dy));
                if (g > 1 && r.chance(.5)) {
                    std::vector<i64> ks;
                    for (int t = 0, n = (int)r.range(1, 3); t < n; ++t) ks.push_back(r.chance(.3) ? 1 : r.chance(.3) ? g - 1 : r.range(1, g - 1));
                    std::sort(ks.begin(), ks.end());
                    for (i64 k : ks) d.push_back({a.x + dx / g * k, a.y + dy / g * k});
                }
            }
            if (r.chance(.5)) d.push_back(d[0]); // closed, as in a shapefile
            size_t k = r.next() % d.size();
            if (r.chance(.5)) std::rotate(d.begin(), d.begin() + k, d.end());
            if (r.chance(.5)) std::reverse(d.begin(), d.end());
            ring = d;
            tally("dressed_rings");
        }
        if (r.chance(.2))
            for (auto *z : {&ring, &want})
                for (auto &q : *z) q.x += PERIOD;
        Polygon poly = to_polygon(ring);
        Poly got = from_polygon(poly);
        tally("evaluations");
        tally(simple ? "simple_rings" : "other_rings");
        if (ring.size() > want.size()) tally("vertices_dropped", ring.size() - want.size());
        if (!same_cycle(got, want)) {
            violate(same_cycle(Poly(got.rbegin(), got.rend()), want) ? "not counter-clockwise" : got.size() < want.size() ? "a corner is lost"
                    : got.size() > want.size() ? "a vertex too many" : "other vertices",
                    show(ring) + " gives " + show(got));
            continue;
        }
        // region, judged from the given ring
        if (simple) {
            for (int t = 0; t < 8; ++t) {
                const Pt &c = want[r.next() % want.size()];
                Pt q = r.chance(.7) ? Pt{c.x + r.range(-3, 3), c.y + r.range(-3, 3)} : Pt{o.x + r.range(-span, span), o.y + r.range(-span, span)};
                if (locate(ring, q) != locate(got, q)) violate("region changed", show(ring) + " gives " + show(got) + " at " + show(q));
                tally("region_points");
            }
        }
        auto segs = poly.get_line_segments();
        bool ok = segs.size() == got.size();
        for (size_t i = 0; ok && i < segs.size(); ++i)
            ok = P(segs[i].get_endpoint_1()) == got[i] && P(segs[i].get_endpoint_2()) == got[(i + 1) % got.size()];
        if (!ok) violate("edges are not the ring", show(got));
        // normal form is a fixed point, and periodic copies are translations
        if (!(Polygon(poly.get_vertices()) == poly) || Polygon(poly.get_vertices()) != poly) violate("normalising again changes the polygon", show(got));
        auto copies = make_polygons_periodic({poly});
        std::set<i64> shifts;
        for (auto &c : copies) {
            Poly q = from_polygon(c);
            i64 dx = q.empty() ? 0 : q[0].x - got[0].x;
            shifts.insert(dx);
            for (size_t i = 0; i < q.size() || i < got.size(); ++i)
                if (q.size() != got.size() || q[i].x != got[i].x + dx || q[i].y != got[i].y) { violate("periodic copy is not a translation", show(got) + " and " + show(q)); break; }
        }
        if (shifts != std::set<i64>{-PERIOD, 0, PERIOD}) violate("periodic copies are not one period away", show(got));
        if (ring.size() > want.size() || area2(ring) < 0) nontrivial(show(ring));
        sample(show(ring) + " gives " + show(got));
    }
}

// ------------------------------------------------------------------------------------ shared by C21 and C22
struct Cell { bool direct = false, over = false; };
struct Model { // what a graph must answer
    std::vector<Pt> v;
    std::map<std::pair<std::pair<i64, i64>, std::pair<i64, i64>>, Cell> e;
    static std::pair<std::pair<i64, i64>, std::pair<i64, i64>> key(const Pt &a, const Pt &b) { return {{a.x, a.y}, {b.x, b.y}}; }
    void add(const Pt &a, const Pt &b, bool over) {
        if (a == b) return;
        auto &c = e[key(a, b)];
        (over ? c.over : c.direct) = true;
    }
    void remove(const Pt &a, const Pt &b) { e.erase(key(a, b)); }
    EdgeMap content() const {
        EdgeMap m;
        for (auto &x : e) m[x.first] = x.second.over && !x.second.direct;
        return m;
    }
    std::set<std::pair<i64, i64>> vertices() const {
        std::set<std::pair<i64, i64>> s;
        for (auto &p : v) s.insert({p.x, p.y});
        return s;
    }
};
static World obstacles(Rng &r) {
    World w;
    i64 unit = r.chance(.5) ? 10 : 20000000;
    int n = (int)r.range(0, 5);
    std::vector<int> cells;
    for (int i = 0; i < 15; ++i) cells.push_back(i);
    r.shuffle(cells);
    for (int i = 0; i < n; ++i) {
        i64 x = (cells[i] % 5 - 2) * 3 * unit, y = (cells[i] / 5 - 1) * 3 * unit;
        Poly p{{x, y}, {x + unit, y}, {x + unit, y + unit}, {x, y + unit}};
        if (r.chance(.5)) p.pop_back();
        if (r.chance(.3)) p[0].x -= 1;
        w.push_back(p);
    }
    if (unit == 10) { // anywhere on the map
        i64 dx = r.range(-179000000, 179000000), dy = r.range(-89000000, 89000000);
        for (auto &p : w)
            for (auto &v : p) { v.x += dx; v.y += dy; }
    }
    return w;
}

// ------------------------------------------------------------------------------------ C21
static std::shared_ptr<Graph> realise(Rng &r, const Model &m, World w, bool shuffled) {
    struct Op { Pt a, b; int kind; };
    std::vector<Op> ops;
    for (auto &x : m.e) {
        Pt a{x.first.first.first, x.first.first.second}, b{x.first.second.first, x.first.second.second};
        if (x.second.direct) ops.push_back({a, b, 0});
        if (x.second.over) ops.push_back({a, b, 1});
        if (shuffled && r.chance(.3)) ops.push_back(ops.back());
    }
    std::vector<Pt> all = corners(w);
    if (shuffled) {
        r.shuffle(w);
        for (auto &p : w) std::rotate(p.begin(), p.begin() + r.next() % p.size(), p.end());
        r.shuffle(ops);
    }
    auto g = std::make_shared<Graph>(to_polygons(w));
    if (shuffled && all.size() > 1) // edges that are removed again
        for (int i = 0; i < 5; ++i) {
            Pt a = all[r.next() % all.size()], b = all[r.next() % all.size()];
            g->add_directed_edge(C(a), C(b), r.chance(.5));
            g->remove_directed_edge(C(a), C(b));
        }
    for (auto &o : ops) g->add_directed_edge(C(o.a), C(o.b), o.kind == 1);
    return g;
}
static void equality(long, Rng &r) {
    World w = obstacles(r);
    if (!w.empty() && r.chance(.05)) { // a corner on the antimeridian itself
        Poly &p = w[r.next() % w.size()];
        size_t j = r.next() % p.size();
        i64 dx = (r.chance(.5) ? LON : -LON) - p[j].x;
        Poly q = p;
        bool ok = true;
        for (auto &v : q) { v.x += dx; ok = ok && std::llabs(v.x) <= LON; }
        for (auto &o : w)
            for (auto &v : o)
                for (auto &u : q) ok = ok && !(u == v);
        if (ok) { p = q; tally("corners_on_the_antimeridian"); }
    }
    bool many = r.chance(.02); // vertices with many neighbours
    if (many) {
        Poly ring;
        int n = r.chance(.7) ? (int)r.range(30, 140) : (int)r.range(140, 300);
        for (int k = 0; k < n; ++k) ring.push_back(Pt{(i64)llroundl(60000000 + 9000000 * cosl(2 * M_PIl * k / n)), (i64)llroundl(9000000 * sinl(2 * M_PIl * k / n))});
        w.push_back(ring);
        tally("graphs_of_many_neighbours");
    }
    Model m;
    m.v = corners(w);
    Pt hub = m.v.empty() ? Pt{} : m.v[r.next() % m.v.size()];
    if (many)
        for (auto &v : m.v) {
            if (v == hub || r.chance(.05)) continue;
            bool over = r.chance(.3);
            m.add(hub, v, over);
            if (r.chance(.8)) m.add(v, hub, over);
        }
    if (m.v.size() > 1)
        for (int i = 0, n = (int)r.range(0, 25); i < n; ++i) {
            Pt a = m.v[r.next() % m.v.size()], b = m.v[r.next() % m.v.size()];
            bool over = r.chance(.3);
            m.add(a, b, over);
            if (r.chance(.8)) m.add(b, a, over);
        }
    auto g = realise(r, m, w, false);
    for (int i = 0; i < 6; ++i) {
        auto other = realise(r, m, w, true);
        tally("evaluations");
        tally("equal_pairs");
        if (!(*g == *other) || *g != *other || !(*other == *g)) violate("same content, not equal", g->to_string_representation() + other->to_string_representation());
        if (g->to_string_representation() != other->to_string_representation()) violate("same content, printed differently", g->to_string_representation() + other->to_string_representation());
        std::ostringstream a, b;
        a << *g;
        b << *other;
        if (a.str() != b.str() || a.str() != g->to_string_representation()) violate("printed form of a stream", a.str() + b.str());
    }
    nontrivial(g->to_string_representation());
    sample(g->to_string_representation());
    for (int i = 0; i < 12; ++i) {
        Model k = m;
        World u = w;
        std::string what;
        switch (r.range(0, 5)) {
        case 0: // one edge fewer, in one direction
            if (k.e.empty()) continue;
            { auto it = k.e.begin(); std::advance(it, r.next() % k.e.size()); k.e.erase(it); }
            what = "an edge removed";
            break;
        case 1: // one flag changed
            if (k.e.empty()) continue;
            { auto it = k.e.begin(); std::advance(it, r.next() % k.e.size());
              bool over = it->second.over && !it->second.direct;
              it->second = over ? Cell{true, r.chance(.5)} : Cell{false, true}; }
            what = "a flag changed";
            break;
        case 2: { // one edge more
            if (k.v.size() < 2) continue;
            Pt a = k.v[r.next() % k.v.size()], b = k.v[r.next() % k.v.size()];
            if (a == b || k.e.count(Model::key(a, b))) continue;
            k.add(a, b, r.chance(.5));
            what = "an edge added";
            break;
        }
        case 3: { // one vertex a microdegree away
            if (u.empty()) continue;
            auto &p = u[r.next() % u.size()];
            size_t j = r.next() % p.size();
            Pt from = p[j], to{from.x + (r.chance(.5) ? 1 : 0), 0};
            to.y = from.y + (to.x == from.x ? 1 : 0);
            if (r.chance(.3)) to = alike(r, from);
            if (std::llabs(from.x) == LON && r.chance(.7)) to = {-from.x, from.y};
            if (to == from) continue;
            p[j] = to;
            if (reference_normal(p).size() != p.size()) continue;
            Model q;
            q.v = corners(u);
            for (auto &e : k.e) {
                auto swap_ = [&](std::pair<i64, i64> x) { return x == std::make_pair(from.x, from.y) ? std::make_pair(to.x, to.y) : x; };
                q.e[{swap_(e.first.first), swap_(e.first.second)}] = e.second;
            }
            k = q;
            what = "a vertex moved";
            break;
        }
        case 4: { // one edge to another vertex, perhaps next to the first
            if (k.e.empty()) continue;
            auto it = k.e.begin();
            std::advance(it, r.next() % k.e.size());
            auto from = it->first.first, to = it->first.second;
            std::vector<Pt> others;
            for (auto &v : k.v)
                if (!(v == Pt{from.first, from.second}) && !k.e.count({from, {v.x, v.y}})) others.push_back(v);
            if (others.empty()) continue;
            std::sort(others.begin(), others.end(), [&](const Pt &a, const Pt &b) {
                auto d = [&](const Pt &p) { return std::llabs(p.x - to.first) + std::llabs(p.y - to.second); };
                return d(a) < d(b);
            });
            Pt t = others[r.chance(.7) ? 0 : r.next() % others.size()];
            Cell c = it->second;
            k.e.erase(it);
            k.e[{from, {t.x, t.y}}] = c;
            what = "an edge led elsewhere";
            break;
        }
        default: // an obstacle without edges added
            u.push_back({{170000000, 70000000}, {170000005, 70000000}, {170000000, 70000007}});
            k.v = corners(u);
            what = "an obstacle added";
        }
        auto other = realise(r, k, u, r.chance(.5));
        tally("evaluations");
        tally("different_pairs");
        if (*g == *other || !(*g != *other) || *other == *g) violate("different content, equal: " + what, g->to_string_representation() + other->to_string_representation());
        if (g->to_string_representation() == other->to_string_representation()) violate("different content, same printed form: " + what, g->to_string_representation());
    }
}

// ------------------------------------------------------------------------------------ C22
template <class G> static std::string mismatch(const G &g, const Model &m) {
    auto vs = g.get_vertices();
    std::set<std::pair<i64, i64>> got;
    for (auto &v : vs) {
        if (!got.insert({P(v).x, P(v).y}).second) return "vertex listed twice " + show(P(v));
        if (!g.has_vertex(v)) return "listed vertex denied " + show(P(v));
    }
    if (got != m.vertices()) return "vertices differ";
    auto want = m.content();
    for (auto &a : m.v) {
        std::set<std::pair<i64, i64>> ns, wn;
        for (auto &n : g.get_neighbors(C(a)))
            if (!ns.insert({P(n).x, P(n).y}).second) return "neighbour listed twice " + show(a) + show(P(n));
        for (auto &b : m.v) {
            auto it = want.find(Model::key(a, b));
            bool has = it != want.end();
            if (has) wn.insert({b.x, b.y});
            if (g.has_edge(C(a), C(b)) != has) return std::string(has ? "edge missing " : "edge that is not there ") + show(a) + show(b);
            if (g.is_edge_meridian_crossing(C(a), C(b)) != (has && it->second)) return "flag of " + show(a) + show(b);
        }
        if (ns != wn) return "neighbours of " + show(a);
    }
    return "";
}
static void overlay(long, Rng &r) {
    World w = obstacles(r);
    if (r.chance(.0007)) { // more vertices than fit into a byte
        Poly ring;
        int n = (int)r.range(250, 320);
        for (int k = 0; k < n; ++k) ring.push_back(Pt{(i64)llroundl(9000000 * cosl(2 * M_PIl * k / n)), (i64)llroundl(9000000 * sinl(2 * M_PIl * k / n))});
        w = {ring};
        tally("graphs_of_many_vertices");
    }
    Model m;
    m.v = corners(w);
    auto base = std::make_shared<Graph>(to_polygons(w));
    std::string log = show(w);
    auto unit = [&] { return Pt{r.range(-40, 40) * 3, r.range(-40, 40) * 3}; };
    auto edit = [&](IGraph &g, Model &k, int n, bool vertices) {
        for (int i = 0; i < n; ++i) {
            if (vertices && r.chance(k.v.size() < 2 ? .9 : .15)) {
                Pt p = r.chance(.2) && !k.v.empty() ? k.v[r.next() % k.v.size()] : unit();
                if (r.chance(.05)) { p = {r.chance(.5) ? LON : -LON, r.range(-3, 3)}; if (!k.v.empty() && std::llabs(k.v.back().x) == LON && r.chance(.7)) p = {-k.v.back().x, k.v.back().y}; }
                else if (r.chance(.2) && !k.v.empty()) p = alike(r, k.v[k.v.size() - 1 - r.next() % std::min<size_t>(k.v.size(), 4)]);
                g.add_vertex(C(p));
                log += " vertex" + show(p);
                if (std::find(k.v.begin(), k.v.end(), p) == k.v.end()) k.v.push_back(p);
                tally("vertices_added");
                continue;
            }
            if (k.v.size() < 1) continue;
            // few vertices, so that operations meet on the same edges
            size_t few = r.chance(.7) ? std::min<size_t>(k.v.size(), 4) : k.v.size();
            Pt a = k.v[k.v.size() - 1 - r.next() % few], b = k.v[r.chance(.5) ? r.next() % few : k.v.size() - 1 - r.next() % few];
            bool over = r.chance(.4);
            switch (r.range(0, 4)) {
            case 0: g.add_edge(C(a), C(b), over); k.add(a, b, over); k.add(b, a, over); log += fmts(" add%d", over) + show(a) + show(b); break;
            case 1: g.add_directed_edge(C(a), C(b), over); k.add(a, b, over); log += fmts(" dir%d", over) + show(a) + show(b); break;
            case 2: g.remove_edge(C(a), C(b)); k.remove(a, b); k.remove(b, a); log += " rem" + show(a) + show(b); break;
            case 3: g.remove_directed_edge(C(a), C(b)); k.remove(a, b); log += " remdir" + show(a) + show(b); break;
            default: g.add_directed_edge(C(b), C(a), over); k.add(b, a, over); log += fmts(" dir%d", over) + show(b) + show(a); break;
            }
            tally("modifications");
        }
    };
    // the base graph, vertices added while it has edges, looked at between the changes
    std::string bad;
    for (int round = r.chance(.3) ? 1 : (int)r.range(2, 4); round-- > 0;) {
        edit(*base, m, (int)r.range(0, 12), true);
        bad = mismatch(*base, m);
        tally("evaluations");
        if (!bad.empty()) { violate("base graph: " + bad.substr(0, bad.find(' ')), bad + " after " + log); return; }
    }
    auto base_print = base->to_string_representation();
    std::shared_ptr<IGraph> under = base;
    std::vector<std::pair<std::shared_ptr<IGraph>, Model>> levels{{base, m}};
    int depth = r.chance(.3) ? 2 : 1;
    for (int d = 0; d < depth; ++d) {
        auto top = std::make_shared<ModifiedGraph>(under);
        log += " | overlay";
        Model k = levels.back().second;
        for (int round = 0; round < 3; ++round) {
            edit(*top, k, (int)r.range(1, 15), true);
            bad = mismatch(*top, k);
            tally("evaluations");
            tally("overlays_compared");
            if (!bad.empty()) { violate("overlay: " + bad.substr(0, bad.find(' ')), bad + " after " + log); return; }
        }
        for (auto &l : levels) {
            bad = mismatch(*l.first, l.second);
            if (!bad.empty()) { violate("graph under an overlay changed", bad + " after " + log); return; }
        }
        if (base->to_string_representation() != base_print) violate("graph under an overlay changed", log);
        // a graph with the same modifications, built as such
        if (d == depth - 1 && r.chance(.4)) { // the overlay alone keeps what it lies over
            levels.clear();
            under.reset();
            base.reset();
            edit(*top, k, (int)r.range(1, 9), true);
            bad = mismatch(*top, k);
            tally("overlays_left_alone");
            if (!bad.empty()) { violate("overlay: " + bad.substr(0, bad.find(' ')), bad + " after (the rest let go) " + log); return; }
        }
        if (r.chance(.5)) {
            Graph copy(to_polygons(w));
            for (auto &v : k.v) copy.add_vertex(C(v));
            for (auto &e : k.e) {
                Pt a{e.first.first.first, e.first.first.second}, b{e.first.second.first, e.first.second.second};
                if (e.second.direct) copy.add_directed_edge(C(a), C(b), false);
                if (e.second.over) copy.add_directed_edge(C(a), C(b), true);
            }
            auto dd = diff(edges_of(copy), edges_of(*top));
            if (!dd.empty()) violate("overlay differs from a modified copy", dd + " after " + log);
            if (copy.get_polygons() != top->get_polygons()) violate("overlay has other obstacles", log);
        }
        levels.push_back({top, k});
        under = top;
    }
    nontrivial(log);
    sample(log);
}

int main(int argc, char **argv) {
    ctx().count_cases = false;
    return run(argc, argv, [](long n, Rng &r) {
        if (ctx().prop == "C15") predicates(n, r);
        else if (ctx().prop == "C16") normal(n, r);
        else if (ctx().prop == "C21") equality(n, r);
        else overlay(n, r);
    });
}
