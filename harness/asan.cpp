// C14: every operation on well-formed and malformed obstacles, watched by sanitizers, checked containers and checked sorts.
#include "router.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"
#include <sstream>
using namespace h;

static Pt in_world(Pt p) { return {std::max(-LON, std::min(LON, p.x)), std::max(-LAT, std::min(LAT, p.y))}; }

static World malformed(Rng &r, std::string &kinds) {
    World w;
    Scene sc;
    if (r.chance(.5)) { sc = make_scene(r, pick_family(r), 20); w = sc.w; if (w.size() > 4) w.resize(4); kinds += sc.family; }
    i64 span = r.chance(.2) ? 3 : r.chance(.3) ? 1000 : r.chance(.5) ? 1000000 : 60000000;
    Pt o{r.range(-LON, LON), r.range(-LAT, LAT)};
    if (r.chance(.2)) o.x = r.chance(.5) ? LON : -LON;
    if (r.chance(.15)) o.y = r.chance(.5) ? LAT : -LAT;
    auto near_ = [&](i64 d) { return in_world({o.x + r.range(-d, d), o.y + r.range(-d, d)}); };
    auto some = [&]() -> Poly & { return w[r.next() % w.size()]; };
    for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) {
        Poly p;
        int kind = (int)r.range(0, 13);
        kinds += fmts(" %d", kind);
        tally(fmts("kind_%d", kind));
        switch (kind) {
        case 0: break; // no vertex
        case 1: p = {near_(span)}; break;
        case 2: p = {near_(span), near_(span)}; break;
        case 3: { Pt a = near_(span); for (int k = (int)r.range(2, 5); k-- > 0;) p.push_back(a); break; }
        case 4: { Pt a = near_(span), b = near_(span); for (int k = 0; k < 5; ++k) p.push_back(k % 2 ? a : b); break; } // there and back
        case 5: { Pt a = near_(span); for (int k = 0, m = (int)r.range(3, 6); k < m; ++k) p.push_back(in_world({a.x + r.range(-5, 5) * 10, a.y})); break; } // collinear
        case 6: for (int k = 0, m = (int)r.range(4, 9); k < m; ++k) p.push_back(near_(span)); break; // crosses itself
        case 7: { Pt a = near_(span); p = {a, in_world({a.x + span, a.y + 1}), in_world({a.x + 2 * span, a.y})}; break; } // sliver
        case 8: if (!w.empty()) { p = some(); if (!p.empty()) for (auto &v : p) v = in_world({v.x + 7, v.y}); } break; // over another
        case 9: if (!w.empty()) p = some(); break; // twice
        case 10: // sharing a corner or an edge with another
            if (!w.empty() && some().size() >= 2) {
                Poly &q = some();
                if (q.size() < 2) break;
                p = {q[0], near_(span), near_(span)};
                if (r.chance(.5)) p.push_back(q[1]);
            }
            break;
        case 11: { i64 s = span + 1; p = {in_world({o.x - s, o.y - s}), in_world({o.x + s, o.y - s}), in_world({o.x + s, o.y + s}), in_world({o.x - s, o.y + s})};
                   p.push_back(p[0]); p.push_back({o.x, o.y}); break; } // a pinched ring
        case 12: { // clockwise, with repetitions and collinear vertices
            Poly s = gen_star(r, o.x, o.y, span, (int)r.range(3, 8), .5L);
            for (auto &v : s) { v = in_world(v); p.push_back(v); if (r.chance(.4)) p.push_back(v); }
            std::reverse(p.begin(), p.end());
            break;
        }
        default: { // the edges of the world
            p = {{-LON, -LAT}, {LON, -LAT}, {LON, LAT}, {-LON, LAT}};
            if (r.chance(.5)) p = {{-LON, r.range(-LAT, LAT)}, {LON, r.range(-LAT, LAT)}, {r.range(-LON, LON), LAT}};
            if (r.chance(.3)) p = {{-LON, -LAT}, {LON, -LAT}, {LON, -LAT + 5000000}, {-LON, -LAT + 5000000}};
        }
        }
        w.push_back(p);
    }
    r.shuffle(w);
    return w;
}

template <class F> static void attempt(const char *what, F f) {
    try {
        f();
        tally(std::string("did_") + what);
    } catch (const std::exception &) {
        tally(std::string("raised_") + what);
    }
}

static void one(long n, Rng &r) {
    std::string kinds;
    World w = malformed(r, kinds);
    std::string text = show(w);
    fprintf(stderr, "case %ld %s\n", n, text.substr(0, 3000).c_str());
    size_t total = 0;
    for (auto &p : w) total += p.size();
    tally("rings", w.size());
    threads((int)r.range(1, 4), r.next(), (int)r.range(0, 2));
    auto point = [&]() -> Pt {
        Pt p{r.range(-LON, LON), r.range(-LAT, LAT)};
        if (total && r.chance(.85)) {
            const Poly *q = &w[r.next() % w.size()];
            for (int t = 0; t < 20 && q->empty(); ++t) q = &w[r.next() % w.size()];
            if (!q->empty()) {
                p = (*q)[r.next() % q->size()];
                Pt e = (*q)[r.next() % q->size()];
                if (r.chance(.3)) p = {(p.x + e.x) / 2, (p.y + e.y) / 2};
                if (r.chance(.5)) { i64 d = r.chance(.5) ? 3 : 2000000; p = in_world({p.x + r.range(-d, d), p.y + r.range(-d, d)}); }
            }
        }
        if (r.chance(.03)) p.x += r.chance(.5) ? PERIOD : -PERIOD;
        return p;
    };
    std::vector<Polygon> polys;
    attempt("polygons", [&] {
        polys = to_polygons(w);
        for (auto &p : polys) {
            p.get_line_segments();
            p.to_string_representation();
            std::hash<Polygon>()(p);
            for (auto &q : polys) (void)(p == q);
        }
    });
    for (auto &p : polys)
        attempt("loop", [&] { p.to_s2_loop(); p.to_s2_polygon(); });
    attempt("periodic", [&] { make_polygons_periodic(polys); });
    attempt("segments", [&] {
        for (int i = 0; i < 10; ++i) {
            LineSegment a(C(point()), C(point())), b(C(point()), C(point()));
            a.intersection_with_segment(b);
            a.on_segment(C(point()));
            a.project(C(point()), r.chance(.5) ? 0 : 1e-4f);
            std::hash<LineSegment>()(a);
        }
    });
    std::shared_ptr<Graph> g, part;
    attempt("graph", [&] { Graph e(polys); e.to_string_representation(); Graph none; none.to_string_representation(); (void)(e == none); });
    attempt("generate", [&] { g = VisgraphGenerator::generate(polys); });
    attempt("generate_range", [&] {
        size_t nv = 0;
        for (auto &p : polys) nv += p.get_vertices().size();
        size_t a = r.range(0, nv), b = r.range(a, nv);
        part = VisgraphGenerator::generate_with_shuffled_range(polys, a, b, (unsigned)r.next());
    });
    if (g && part) attempt("merge", [&] { auto m = merge_graphs({part, g, part}); m->to_string_representation(); });
    if (g) attempt("save", [&] {
        std::string f = ctx().scratch + "/asan.graph";
        GraphSerializer::serialize_to_file(g, f);
        auto l = GraphSerializer::deserialize_from_file(f);
        l->to_string_representation();
        std::string bytes;
        if (FILE *in = fopen(f.c_str(), "rb")) {
            int ch;
            while ((ch = fgetc(in)) != EOF) bytes += (char)ch;
            fclose(in);
        }
        for (int k = 0; k < 3 && !bytes.empty(); ++k) {
            std::string b = bytes;
            for (int m = (int)r.range(1, 4); m > 0; --m) b[r.next() % b.size()] = (char)r.next();
            if (r.chance(.3)) b.resize(r.next() % b.size() + 1);
            FILE *out = fopen((f + "2").c_str(), "wb");
            if (!out) throw HarnessError("cannot write " + f);
            fwrite(b.data(), 1, b.size(), out);
            fclose(out);
            attempt("load_damaged", [&] { GraphSerializer::deserialize_from_file(f + "2")->to_string_representation(); });
        }
    });
    if (g) attempt("overlay", [&] {
        ModifiedGraph o(g);
        for (int i = 0; i < 6; ++i) {
            Coordinate a = C(point()), b = C(point());
            o.add_vertex(a);
            o.add_edge(a, b, r.chance(.5));
            o.remove_edge(b, a);
            o.get_neighbors(a);
            o.has_edge(a, b);
        }
        o.get_vertices();
    });
    attempt("vistrees", [&] {
        std::unique_ptr<VistreeGenerator> maker;
        {
            auto periodic = make_polygons_periodic(polys); // gone when the generator is asked
            maker = std::make_unique<VistreeGenerator>(periodic);
        }
        VistreeGenerator &tree = *maker;
        for (int i = 0; i < 8; ++i) {
            auto v = tree.get_visible_vertices(C(point()), r.chance(.5));
            tally("visible_vertices", v.size());
        }
        std::vector<std::shared_ptr<LineSegment>> some;
        for (auto &p : polys)
            for (auto &s : p.get_line_segments())
                if (r.chance(.6)) some.push_back(std::make_shared<LineSegment>(s));
        for (int i = 0; i < 3; ++i) tree.get_visible_vertices_from_candidate_segments(C(point()), some, r.chance(.5));
    });
    attempt("vistrees_of_segments", [&] {
        std::vector<std::shared_ptr<LineSegment>> some; // ends may be loose
        for (auto &p : polys)
            for (auto &s : p.get_line_segments())
                if (r.chance(.7)) some.push_back(std::make_shared<LineSegment>(s));
        VistreeGenerator tree(some);
        some.clear();
        for (int i = 0; i < 6; ++i) tree.get_visible_vertices(C(point()), r.chance(.5));
        VistreeGenerator nothing((std::vector<Polygon>()));
        nothing.get_visible_vertices(C(point()));
    });
    attempt("default_objects", [&] {
        Polygon none;
        none.get_line_segments();
        none.to_string_representation();
        std::hash<Polygon>()(none);
        (void)(none == Polygon(std::vector<Coordinate>()));
        Graph with(std::vector<Polygon>{none, none});
        with.to_string_representation();
        SpatialSegmentIndex index({none});
        index.is_point_contained(C(point()));
    });
    attempt("index", [&] {
        auto copies = std::make_unique<std::vector<Polygon>>(to_polygons(w));
        SpatialSegmentIndex index(*copies);
        copies.reset();
        for (int i = 0; i < 8; ++i) {
            Coordinate a = C(point()), b = C(point());
            attempt("index_queries", [&] {
                index.is_point_contained(a);
                auto near_ = index.segments_within_distance_of_point(a, r.unit());
                tally("segments_found", near_.size());
                index.intersect_with_segments(LineSegment(a, b));
                index.does_segment_intersect_with_segments(LineSegment(a, a));
                index.closest_segment_to_point(b);
            });
        }
    });
    attempt("after_their_origins", [&] { // objects whose origins are gone
        auto copies = std::make_unique<std::vector<Polygon>>(to_polygons(w));
        std::vector<LineSegment> found;
        std::unique_ptr<LineSegment> nearest;
        {
            SpatialSegmentIndex index(*copies);
            attempt("query", [&] { found = index.segments_within_distance_of_point(C(point()), r.unit() * .2); });
            attempt("query", [&] { nearest = std::make_unique<LineSegment>(index.closest_segment_to_point(C(point()))); });
        }
        Graph made(*copies);
        copies.reset();
        tally("outlived", found.size());
        for (auto &s : found)
            if (nearest) s.on_segment(nearest->get_endpoint_1());
        for (auto &v : made.get_vertices()) made.get_neighbors(v);
        made.to_string_representation();
        auto under = std::make_shared<Graph>(to_polygons(w));
        ModifiedGraph o(under);
        auto computer = std::make_unique<ShortestPathComputer>(under);
        auto vs = under->get_vertices();
        if (vs.size() > 1) under->add_edge(vs[0], vs[1], false);
        under.reset();
        for (auto &v : vs) { o.get_neighbors(v); o.add_edge(v, vs[0], true); o.remove_edge(vs[0], v); }
        o.get_polygons();
        o.get_vertices();
        for (int i = 0; i < 3; ++i) attempt("path", [&] { computer->shortest_path(C(point()), C(point()), INFINITY, r.chance(.5), 1); });
        computer.reset();
        o.get_vertices();
    });
    if (g) attempt("computer", [&] {
        ShortestPathComputer comp(g);
        if (r.chance(.5)) { g.reset(); part.reset(); }
        std::vector<std::pair<Coordinate, Coordinate>> pairs;
        for (int i = 0; i < 8; ++i) {
            Coordinate a = C(point()), b = C(point());
            pairs.push_back({a, b});
            attempt("path", [&] { comp.shortest_path(a, b, r.chance(.3) ? r.unit() * 50 : INFINITY, r.chance(.5), r.chance(.5) ? 1 : r.unit() * 10); });
        }
        attempt("batch", [&] { comp.shortest_paths(pairs, INFINITY, r.chance(.5), 1); });
    });
    nontrivial(text);
    sample(kinds + " " + text);
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long n, Rng &r) {
        one(n, r);
        tally("sorts_checked", __atomic_exchange_n(&verif::sorts_checked, 0, __ATOMIC_RELAXED));
    });
}
