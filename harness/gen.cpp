// C03: the generated graph depends on the obstacles alone.  C13: merging is the union.
#include "h.hpp"
#include "visgraph/visgraph_generator.hpp"
using namespace h;

typedef std::shared_ptr<Graph> G;

static std::multiset<std::pair<i64, i64>> vertex_set(const Graph &g) {
    std::multiset<std::pair<i64, i64>> s;
    for (auto &v : g.get_vertices()) s.insert({v.get_longitude_microdegrees(), v.get_latitude_microdegrees()});
    return s;
}
static Poly canonical(const Poly &p) { // starting at the smallest vertex
    Poly q = p;
    std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end());
    return q;
}
static std::multiset<Poly> polygon_set(const Graph &g) {
    std::multiset<Poly> s;
    for (auto &p : g.get_polygons()) s.insert(canonical(from_polygon(p)));
    return s;
}
static World present(World w, Rng &r, int how) {
    if (how & 1) r.shuffle(w);
    for (auto &p : w) {
        if (how & 2) std::rotate(p.begin(), p.begin() + r.next() % p.size(), p.end());
        if ((how & 4) && r.chance(.6)) std::reverse(p.begin(), p.end());
    }
    return w;
}

static void c03(Rng &r) {
    int f = r.chance(.2) ? pick_rare(r) : pick_family(r);
    if (ctx().mode == "yield" && (f == 7 || f == 9)) f = 0; // smaller scenes where accesses are perturbed
    bool many = ctx().mode.empty() && r.chance(.006);
    Scene s = many ? scene_of_many(r, (int)r.range(257, 500)) : make_scene(r, f, ctx().mode == "yield" ? 30 : 60);
    if (many) tally("scenes_of_many_corners");
    if (s.w.empty()) { // no obstacles
        tally("empty_scenes");
        threads((int)r.range(1, 8), r.next(), 0);
        G a = VisgraphGenerator::generate({}), b = VisgraphGenerator::generate_with_shuffled_range({}, 0, 0, (unsigned)r.next());
        for (auto &g : {a, b, merge_graphs({a, b}), merge_graphs({b})})
            if (!g->get_vertices().empty() || !g->get_polygons().empty() || !(*g == *a)) violate("graph-of-nothing", g->to_string_representation());
        return;
    }
    size_t nv = corners(s.w).size();
    yields(0);
    threads(1, 1, 0);
    G base = VisgraphGenerator::generate(to_polygons(s.w));
    EdgeMap want = edges_of(*base);
    auto vs = vertex_set(*base);
    auto ps = polygon_set(*base);
    long compared = 0;
    auto same = [&](const Graph &g, const std::string &how) {
        compared++;
        tally("evaluations");
        if (vertex_set(g) != vs) violate("vertices-differ", how + " in " + show(s.w));
        else if (polygon_set(g) != ps) violate("obstacles-differ", how + " in " + show(s.w));
        else {
            std::string d = diff(want, edges_of(g));
            if (!d.empty()) violate("graph-differs", how + ": " + d + " (first: plain sequential generation) in " + show(s.w));
        }
    };
    int n = ctx().thorough ? 8 : 5;
    for (int k = 0; k < n; ++k) {
        int how = (int)r.range(0, 7), t = (int)r.range(1, r.chance(.1) ? 40 : 8);
        World w = present(s.w, r, how);
        yields(r.chance(.5) ? 40 : 200);
        threads(t, r.next(), (int)r.range(0, 2));
        G g = VisgraphGenerator::generate(to_polygons(w));
        yields(0);
        tally(t > 1 ? "parallel_generations" : "sequential_generations");
        nontrivial(fmts("%llx", (unsigned long long)schedule_trace()) + show(w));
        same(*g, fmts("presentation %d, %d threads", how, t));
    }
    // in shuffled ranges, merged
    for (int k = 0; k < (ctx().thorough ? 6 : 3); ++k) {
        unsigned seed = r.chance(.1) ? (r.chance(.5) ? 0u : r.chance(.5) ? ~0u : 1u) : (unsigned)r.next();
        int parts = (int)r.range(1, std::min<i64>(8, (i64)nv + 2));
        std::vector<size_t> cut{0, nv};
        for (int i = 1; i < parts; ++i) cut.push_back((size_t)r.range(0, nv)); // empty ranges occur
        std::sort(cut.begin(), cut.end());
        auto polys = to_polygons(s.w);
        std::vector<G> gs;
        for (size_t i = 0; i + 1 < cut.size(); ++i) {
            yields(r.chance(.5) ? 40 : 200);
            threads((int)r.range(1, r.chance(.05) ? 40 : 8), r.next(), (int)r.range(0, 2));
            gs.push_back(VisgraphGenerator::generate_with_shuffled_range(polys, cut[i], cut[i + 1], seed));
            yields(0);
            EdgeMap part = edges_of(*gs.back());
            for (auto &e : part) {
                auto it = want.find(e.first);
                if (it == want.end()) { violate("part-has-foreign-edge", show_edge(e.first) + fmts(" range %zu-%zu seed %u in ", cut[i], cut[i + 1], seed) + show(s.w)); break; }
            }
            if (cut[i] == cut[i + 1] && !part.empty()) violate("empty-range-has-edges", fmts("range %zu-%zu in ", cut[i], cut[i + 1]) + show(s.w));
            tally("ranges");
        }
        r.shuffle(gs);
        threads((int)r.range(1, 8), r.next(), (int)r.range(0, 2));
        G m = merge_graphs(gs);
        std::string c;
        for (auto x : cut) c += std::to_string(x) + " ";
        same(*m, fmts("merge of ranges of seed %u cut at ", seed) + c);
    }
    // improper ranges are refused
    for (int k = 0; k < 2; ++k) {
        size_t a = (size_t)r.range(0, nv + 2), b = (size_t)r.range(0, nv + 2);
        bool proper = a <= b && b <= nv, raised = false;
        try { VisgraphGenerator::generate_with_shuffled_range(to_polygons(s.w), a, b, 3); } catch (const std::exception &) { raised = true; }
        if (raised == proper) violate("range-acceptance", fmts("range %zu-%zu of %zu vertices %s", a, b, nv, raised ? "refused" : "accepted"));
    }
    tally("graphs_compared", compared);
    tally("edges_compared", compared * (long)want.size());
    sample(s.family + fmts(": %ld graphs of ", compared) + show(s.w));
}

// a pool of obstacles of which graphs use subsets
static void c13(Rng &r) {
    int npoly = (int)r.range(1, 8);
    World pool;
    i64 mul = r.chance(.3) ? 19000000 : 100;
    for (int i = 0; i < npoly; ++i) {
        i64 cx = (i % 3 - 1) * 6 * mul + r.range(-mul, mul), cy = (i / 3 - 1) * 3 * (mul == 100 ? 2 * mul : mul / 2);
        Poly p;
        do p = gen_star(r, cx, cy, mul * 0.6L, (int)r.range(3, 8), 0.6L); while (!simple_poly(p));
        pool.push_back(p);
    }
    if (r.chance(.2)) { // an obstacle whose hash, as those of its corners, is another's
        Poly p = pool[r.next() % pool.size()], q;
        for (auto &v : p) q.push_back(alike(r, v, mul / 300 + 3));
        auto have = corners(pool);
        std::set<Pt> all(have.begin(), have.end());
        bool ok = simple_poly(q);
        for (auto &v : q) ok = ok && all.insert(v).second;
        if (ok && (area2(p) > 0) == (area2(q) > 0) && area2(q) != 0) { pool.push_back(q); tally("obstacles_alike"); }
    }
    int ng = r.chance(.02) ? (int)r.range(7, 70) : (int)r.range(0, 6);
    if (ng > 6) tally("merges_of_many_graphs");
    // which pairs may be edges: over the whole pool
    auto all = corners(pool);
    std::set<Poly> want_polys;
    std::map<std::pair<Pt, Pt>, bool> want; // undirected, both orders; value: crossing
    std::vector<G> gs;
    std::vector<EdgeMap> before;
    std::vector<std::string> before_text;
    bool all_polys = r.chance(.4);
    int hot = (int)r.range(2, 12); // edges are drawn from few pairs, so that graphs share them
    std::vector<std::pair<Pt, Pt>> hotpairs;
    for (int i = 0; i < hot; ++i) hotpairs.push_back({all[r.next() % all.size()], all[r.next() % all.size()]});
    for (int k = 0; k < ng; ++k) {
        World mine;
        for (auto &p : pool)
            if (all_polys || r.chance(.6)) mine.push_back(p);
        if (r.chance(.5)) r.shuffle(mine);
        auto vs = corners(mine);
        std::set<Pt> has(vs.begin(), vs.end());
        G g = std::make_shared<Graph>(to_polygons(mine));
        std::map<std::pair<Pt, Pt>, int> state;
        int ne = vs.size() < 2 ? 0 : (int)r.range(0, 40);
        for (int e = 0; e < ne; ++e) {
            std::pair<Pt, Pt> pr = r.chance(.5) ? hotpairs[r.next() % hotpairs.size()] : std::make_pair(vs[r.next() % vs.size()], vs[r.next() % vs.size()]);
            if (pr.first == pr.second || !has.count(pr.first) || !has.count(pr.second)) continue;
            bool x = r.chance(.5);
            g->add_edge(C(pr.first), C(pr.second), x);
            state[pr] |= x ? 2 : 1;
            state[{pr.second, pr.first}] |= x ? 2 : 1;
        }
        for (auto &e : state) {
            bool x = e.second == 2;
            auto it = want.find(e.first);
            if (it == want.end()) want[e.first] = x;
            else it->second = it->second && x;
        }
        for (auto &p : mine) { Poly q = p; make_ccw(q); want_polys.insert(canonical(q)); }
        gs.push_back(g);
    }
    for (auto &g : gs) { before.push_back(edges_of(*g)); before_text.push_back(g->to_string_representation()); }
    std::string first_text;
    for (int t = 0; t < (ctx().thorough ? 6 : 3); ++t) {
        std::vector<G> in = gs;
        r.shuffle(in);
        if (!in.empty() && r.chance(.5)) in.push_back(in[r.next() % in.size()]); // a repetition
        int nt = (int)r.range(1, 8);
        threads(nt, r.next(), (int)r.range(0, 2));
        yields(r.chance(.5) ? 30 : 150);
        G m = in.size() >= 2 && r.chance(.25)
                  ? merge_graphs({merge_graphs(std::vector<G>(in.begin(), in.begin() + in.size() / 2)), merge_graphs(std::vector<G>(in.begin() + in.size() / 2, in.end()))})
                  : merge_graphs(in);
        yields(0);
        std::string at = fmts("merge of %zu graphs on %d threads, obstacles ", in.size(), nt) + show(pool);
        auto ps = polygon_set(*m);
        if (ps != std::multiset<Poly>(want_polys.begin(), want_polys.end())) violate("obstacles", at);
        EdgeMap got = edges_of(*m), w;
        for (auto &e : want) w[{{e.first.first.x, e.first.first.y}, {e.first.second.x, e.first.second.y}}] = e.second;
        std::string d = diff(w, got);
        if (!d.empty()) violate("edges", d + " (first: expected) " + at);
        size_t nv = 0;
        for (auto &p : want_polys) nv += p.size();
        if (m->get_vertices().size() != nv) violate("vertices", at);
        std::string text = m->to_string_representation();
        if (first_text.empty()) first_text = text;
        else if (text != first_text) violate("order-dependent", at);
        for (size_t i = 0; i < gs.size(); ++i)
            if (!diff(before[i], edges_of(*gs[i])).empty() || gs[i]->to_string_representation() != before_text[i]) violate("input-changed", at);
        // the result is a graph of its own: changing it changes no input, nor the other way round
        if (m->get_vertices().size() >= 2) {
            auto vs = m->get_vertices();
            for (int e = 0; e < 4; ++e) {
                const Coordinate &u = vs[r.next() % vs.size()], &v = vs[r.next() % vs.size()];
                if (r.chance(.5)) m->add_edge(u, v, r.chance(.5));
                else m->remove_edge(u, v);
            }
            if (!got.empty()) {
                auto it = got.begin();
                std::advance(it, r.next() % got.size());
                m->remove_edge(C({it->first.first.first, it->first.first.second}), C({it->first.second.first, it->first.second.second}));
            }
            for (size_t i = 0; i < gs.size(); ++i)
                if (gs[i]->to_string_representation() != before_text[i]) violate("input-shared", at);
            tally("merged_graphs_altered");
        }
        tally("merges");
        tally("evaluations");
        tally("edges_checked", (long)got.size());
        if (in.size() >= 2 && !got.empty()) nontrivial(text + fmts("%llx", (unsigned long long)schedule_trace()) + std::to_string(in.size()));
    }
    sample(fmts("%d graphs over %d obstacles, %zu expected edges", ng, npoly, want.size()));
}

// graphs of more vertices than fit into small numbers
static void c13_big(Rng &r) {
    World pool;
    int sizes[3] = {(int)r.range(200, 700), (int)r.range(200, 700), (int)r.range(3, 300)};
    for (int i = 0; i < 3; ++i) {
        Poly p;
        for (int k = 0; k < sizes[i]; ++k) p.push_back(Pt{(i64)llroundl(i * 30000000 + 9000000 * cosl(2 * M_PIl * k / sizes[i])), (i64)llroundl(9000000 * sinl(2 * M_PIl * k / sizes[i]))});
        pool.push_back(p);
    }
    std::vector<G> gs;
    EdgeMap want;
    for (int g = 0; g < 2; ++g) {
        World mine = pool;
        if (g) mine.erase(mine.begin() + r.next() % 3);
        auto vs = corners(mine);
        auto gr = std::make_shared<Graph>(to_polygons(mine));
        for (size_t i = 0; i < vs.size(); ++i)
            for (size_t j : {i + 1, (size_t)r.next() % vs.size()}) {
                j %= vs.size();
                if (i == j) continue;
                gr->add_edge(C(vs[i]), C(vs[j]), false);
                want[{{vs[i].x, vs[i].y}, {vs[j].x, vs[j].y}}] = want[{{vs[j].x, vs[j].y}, {vs[i].x, vs[i].y}}] = false;
            }
        gs.push_back(gr);
    }
    threads((int)r.range(1, 4), r.next(), 0);
    auto m = merge_graphs(gs);
    std::string d = diff(want, edges_of(*m));
    if (!d.empty()) violate("edges", d + fmts(" (first: expected) merge of graphs over rings of %d, %d and %d corners", sizes[0], sizes[1], sizes[2]));
    tally("merges_of_many_vertices");
    tally("merges");
    tally("evaluations");
    nontrivial(fmts("rings of %d, %d and %d", sizes[0], sizes[1], sizes[2]) + m->to_string_representation());
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long, Rng &r) { ctx().count_cases = false; ctx().prop == "C13" ? (ctx().mode.empty() && r.chance(.002) ? c13_big(r) : c13(r)) : c03(r); });
}
