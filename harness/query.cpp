// C08: batch answers equal single answers.  C18: nothing depends on where the antimeridian falls.  C20: queries leave no trace.
#include "router.hpp"
#include "serialization/graph_serializer.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include <optional>
#include <thread>
#include <sys/socket.h>
#include <sys/wait.h>
using namespace h;

struct Query {
    Pt s, d;
    double limit;
    bool correct;
    double greed;
    std::string text() const { return "from " + show(s) + " to " + show(d) + fmts(" limit %.17g correct %d greed %g", limit, correct, greed); }
};
static const double GREEDS[] = {0, 0.4, 1, 1, 1.5, 4};
static Pt far_copy(Rng &r, Pt p) { // now and then a period or more out of range
    if (r.chance(.12)) p.x += r.range(-4, 4) * PERIOD;
    return p;
}
static Query make_query(Rng &r, const Place &pl) {
    Query q;
    q.s = query_point(r, pl, .15, .1);
    q.d = r.chance(.05) ? q.s : query_point(r, pl, .15, .1);
    q.limit = r.chance(.3) ? nearest(q.s, q.d) * (0.8 + 1.2 * r.unit()) : INFINITY;
    q.correct = r.chance(.5);
    q.greed = GREEDS[r.next() % 6];
    q.s = far_copy(r, q.s);
    q.d = far_copy(r, q.d);
    return q;
}
static Answer ask(const ShortestPathComputer &c, const Query &q) { return h::ask(c, q.s, q.d, q.limit, q.correct, q.greed); }
static Scene a_scene(Rng &r, int maxv) {
    int f = pick_family(r);
    if (f == 9 || (maxv < 40 && f == 7)) f = 0;
    if (r.chance(.12)) f = pick_rare(r);
    if (maxv >= 40 && r.chance(.006)) {
        tally("scenes_of_many_corners");
        return scene_of_many(r, (int)r.range(100, 330));
    }
    return make_scene(r, f, maxv);
}

// ---------------------------------------------------------------------------------------------- C08
static void c08(Rng &r) {
    bool slow = ctx().mode == "yield";
    Scene sc = a_scene(r, slow ? 30 : 40);
    if (sc.w.empty()) { tally("empty_scenes"); return; }
    threads(1);
    yields(0);
    Place pl(sc, false);
    if (!pl.graph) { tally("scenes_not_valid_on_the_sphere"); return; }
    ShortestPathComputer other(pl.graph);
    for (int b = 0; b < (ctx().thorough ? 6 : 3); ++b) {
        int kind = (int)r.range(0, 9);
        size_t n = kind == 0 ? 0 : kind == 1 ? 1 : kind < 8 ? (size_t)r.range(2, 24) : (size_t)r.range(25, slow ? 40 : 160);
        if (!slow && r.chance(.01) && pl.vs.size() < 40) { n = (size_t)r.range(257, r.chance(.2) ? 2200 : 600); tally("batches_of_hundreds"); }
        Query common = make_query(r, pl);
        std::vector<Query> qs;
        std::vector<std::pair<Coordinate, Coordinate>> pairs;
        for (size_t i = 0; i < n; ++i) {
            Query q = make_query(r, pl);
            if (!qs.empty() && r.chance(.1)) q = qs[r.next() % qs.size()]; // the same pair twice
            if (!qs.empty() && r.chance(.15)) { // one of the last pairs the other way round, or sharing an end with it
                const Query &e = qs[qs.size() - 1 - r.next() % std::min<size_t>(qs.size(), 3)];
                if (r.chance(.5)) { q.s = e.d; q.d = e.s; }
                else if (r.chance(.5)) q.s = e.s;
                else q.d = e.d;
            }
            q.limit = common.limit;
            q.correct = common.correct;
            q.greed = common.greed;
            qs.push_back(q);
            pairs.push_back({C(q.s), C(q.d)});
        }
        std::vector<Answer> single;
        bool before = r.chance(.5);
        if (before) for (auto &q : qs) single.push_back(ask(r.chance(.5) ? *pl.computer : other, q));
        int nt = (int)r.range(1, 8);
        threads(nt, r.next(), (int)r.range(0, 2));
        if (slow) yields(r.chance(.5) ? 60 : 300);
        auto got = pl.computer->shortest_paths(pairs, common.limit, common.correct, common.greed);
        yields(0);
        if (!before) for (auto &q : qs) single.push_back(ask(other, q));
        tally("batches");
        std::string at = fmts("batch of %zu on %d threads", n, nt) + " in " + show(sc.w);
        if (got.size() != n) { violate("number-of-results", at + fmts(": %zu results", got.size())); continue; }
        long failed = 0, routed = 0;
        for (size_t i = 0; i < n; ++i) {
            bool malformed;
            Answer a = from_batch(got[i], malformed);
            tally("evaluations");
            if (malformed) violate("both-or-neither", fmts("pair %zu of ", i) + at + ": " + qs[i].text());
            else if (!(a == single[i])) violate("differs-from-single", fmts("pair %zu of ", i) + at + ": " + qs[i].text() + "; batch: " + a.text() + "; single: " + single[i].text());
            failed += a.raised;
            routed += a.path.size() > 2;
        }
        tally("failed_pairs", failed);
        tally("routed_pairs", routed);
        if (n > 1 && nt > 1) tally("parallel_batches");
        if (n > 1 && failed < (long)n) nontrivial(at + fmts("%llx", (unsigned long long)schedule_trace()));
        sample(at + fmts(": %ld failed, %ld with waypoints", failed, routed));
    }
}

// ---------------------------------------------------------------------------------------------- C20
static std::string graph_text(const Graph &g) {
    std::string s = g.to_string_representation();
    for (auto &p : g.get_polygons()) s += show(from_polygon(p));
    for (auto &v : g.get_vertices()) s += show(P(v));
    return s;
}
static std::string tree_text(const std::vector<VisibleVertex> &t) {
    std::vector<std::string> v;
    for (auto &x : t) v.push_back(show(P(x.coord)) + (x.is_visible_across_meridian ? "~" : ""));
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto &x : v) s += x;
    return s;
}
struct Story { // what is asked in one case; made without using the library's generation or queries
    Scene sc;
    std::unique_ptr<Place> pl;
    World worlds[2]; // the scene, and another that differs a little
    std::vector<Query> qs;
    std::vector<Pt> obs;
    explicit Story(Rng &r) {
        bool slow = ctx().mode == "yield";
        sc = a_scene(r, slow ? 24 : 40);
        if (sc.w.empty()) return;
        pl = std::make_unique<Place>(sc, false, false);
        if (!pl->sph.valid) { pl.reset(); return; }
        int n = slow ? 10 : 16;
        for (int i = 0; i < n; ++i) {
            qs.push_back(make_query(r, *pl));
            if (i && r.chance(.25)) { // sharing an end with an earlier query
                qs.back().s = qs[r.next() % i].s;
                if (r.chance(.3)) std::swap(qs.back().s, qs.back().d);
            }
            if (i && r.chance(.2)) { qs.back() = qs[r.next() % i]; qs.back().greed = GREEDS[r.next() % 6]; qs.back().correct = r.chance(.5); if (r.chance(.4)) qs.back().limit = r.chance(.5) ? INFINITY : nearest(qs.back().s, qs.back().d) * (0.7 + r.unit()); }
        }
        for (int i = 0; i < 5; ++i) obs.push_back(query_point(r, *pl, 0, .5));
        worlds[0] = worlds[1] = sc.w;
        World &o = worlds[1];
        size_t k = r.next() % o.size();
        if (o.size() > 1 && r.chance(.6)) o.erase(o.begin() + k);
        else
            for (int t = 0; t < 10; ++t) { // one corner less
                Poly p = o[k];
                if (p.size() < 4) break;
                p.erase(p.begin() + r.next() % p.size());
                bool ok = simple_poly(p) && clearance_within(p) > 5;
                for (size_t j = 0; j < o.size() && ok; ++j) ok = j == k || poly_gap(p, o[j]) > 5;
                if (ok) { make_ccw(p); o[k] = p; break; }
            }
    }
};
// Answers from processes in which nothing was asked before: a process forked before the first case makes one for each
// world, which generates its graph, and there one for each question.
struct Pristine {
    std::string text, edges;
    std::vector<std::string> answers, trees;
};
// The same content built step by step in one way, so that ties between routes are always broken alike.
static Graph *rebuild(const Graph &g, void *at = nullptr) {
    Graph *n = at ? new (at) Graph(g.get_polygons()) : new Graph(g.get_polygons());
    for (auto &e : edges_of(g)) n->add_directed_edge(C(Pt{e.first.first.first, e.first.first.second}), C(Pt{e.first.second.first, e.first.second.second}), e.second);
    return n;
}
static std::string edges_text(const EdgeMap &m) {
    std::string s;
    for (auto &e : m) s += show_edge(e.first) + (e.second ? "~" : "");
    return s;
}
class Zygote {
    int fd = -1;
    static bool all(int f, void *b, size_t n, bool out) {
        char *c = (char *)b;
        while (n) {
            ssize_t k = out ? write(f, c, n) : read(f, c, n);
            if (k <= 0) return false;
            c += k;
            n -= k;
        }
        return true;
    }
    static void put(int f, const std::string &s) {
        uint64_t n = s.size();
        if (!all(f, &n, sizeof n, true) || !all(f, (void *)s.data(), n, true)) _exit(4);
    }
    static bool get(int f, std::string &s) {
        uint64_t n;
        if (!all(f, &n, sizeof n, false) || n > (1u << 30)) return false;
        s.resize(n);
        return all(f, s.data(), n, false);
    }
    static std::string elsewhere(const std::function<std::string()> &f) { // in a child
        int p[2];
        if (pipe(p)) _exit(4);
        pid_t c = fork();
        if (c < 0) _exit(4);
        if (!c) {
            close(p[0]);
            put(p[1], f());
            _exit(0);
        }
        close(p[1]);
        std::string s;
        if (!get(p[0], s)) s = "the process ended";
        close(p[0]);
        waitpid(c, nullptr, 0);
        return s;
    }
    static void serve(int f) {
        for (;;) {
            long n;
            if (!all(f, &n, sizeof n, false)) _exit(0);
            for (int w = 0; w < 2; ++w) {
                pid_t c = fork();
                if (c < 0) _exit(4);
                if (!c) {
                    threads(1);
                    yields(0);
                    Rng r = case_rng(n);
                    Story st(r);
                    if (!st.pl) _exit(5);
                    std::shared_ptr<Graph> g(rebuild(*VisgraphGenerator::generate(to_polygons(st.worlds[w]))));
                    put(f, elsewhere([&] { return graph_text(*g); }));
                    put(f, elsewhere([&] { return edges_text(edges_of(*g)); }));
                    for (auto &q : st.qs) put(f, elsewhere([&] { return ask(ShortestPathComputer(g), q).text(); }));
                    for (auto &o : st.obs)
                        put(f, elsewhere([&] { return tree_text(VistreeGenerator(make_polygons_periodic(to_polygons(st.worlds[w]))).get_visible_vertices(C(o))); }));
                    _exit(0);
                }
                int status;
                waitpid(c, &status, 0);
                if (!WIFEXITED(status) || WEXITSTATUS(status)) _exit(4);
            }
        }
    }

  public:
    Zygote() {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) throw HarnessError("socketpair");
        pid_t c = fork();
        if (c < 0) throw HarnessError("fork");
        if (!c) { close(p[0]); serve(p[1]); }
        close(p[1]);
        fd = p[0];
    }
    void ask_for(long n) { if (!all(fd, &n, sizeof n, true)) throw HarnessError("no pristine process"); }
    Pristine next(const Story &st) {
        Pristine x;
        auto one = [&](std::string &s) { if (!get(fd, s)) throw HarnessError("no pristine answer"); };
        one(x.text);
        one(x.edges);
        x.answers.resize(st.qs.size());
        x.trees.resize(st.obs.size());
        for (auto &s : x.answers) one(s);
        for (auto &s : x.trees) one(s);
        return x;
    }
};
static Zygote *g_zygote = nullptr;

static void c20(Rng &r) {
    bool slow = ctx().mode == "yield";
    Story st(r);
    if (st.sc.w.empty()) { tally("empty_scenes"); return; }
    if (!st.pl) { tally("scenes_not_valid_on_the_sphere"); return; }
    g_zygote->ask_for(ctx().current);
    threads(1);
    yields(0);
    Place &pl = *st.pl;
    auto &qs = st.qs;
    auto &obs = st.obs;
    auto polys = to_polygons(st.sc.w);
    pl.graph = std::shared_ptr<Graph>(rebuild(*VisgraphGenerator::generate(polys)));
    pl.computer = std::make_unique<ShortestPathComputer>(pl.graph);
    std::string text = graph_text(*pl.graph), where = " in " + show(st.sc.w);
    EdgeMap edges = edges_of(*pl.graph);
    std::shared_ptr<Graph> copy(rebuild(*pl.graph));
    VistreeGenerator tree(make_polygons_periodic(polys));
    Pristine pristine[2] = {g_zygote->next(st), g_zygote->next(st)};
    std::vector<Answer> want; // of computers that have never been asked anything, in a process that has
    for (auto &q : qs) want.push_back(ask(ShortestPathComputer(copy), q));
    std::vector<std::string> &want_tree = pristine[0].trees;
    for (size_t i = 0; i < qs.size(); ++i)
        if (want[i].text() != pristine[0].answers[i])
            violate("answer-depends-on-earlier-uses", qs[i].text() + "; in a new process: " + pristine[0].answers[i] + "; now: " + want[i].text() + where);
    // other objects for other worlds, in the same places
    {
        alignas(64) static unsigned char g_at[sizeof(Graph)];
        static std::optional<ShortestPathComputer> comp;
        static std::optional<VistreeGenerator> gen_;
        std::vector<size_t> same_q{r.next() % qs.size(), r.next() % qs.size(), r.next() % qs.size()};
        std::vector<size_t> same_o{r.next() % obs.size(), r.next() % obs.size()};
        int rounds = slow ? 3 : 5;
        for (int k = 0; k < rounds; ++k) {
            int w = (int)((k + r.range(0, 3) / 3) % 2);
            const World &world = st.worlds[w];
            auto ps = to_polygons(world);
            threads((int)r.range(1, 3), r.next(), 0);
            auto made = VisgraphGenerator::generate(ps);
            threads(1);
            std::string at = " in " + show(world) + fmts(" (world %d) after ", w) + show(st.worlds[0]) + " and " + show(st.worlds[1]);
            tally("evaluations");
            EdgeMap me = edges_of(*made);
            if (edges_text(me) != pristine[w].edges) violate("generation-depends-on-earlier-uses", at);
            Graph *g = rebuild(*made, g_at);
            std::string f = ctx().scratch + "/same";
            std::shared_ptr<Graph> there(g, [](Graph *) {});
            GraphSerializer::serialize_to_file(there, f);
            if (edges_text(edges_of(*GraphSerializer::deserialize_from_file(f))) != pristine[w].edges) violate("file-depends-on-earlier-uses", at);
            comp.emplace(std::static_pointer_cast<IGraph>(there));
            gen_.emplace(make_polygons_periodic(ps));
            for (int j = 0; j < 4; ++j) {
                size_t i = j < 3 ? same_q[j] : r.next() % qs.size();
                Answer a = ask(*comp, qs[i]);
                tally("evaluations");
                tally("answers_in_reused_places");
                if (a.text() != pristine[w].answers[i])
                    violate("answer-depends-on-earlier-uses", qs[i].text() + "; in a new process: " + pristine[w].answers[i] + "; now: " + a.text() + at);
            }
            for (int j = 0; j < 3; ++j) {
                size_t i = j < 2 ? same_o[j] : r.next() % obs.size();
                tally("evaluations");
                if (tree_text(gen_->get_visible_vertices(C(obs[i]))) != pristine[w].trees[i]) violate("visibility-depends-on-earlier-uses", show(obs[i]) + at);
            }
            comp.reset();
            gen_.reset();
            g->~Graph();
        }
    }
    auto check = [&](size_t i, const Answer &a, const char *when) {
        tally("evaluations");
        if (!(a == want[i])) violate("answer-changed", std::string(when) + ": " + qs[i].text() + "; fresh: " + want[i].text() + "; now: " + a.text() + where);
    };
    auto unchanged = [&](const char *when) {
        tally("evaluations");
        if (graph_text(*pl.graph) != text || !diff(edges, edges_of(*pl.graph)).empty()) violate("graph-changed", std::string(when) + where);
    };
    // a history of single queries, batches and other uses
    std::string history;
    for (int step = 0; step < (ctx().thorough ? 60 : 24); ++step) {
        int what = (int)r.range(0, 9);
        history += (char)('0' + what);
        if (what < 5) {
            size_t i = r.next() % qs.size();
            check(i, ask(*pl.computer, qs[i]), "after a history of queries");
        } else if (what == 5) {
            size_t i = r.next() % qs.size();
            std::vector<std::pair<Coordinate, Coordinate>> pairs;
            std::vector<size_t> which;
            for (size_t j = 0; j < qs.size(); ++j)
                if (qs[j].limit == qs[i].limit && qs[j].correct == qs[i].correct && qs[j].greed == qs[i].greed) { which.push_back(j); pairs.push_back({C(qs[j].s), C(qs[j].d)}); }
            threads((int)r.range(1, 4), r.next(), 1);
            auto got = pl.computer->shortest_paths(pairs, qs[i].limit, qs[i].correct, qs[i].greed);
            for (size_t j = 0; j < which.size() && j < got.size(); ++j) { bool m; check(which[j], from_batch(got[j], m), "in a batch after a history of queries"); }
        } else if (what == 6) {
            std::string f = ctx().scratch + "/g";
            GraphSerializer::serialize_to_file(pl.graph, f);
            auto back = GraphSerializer::deserialize_from_file(f);
            if (graph_text(*back) != text) violate("saved-graph-differs", where);
        } else if (what == 7) {
            threads((int)r.range(1, 4), r.next(), 1);
            auto m = merge_graphs({pl.graph, copy});
            m->remove_edge(m->get_vertices()[0], m->get_vertices()[1]); // the result is not the input
        } else if (what == 8) {
            size_t i = r.next() % obs.size();
            tally("evaluations");
            std::string t = tree_text(tree.get_visible_vertices(C(obs[i])));
            if (t != want_tree[i]) violate("visibility-changed", show(obs[i]) + where);
        } else {
            ModifiedGraph m(pl.graph);
            auto vs = pl.graph->get_vertices();
            Coordinate extra(200000001, 7);
            m.add_vertex(extra);
            for (int k = 0; k < 4; ++k) {
                auto &a = vs[r.next() % vs.size()], &b = vs[r.next() % vs.size()];
                if (r.chance(.5)) m.add_edge(a, b, r.chance(.5)); else m.remove_edge(a, b);
                m.add_edge(extra, a, r.chance(.5));
            }
        }
        if (step % 6 == 0) unchanged("after a history of queries");
    }
    if (!slow && pl.vs.size() < 30 && r.chance(.02)) { // very many different queries, and then again
        std::vector<std::pair<Query, Answer>> many;
        for (int k = (int)r.range(200, 1500); k > 0; --k) {
            Query x = make_query(r, pl);
            many.push_back({x, ask(*pl.computer, x)});
        }
        for (int round = 0; round < 2; ++round) {
            if (round) r.shuffle(many);
            for (auto &x : many) {
                tally("evaluations");
                Answer a = ask(*pl.computer, x.first);
                if (!(a == x.second)) violate("answer-changed", "after very many queries: " + x.first.text() + "; before: " + x.second.text() + "; now: " + a.text() + where);
            }
        }
        ShortestPathComputer late(copy);
        for (auto &x : many) {
            tally("evaluations");
            Answer a = ask(late, x.first);
            if (!(a == x.second)) violate("answer-changed", "on another computer after very many queries: " + x.first.text() + "; before: " + x.second.text() + "; now: " + a.text() + where);
        }
        for (size_t i = 0; i < qs.size(); ++i) check(i, ask(*pl.computer, qs[i]), "after very many queries");
        history += '*';
        tally("long_histories");
    }
    unchanged("after a history of queries");
    // alongside concurrent queries
    int nt = (int)r.range(2, 4);
    if (slow) yields(r.chance(.5) ? 80 : 300);
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; ++t) seeds.push_back(r.next());
    std::mutex mu;
    std::vector<std::pair<size_t, Answer>> got;
    std::vector<std::pair<size_t, std::string>> trees;
    std::vector<std::string> odd;
    auto vs = pl.graph->get_vertices();
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            Rng q(seeds[t]);
            go++;
            while (go < nt) {}
            for (int k = 0; k < (slow ? 6 : 10); ++k) {
                int what = (int)q.range(0, 9);
                if (what < 6) {
                    size_t i = q.next() % qs.size();
                    Answer a = ask(*pl.computer, qs[i]);
                    std::lock_guard<std::mutex> g(mu);
                    got.push_back({i, a});
                } else if (what < 8) {
                    size_t i = q.next() % obs.size();
                    std::string x = tree_text(tree.get_visible_vertices(C(obs[i])));
                    std::lock_guard<std::mutex> g(mu);
                    trees.push_back({i, x});
                } else if (what == 8) {
                    std::string x = graph_text(*pl.graph);
                    if (x != text) { std::lock_guard<std::mutex> g(mu); odd.push_back("printed form"); }
                } else {
                    std::string f = ctx().scratch + fmts("/g%d", t);
                    GraphSerializer::serialize_to_file(pl.graph, f);
                    if (graph_text(*GraphSerializer::deserialize_from_file(f)) != text) { std::lock_guard<std::mutex> g(mu); odd.push_back("saved graph"); }
                }
            }
        });
    for (auto &t : ts) t.join();
    yields(0);
    for (auto &g : got) check(g.first, g.second, "alongside concurrent queries");
    for (auto &t : trees) {
        tally("evaluations");
        if (t.second != want_tree[t.first]) violate("visibility-changed", "alongside concurrent queries: " + show(obs[t.first]) + where);
    }
    for (auto &o : odd) violate("graph-changed", "alongside concurrent queries: " + o + where);
    unchanged("after concurrent queries");
    tally("concurrent_answers", (long)got.size());
    tally("histories");
    long routed = 0;
    for (auto &a : want) routed += a.path.size() > 2;
    tally("routed_queries", routed);
    if (routed) nontrivial(history + text);
    sample(fmts("history %s, then %zu answers on %d threads", history.c_str(), got.size(), nt) + where);
}

// ---------------------------------------------------------------------------------------------- C18
static void c18_points(Rng &r) {
    for (int k = 0; k < 400; ++k) {
        i64 x = k % 4 == 0 ? (i64)(int32_t)r.next() : k % 4 == 1 ? r.range(-5, 5) * PERIOD + r.range(-2, 2) + (r.chance(.5) ? LON : -LON)
                : k % 4 == 2 ? r.range(-LON, LON) : r.range(-3 * PERIOD, 3 * PERIOD);
        if (k == 4) x = INT32_MAX;
        if (k == 8) x = INT32_MIN;
        if (x > INT32_MAX || x < INT32_MIN) continue;
        i64 y = r.range(-LAT, LAT);
        Pt q = P(coordinate_from_periodic_coordinate(C(Pt{x, y})));
        tally("coordinates");
        if (q.y != y || q.x < -LON || q.x > LON || ((q.x - x) % PERIOD) != 0) violate("re-expression", show(Pt{x, y}) + " re-expressed as " + show(q));
    }
}
static void c18(Rng &r) {
    c18_points(r);
    // obstacles in [-170,170] around a tall wall that closes the way round the world
    Scene sc;
    i64 half = r.chance(.4) ? 1000000 : r.chance(.5) ? 20000000 : 150000000;
    i64 lat = std::min<i64>(half, 70000000), c = r.range(-(LON - 15000000 - half), LON - 15000000 - half), cy = r.range(-(80000000 - lat), 80000000 - lat);
    for (int t = 0; t < 20 && sc.w.empty(); ++t)
        sc.w = gen_world(r, spec(c - half, cy - lat, c + half, cy + lat, 9, half / 3000, r.chance(.25) ? half / 10 : 0, 36));
    if (sc.w.empty()) { tally("empty_scenes"); return; }
    sc.x0 = c - half; sc.x1 = c + half; sc.y0 = cy - lat; sc.y1 = cy + lat; sc.gap = half / 3000;
    sc.family = "walled";
    i64 wall = c > 0 ? c - LON - r.range(0, 2000000) : c + LON - r.range(0, 2000000);
    wall = std::max(-LON + 50001, std::min(LON - 2050001, wall));
    World inner = sc.w;
    Poly wallp = {{wall, -88000000}, {wall + 2000000, -88000000}, {wall + 2050000, 0}, {wall + 2000000, 88000000}, {wall, 88000000}, {wall - 50000, 0}};
    for (auto &p : sc.w)
        if (poly_gap(p, wallp) < 1000000) return;
    sc.w.push_back(wallp);
    threads((int)r.range(1, 4), r.next(), 1);
    Place pl(sc);
    if (!pl.sph.valid) { tally("scenes_not_valid_on_the_sphere"); return; }
    auto base_edges = [&](size_t i, size_t j) { return std::make_pair(pl.graph->has_edge(C(pl.vs[i]), C(pl.vs[j])), pl.graph->is_edge_meridian_crossing(C(pl.vs[i]), C(pl.vs[j]))); };
    struct Q { Pt s, d; Answer a; bool judged; Bounds b; };
    std::vector<Q> qs;
    for (int k = 0; k < 16; ++k) {
        Q q;
        q.s = query_point(r, pl, .05, .1);
        q.d = query_point(r, pl, .05, .1);
        if (q.s == q.d || std::abs(q.s.y) > 80000000 || std::abs(q.d.y) > 80000000) continue;
        if (pl.land(q.s) == 0 || pl.land(q.d) == 0) continue;
        q.a = h::ask(*pl.computer, q.s, q.d);
        Sight g = pl.sph.sight(S(q.s), S(q.d));
        q.b = Router(pl, q.s, q.d).best();
        q.judged = g != UNCLEAR && (g == CLEAR || (q.b.hi - q.b.lo < 1e-5) || q.b.lo == INFINITY || pl.land(q.s) > 0 || pl.land(q.d) > 0);
        qs.push_back(q);
    }
    auto length = [](const Answer &a) {
        double l = 0;
        for (size_t i = 0; i + 1 < a.path.size(); ++i) l += nearest(a.path[i], a.path[i + 1]);
        return l;
    };
    // a query point some periods out of range
    for (auto &q : qs) {
        Pt s = q.s, d = q.d;
        s.x += r.range(-4, 4) * PERIOD;
        d.x += r.range(-4, 4) * PERIOD;
        Answer a = h::ask(*pl.computer, s, d);
        tally("evaluations");
        tally("out_of_range_queries");
        if (a.raised != q.a.raised || a.path != q.a.path)
            violate("out-of-range-query", show(s) + " to " + show(d) + ": " + a.text() + " instead of " + q.a.text() + " in " + show(sc.w));
    }
    for (int k = 0; k < (ctx().thorough ? 6 : 3); ++k) {
        // where the antimeridian is to fall: inside the scene, in a gap between obstacles if there is one
        i64 dx = 0;
        bool ok = false;
        for (int t = 0; t < 30 && !ok; ++t) {
            i64 cut = t < 20 ? r.range(sc.x0, sc.x1) : r.range(-LON, LON);
            dx = LON - cut;
            ok = true;
            for (auto &p : sc.w) {
                i64 n0 = INT64_MAX, n1 = INT64_MIN;
                for (auto &v : p) { i64 q = (v.x + dx + LON + 4 * PERIOD) / PERIOD; n0 = std::min(n0, q); n1 = std::max(n1, q); }
                ok = ok && n0 == n1;
            }
        }
        if (!ok) { tally("no_place_for_the_cut"); continue; }
        auto move = [&](Pt p) { p.x += dx; return wrap(p); };
        Scene m = sc;
        for (auto &p : m.w) for (auto &v : p) v = move(v);
        threads((int)r.range(1, 4), r.next(), 1);
        auto g = VisgraphGenerator::generate(to_polygons(m.w));
        ShortestPathComputer comp(g);
        long split = 0, edges = 0;
        std::string at = fmts(" (moved by %lld) in ", (long long)dx) + show(sc.w);
        for (size_t i = 0; i < pl.vs.size(); ++i)
            for (size_t j = i + 1; j < pl.vs.size(); ++j) {
                Pt a = pl.vs[i], b = pl.vs[j], ma = move(a), mb = move(b);
                auto e = base_edges(i, j);
                bool he = g->has_edge(C(ma), C(mb)), hx = g->is_edge_meridian_crossing(C(ma), C(mb));
                bool apart = (ma.x - a.x) != (mb.x - b.x);
                split += apart && he;
                edges += he;
                if (he == e.first && hx == (he && (e.second != apart))) continue;
                if (pl.D[i][j] == UNCLEAR || pl.X[i][j] == UNCLEAR) { tally("pairs_unclear"); continue; }
                violate("edge-depends-on-antimeridian", show(a) + " " + show(b) + fmts(" edge %d crossing %d; moved to ", e.first, e.second) + show(ma) + " " + show(mb) +
                        fmts(" edge %d crossing %d", he, hx) + at);
            }
        tally("evaluations");
        tally("worlds_compared");
        tally("edges_compared", edges);
        tally("edges_moved_across", split);
        if (split) nontrivial(show(m.w));
        for (auto &q : qs) {
            Answer a = h::ask(comp, move(q.s), move(q.d));
            if (!q.judged) { tally("queries_unclear"); continue; }
            tally("evaluations");
            tally("queries_compared");
            std::string qa = show(q.s) + " to " + show(q.d) + ": " + q.a.text() + "; moved: " + a.text();
            if (a.raised != q.a.raised) violate("raising-depends-on-antimeridian", qa + at);
            else if (!a.raised && std::fabs(length(a) - length(q.a)) > 2e-5 + 1e-9 * length(a))
                violate("length-depends-on-antimeridian", qa + fmts(" (length %.9f, moved %.9f)", length(q.a), length(a)) + at);
            else if (!a.raised && a.path.size() > 2) tally("routed_queries_compared");
            if (!a.raised && a.path.size() > 2) nontrivial(qa);
        }
    }
    sample("walled world " + show(sc.w));
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long, Rng &r) {
        ctx().count_cases = false;
        const std::string &p = ctx().prop;
        if (p == "C20" && !g_zygote) g_zygote = new Zygote; // before the library is used
        p == "C08" ? c08(r) : p == "C20" ? c20(r) : c18(r);
    });
}
