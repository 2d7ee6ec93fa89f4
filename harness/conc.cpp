// C11: concurrent graph operations are atomic per directed edge.  C12: workloads for ThreadSanitizer.
#include "router.hpp"
#include "locks.hpp"
#include <thread>
#include <unordered_map>
using namespace h;

// ------------------------------------------------------------------------------------ C11
enum Kind { ADD, ADDX, REM, HAS, CROSS };
struct Op {
    long inv, ret;
    Kind kind;
    bool result; // of HAS and CROSS
    int thread;
    const char *via;
};
static bool apply(int &state, const Op &o) {
    switch (o.kind) {
    case ADD: state |= 1; return true;
    case ADDX: state |= 2; return true;
    case REM: state = 0; return true;
    case HAS: return o.result == (state != 0);
    default: return o.result == (state == 2);
    }
}
// Is there an order of the operations, consistent with their times, that explains the results?  (Wing and Gong, with memory)
static bool linearizable(const std::vector<Op> &ops, int initial, long &steps) {
    size_t n = ops.size();
    if (n > 62) throw HarnessError("history too long");
    std::set<std::pair<uint64_t, int>> seen;
    std::vector<std::pair<uint64_t, int>> stack{{0, initial}};
    uint64_t all = ((uint64_t)1 << n) - 1;
    while (!stack.empty()) {
        auto [done, state] = stack.back();
        stack.pop_back();
        if (done == all) return true;
        if (!seen.insert({done, state}).second) continue;
        steps++;
        long first_ret = LONG_MAX;
        for (size_t i = 0; i < n; ++i)
            if (!(done >> i & 1)) first_ret = std::min(first_ret, ops[i].ret);
        for (size_t i = 0; i < n; ++i) {
            if ((done >> i & 1) || ops[i].inv > first_ret) continue;
            int s = state;
            if (apply(s, ops[i])) stack.push_back({done | (uint64_t)1 << i, s});
        }
    }
    return false;
}
static std::string show_history(std::vector<Op> ops) {
    std::sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
    static const char *names[] = {"add", "add-crossing", "remove", "has", "is-crossing"};
    std::string s;
    for (auto &o : ops)
        s += fmts("[%ld-%ld thread %d %s%s", o.inv, o.ret, o.thread, o.via, names[o.kind]) + (o.kind >= HAS ? (o.result ? "=1" : "=0") : "") + "] ";
    return s;
}
static std::atomic<long> g_clock{0};

// A graph and nv of its vertices on which everything happens; sometimes it has many more.
struct Ring {
    std::unique_ptr<Graph> g;
    std::vector<Coordinate> vs;
    Ring(Rng &r, int nv) {
        int all = r.chance(.35) ? (int)r.range(std::max(nv, 30), 300) : nv;
        Poly ring;
        for (int i = 0; i < all; ++i) ring.push_back(Pt{(i64)llroundl(1e7L * cosl(2 * M_PIl * i / all)), (i64)llroundl(1e7L * sinl(2 * M_PIl * i / all))});
        g = std::make_unique<Graph>(to_polygons({ring}));
        vs = g->get_vertices();
        if (all > nv) {
            r.shuffle(vs);
            vs.resize(nv);
            tally("graphs_with_many_more_vertices");
        }
    }
};

struct Call { int what, a, b; bool x; }; // 0 add_edge 1 add_directed 2 remove_edge 3 remove_directed 4 has 5 crossing 6 neighbors
static void linear(Rng &r) {
    int nv = (int)r.range(3, 5);
    Ring ring(r, nv);
    Graph &g = *ring.g;
    auto &vs = ring.vs;
    int nt = (int)r.range(2, 4), per = (int)r.range(3, 9);
    // few cells are used, so that operations meet
    std::vector<std::pair<int, int>> hot;
    int nh = (int)r.range(1, 3);
    for (int i = 0; i < nh; ++i) {
        int a = (int)r.range(0, nv - 1), b = (int)r.range(0, nv - 2);
        if (b >= a) b++;
        hot.push_back({a, b});
    }
    std::vector<std::vector<int>> init(nv, std::vector<int>(nv, 0));
    for (int a = 0; a < nv; ++a)
        for (int b = 0; b < nv; ++b)
            if (a != b && r.chance(.4)) {
                bool x = r.chance(.5);
                g.add_directed_edge(vs[a], vs[b], x);
                init[a][b] |= x ? 2 : 1;
            }
    int style = (int)r.range(0, 3); // what operations prevail
    std::vector<std::vector<Call>> calls(nt);
    for (auto &c : calls)
        for (int k = 0; k < per; ++k) {
            auto h = hot[r.next() % hot.size()];
            if (r.chance(.5)) std::swap(h.first, h.second);
            if (r.chance(.15)) { h.first = (int)r.range(0, nv - 1); h.second = (int)r.range(0, nv - 1); }
            int w = (int)r.range(0, 6);
            if (style == 1 && w > 3) w = (int)r.range(0, 1);
            if (style == 2 && w < 2) w = (int)r.range(4, 6);
            if (style == 3 && r.chance(.6)) w = r.chance(.5) ? 1 : 3;
            c.push_back({w, h.first, h.second, r.chance(.5)});
        }
    struct Rec { Call c; long inv, ret; bool result; std::vector<Pt> row; int thread; };
    std::vector<std::vector<Rec>> recs(nt);
    std::atomic<int> go{0};
    long every[] = {3, 8, 20, 60};
    if (ctx().mode == "yield") yields(every[r.next() % 4]);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            auto &out = recs[t];
            out.reserve(per);
            go++;
            while (go < nt) {}
            for (auto &c : calls[t]) {
                Rec q{c, 0, 0, false, {}, t};
                q.inv = g_clock.fetch_add(1);
                switch (c.what) {
                case 0: g.add_edge(vs[c.a], vs[c.b], c.x); break;
                case 1: g.add_directed_edge(vs[c.a], vs[c.b], c.x); break;
                case 2: g.remove_edge(vs[c.a], vs[c.b]); break;
                case 3: g.remove_directed_edge(vs[c.a], vs[c.b]); break;
                case 4: q.result = g.has_edge(vs[c.a], vs[c.b]); break;
                case 5: q.result = g.is_edge_meridian_crossing(vs[c.a], vs[c.b]); break;
                default: for (auto &n : g.get_neighbors(vs[c.a])) q.row.push_back(P(n));
                }
                q.ret = g_clock.fetch_add(1);
                out.push_back(std::move(q));
            }
        });
    for (auto &t : ts) t.join();
    yields(0);
    // the cells' histories
    std::map<std::pair<int, int>, std::vector<Op>> cell;
    long overlaps = 0;
    for (auto &rs : recs)
        for (auto &q : rs) {
            const Call &c = q.c;
            auto add = [&](int a, int b, Kind k, bool res, const char *via) {
                if (a != b) cell[{a, b}].push_back({q.inv, q.ret, k, res, q.thread, via});
            };
            switch (c.what) {
            case 0: add(c.a, c.b, c.x ? ADDX : ADD, 0, "edge "); add(c.b, c.a, c.x ? ADDX : ADD, 0, "edge "); break;
            case 1: add(c.a, c.b, c.x ? ADDX : ADD, 0, ""); break;
            case 2: add(c.a, c.b, REM, 0, "edge "); add(c.b, c.a, REM, 0, "edge "); break;
            case 3: add(c.a, c.b, REM, 0, ""); break;
            case 4: case 5:
                if (c.a == c.b) { if (q.result) violate("self-edge", show(P(vs[c.a]))); }
                else add(c.a, c.b, c.what == 4 ? HAS : CROSS, q.result, "");
                break;
            default: {
                std::set<Pt> row(q.row.begin(), q.row.end());
                if (row.size() != q.row.size()) violate("neighbour-twice", show(P(vs[c.a])));
                for (int b = 0; b < nv; ++b) {
                    add(c.a, b, HAS, row.count(P(vs[b])) > 0, "neighbours ");
                    row.erase(P(vs[b]));
                }
                if (!row.empty()) violate("foreign-neighbour", show(P(vs[c.a])));
            }
            }
        }
    for (int a = 0; a < nv; ++a) { // the state in the end
        std::set<Pt> row;
        for (auto &n : g.get_neighbors(vs[a])) row.insert(P(n));
        for (int b = 0; b < nv; ++b) {
            if (a == b) { if (row.count(P(vs[b]))) violate("self-edge", show(P(vs[a]))); continue; }
            long t = g_clock.fetch_add(2);
            bool has = g.has_edge(vs[a], vs[b]);
            if (has != (row.count(P(vs[b])) > 0)) violate("neighbours-disagree", show(P(vs[a])) + " " + show(P(vs[b])));
            cell[{a, b}].push_back({t, t, HAS, has, -1, "at the end "});
            cell[{a, b}].push_back({t + 1, t + 1, CROSS, g.is_edge_meridian_crossing(vs[a], vs[b]), -1, "at the end "});
        }
    }
    std::string all;
    for (auto &c : cell) {
        long steps = 0;
        for (size_t i = 0; i < c.second.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                overlaps += c.second[i].inv < c.second[j].ret && c.second[j].inv < c.second[i].ret;
        if (!linearizable(c.second, init[c.first.first][c.first.second], steps))
            violate("not-linearizable", fmts("edge %d->%d of %d vertices, initially %d: ", c.first.first, c.first.second, nv, init[c.first.first][c.first.second]) + show_history(c.second));
        tally("cell_histories");
        tally("operations", (long)c.second.size());
        tally("linearization_states", steps);
        all += show_history(c.second);
    }
    tally("overlapping_pairs", overlaps);
    if (overlaps) nontrivial(all);
    sample(all);
}
// All threads meet at one edge after another, each with one operation on it, so that whatever one loses stays lost.
static void meetings(Rng &r) {
    int nv = (int)r.range(3, 14), nt = r.chance(.7) ? 2 : 3;
    Ring ring(r, nv);
    Graph &g = *ring.g;
    auto &vs = ring.vs;
    std::vector<std::pair<int, int>> pairs;
    for (int a = 0; a < nv; ++a)
        for (int b = a + 1; b < nv; ++b) pairs.push_back({a, b});
    r.shuffle(pairs);
    size_t n = pairs.size();
    std::vector<std::vector<int>> init(nv, std::vector<int>(nv, 0));
    for (auto &p : pairs)
        for (int d = 0; d < 2; ++d)
            if (r.chance(.3)) {
                int a = d ? p.first : p.second, b = d ? p.second : p.first;
                bool x = r.chance(.5);
                g.add_directed_edge(vs[a], vs[b], x);
                init[a][b] |= x ? 2 : 1;
            }
    std::vector<std::vector<Call>> calls(nt);
    for (auto &c : calls)
        for (auto &p : pairs) {
            bool back = r.chance(.3);
            c.push_back({r.chance(.6) ? (int)r.range(0, 1) : (int)r.range(0, 5), back ? p.second : p.first, back ? p.first : p.second, r.chance(.5)});
        }
    struct Rec { long inv, ret; bool result; };
    std::vector<std::vector<Rec>> recs(nt, std::vector<Rec>(n));
    std::atomic<long> arrived{0};
    long every[] = {3, 8, 20, 60};
    if (ctx().mode == "yield") yields(every[r.next() % 4]);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            for (size_t k = 0; k < n; ++k) {
                const Call &c = calls[t][k];
                Rec q{0, 0, false};
                arrived++;
                for (long spin = 0; arrived < (long)(nt * (k + 1)); ++spin)
                    if (spin > 2000) std::this_thread::yield();
                q.inv = g_clock.fetch_add(1);
                switch (c.what) {
                case 0: g.add_edge(vs[c.a], vs[c.b], c.x); break;
                case 1: g.add_directed_edge(vs[c.a], vs[c.b], c.x); break;
                case 2: g.remove_edge(vs[c.a], vs[c.b]); break;
                case 3: g.remove_directed_edge(vs[c.a], vs[c.b]); break;
                case 4: q.result = g.has_edge(vs[c.a], vs[c.b]); break;
                default: q.result = g.is_edge_meridian_crossing(vs[c.a], vs[c.b]);
                }
                q.ret = g_clock.fetch_add(1);
                recs[t][k] = q;
            }
        });
    for (auto &t : ts) t.join();
    yields(0);
    std::string all;
    for (size_t k = 0; k < n; ++k)
        for (int d = 0; d < 2; ++d) {
            int a = d ? pairs[k].first : pairs[k].second, b = d ? pairs[k].second : pairs[k].first;
            std::vector<Op> ops;
            for (int t = 0; t < nt; ++t) {
                const Call &c = calls[t][k];
                const Rec &q = recs[t][k];
                if (c.what % 2 == 0 && c.what < 4) ops.push_back({q.inv, q.ret, c.what == 0 ? (c.x ? ADDX : ADD) : REM, false, t, "edge "});
                else if (c.a == a) ops.push_back({q.inv, q.ret, c.what == 1 ? (c.x ? ADDX : ADD) : c.what == 3 ? REM : c.what == 4 ? HAS : CROSS, q.result, t, ""});
            }
            long t = g_clock.fetch_add(2), steps = 0;
            ops.push_back({t, t, HAS, g.has_edge(vs[a], vs[b]), -1, "at the end "});
            ops.push_back({t + 1, t + 1, CROSS, g.is_edge_meridian_crossing(vs[a], vs[b]), -1, "at the end "});
            for (size_t i = 0; i < ops.size(); ++i)
                for (size_t j = 0; j < i; ++j)
                    if (ops[i].inv < ops[j].ret && ops[j].inv < ops[i].ret) tally("overlapping_pairs");
            if (!linearizable(ops, init[a][b], steps))
                violate("not-linearizable", fmts("meeting at edge %d->%d of %d vertices, initially %d: ", a, b, nv, init[a][b]) + show_history(ops));
            tally("meetings");
            all += show_history(ops);
        }
    nontrivial(all);
    sample(all);
}
// Each directed edge has one writer, but neighbouring edges have others: no write may disturb another's.
static void owners(Rng &r) {
    int nv = (int)r.range(6, 24), nt = (int)r.range(2, 8);
    Ring ring(r, nv);
    Graph &g = *ring.g;
    auto &vs = ring.vs;
    std::vector<std::vector<std::pair<int, int>>> mine(nt);
    for (int a = 0; a < nv; ++a)
        for (int b = 0; b < nv; ++b)
            if (a != b) mine[r.next() % nt].push_back({a, b});
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; ++t) seeds.push_back(r.next());
    std::vector<std::vector<std::vector<int>>> model(nt, std::vector<std::vector<int>>(nv, std::vector<int>(nv, 0)));
    std::atomic<int> go{0};
    std::atomic<long> ops{0};
    std::mutex mu;
    std::string bad;
    if (ctx().mode == "yield") yields(r.chance(.5) ? 10 : 40);
    int per = ctx().mode == "yield" ? 150 : 1200;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            Rng q(seeds[t]);
            go++;
            while (go < nt) {}
            if (mine[t].empty()) return;
            for (int k = 0; k < per; ++k) {
                auto [a, b] = mine[t][q.next() % mine[t].size()];
                int &s = model[t][a][b];
                bool wrong = false;
                switch (q.range(0, 5)) {
                case 0: g.add_directed_edge(vs[a], vs[b], false); s |= 1; break;
                case 1: g.add_directed_edge(vs[a], vs[b], true); s |= 2; break;
                case 2: g.remove_directed_edge(vs[a], vs[b]); s = 0; break;
                case 3: wrong = g.has_edge(vs[a], vs[b]) != (s != 0); break;
                case 4: wrong = g.is_edge_meridian_crossing(vs[a], vs[b]) != (s == 2); break;
                default: {
                    auto n = g.get_neighbors(vs[a]);
                    wrong = (std::find(n.begin(), n.end(), vs[b]) != n.end()) != (s != 0);
                }
                }
                if (wrong) { std::lock_guard<std::mutex> l(mu); bad = fmts("thread %d saw its own edge %d->%d (state %d) otherwise", t, a, b, s); }
            }
            ops += per;
        });
    for (auto &t : ts) t.join();
    yields(0);
    std::string at = fmts("%d vertices, %d threads", nv, nt);
    if (!bad.empty()) violate("own-edge-disturbed", at + ": " + bad);
    for (int t = 0; t < nt; ++t)
        for (auto [a, b] : mine[t]) {
            int s = model[t][a][b];
            if (g.has_edge(vs[a], vs[b]) != (s != 0) || g.is_edge_meridian_crossing(vs[a], vs[b]) != (s == 2))
                violate("own-edge-disturbed", at + fmts(": edge %d->%d should be in state %d", a, b, s));
        }
    tally("owner_rounds");
    tally("operations", ops);
}

// ------------------------------------------------------------------------------------ C12
static void races(long n, Rng &r) {
    yields(0);
#ifdef LOCKS_WATCHED
    struct Watch {
        long taken = locks::g_taken, nested = locks::g_nested, orders = locks::g_orders;
        bool on = ctx().mode == "locks";
        Watch() { locks::watch(on); }
        ~Watch() {
            locks::watch(false);
            if (!on) return;
            tally("locks_taken", locks::g_taken - taken);
            tally("locks_taken_while_holding_one", locks::g_nested - nested);
            tally("lock_orders", locks::g_orders - orders);
            for (auto &f : locks::take()) violate(f.first, f.second);
        }
    } watch;
#endif
    int f = pick_family(r);
    if (f == 9 || f == 7) f = 0;
    Scene sc = make_scene(r, f, 24);
    if (sc.w.empty()) return;
    if (!Sphere(sc.w).valid) { tally("scenes_not_valid_on_the_sphere"); return; }
    auto polys = to_polygons(sc.w);
    size_t nv = corners(sc.w).size();
    threads((int)r.range(2, 6), r.next(), (int)r.range(0, 2));
    auto g = VisgraphGenerator::generate(polys);
    tally("generations");
    threads((int)r.range(2, 6), r.next(), (int)r.range(0, 2));
    size_t cut = (size_t)r.range(0, nv);
    auto a = VisgraphGenerator::generate_with_shuffled_range(polys, 0, cut, (unsigned)n), b = VisgraphGenerator::generate_with_shuffled_range(polys, cut, nv, (unsigned)n);
    tally("range_generations", 2);
    threads((int)r.range(2, 6), r.next(), (int)r.range(0, 2));
    auto m = merge_graphs({a, b, g});
    tally("merges");
    // batch on a computer that has not been used yet
    ShortestPathComputer comp(g);
    auto point = [&](Rng &q) {
        Pt p = q.chance(.25) ? P(g->get_vertices()[q.next() % nv]) : q.chance(.2) ? interior_point(q, sc.w) : random_point(q, sc);
        return C(p);
    };
    std::vector<std::pair<Coordinate, Coordinate>> pairs;
    for (int i = 0; i < 16; ++i) pairs.push_back({point(r), point(r)});
    threads((int)r.range(2, 6), r.next(), (int)r.range(0, 2));
    auto got = comp.shortest_paths(pairs, INFINITY, r.chance(.5), r.chance(.5) ? 1 : 2);
    tally("batches");
    // everything at once on shared objects
    ShortestPathComputer fresh(g);
    VistreeGenerator tree(make_polygons_periodic(polys));
    auto vs = m->get_vertices();
    std::unique_ptr<Ring> wide; // a graph of many vertices, few of which are used
    if (r.chance(.4)) wide = std::make_unique<Ring>(r, (int)r.range(2, 6));
    Graph &shared = wide ? *wide->g : *m;
    if (wide) vs = wide->vs;
    int nt = (int)r.range(2, 5);
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; ++t) seeds.push_back(r.next());
    std::atomic<int> go{0};
    std::atomic<long> paths{0}, ops{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            Rng q(seeds[t]);
            go++;
            while (go < nt) {}
            for (int k = 0; k < 40; ++k) {
                Coordinate x = vs[q.next() % vs.size()], y = vs[q.next() % vs.size()];
                switch (q.range(0, 11)) {
                case 0: shared.add_edge(x, y, q.chance(.5)); break;
                case 1: shared.add_directed_edge(x, y, q.chance(.5)); break;
                case 2: shared.remove_edge(x, y); break;
                case 3: shared.remove_directed_edge(x, y); break;
                case 4: shared.has_edge(x, y); break;
                case 5: shared.is_edge_meridian_crossing(x, y); break;
                case 6: shared.get_neighbors(x); break;
                case 7: shared.has_vertex(x); shared.get_vertices(); shared.get_polygons(); break;
                case 8: tree.get_visible_vertices(point(q), q.chance(.5)); break;
                case 9: if (q.chance(.3)) { g->to_string_representation(); break; } // fall through
                default: {
                    try { fresh.shortest_path(point(q), point(q), q.chance(.3) ? 1 : INFINITY, q.chance(.6), 1); } catch (const std::exception &) {}
                    paths++;
                }
                }
                ops++;
            }
        });
    for (auto &t : ts) t.join();
    tally("concurrent_operations", ops);
    tally("concurrent_queries", paths);
    nontrivial(show(sc.w) + fmts("%llx", (unsigned long long)schedule_trace()));
    sample(fmts("%d threads on shared objects, ", nt) + show(sc.w));
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long n, Rng &r) {
        if (ctx().prop == "C12") { races(n, r); return; }
        if (n % 8 == 7) owners(r);
        else if (n % 2 == 0) meetings(r);
        else linear(r);
    });
}
