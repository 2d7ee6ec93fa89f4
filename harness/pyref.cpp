// C19: answers, from the C++ library itself, what the Python layer should answer.  One command per line on standard
// input, one answer on standard output; see harness/pipe.py.
#include "router.hpp"
#include "serialization/graph_serializer.hpp"
#include "visgraph/vistree_generator.hpp"
#include <sstream>
using namespace h;

static std::unique_ptr<Place> place;          // of "scene"
static std::shared_ptr<Graph> graph;          // of "load"
static std::unique_ptr<ShortestPathComputer> computer;
static std::unique_ptr<VistreeGenerator> vistree;
static FILE *answers;

static void put(const std::string &s) {
    fprintf(answers, "%s\n", s.c_str());
    fflush(answers);
}
static std::string rings(const World &w) {
    std::ostringstream o;
    o << w.size();
    for (auto &p : w) {
        o << " " << p.size();
        for (auto &v : p) o << " " << v.x << " " << v.y;
    }
    return o.str();
}
static std::string content(const Graph &g) {
    World w;
    for (auto &p : g.get_polygons()) w.push_back(from_polygon(p));
    auto e = edges_of(g);
    std::ostringstream o;
    o << rings(w) << " " << e.size();
    for (auto &x : e)
        o << " " << x.first.first.first << " " << x.first.first.second << " " << x.first.second.first << " " << x.first.second.second << " " << x.second;
    return o.str();
}
int main() {
    answers = stdout;
    Mute mute;
    Rng r(1);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string cmd;
        in >> cmd;
        try {
            if (cmd == "scene") { // seed, largest ring -> family rings
                uint64_t seed;
                int maxv;
                in >> seed >> maxv;
                r = Rng(seed);
                int f = pick_family(r);
                place.reset();
                Scene s = make_scene(r, f, maxv);
                if (!s.w.empty()) {
                    place = std::make_unique<Place>(s, false);
                    if (!place->graph) { place.reset(); s.w.clear(); }
                }
                put(s.family + " " + rings(s.w));
            } else if (cmd == "points") { // n -> n points on or near the scene
                int n;
                in >> n;
                std::string o;
                double land = r.chance(.5) ? .3 : .05, at = r.chance(.5) ? .3 : .05;
                if (place) place->vs = corners(place->s.w);
                for (int i = 0; i < n; ++i) {
                    Pt p = place ? query_point(r, *place, land, at) : Pt{r.range(-LON, LON), r.range(-LAT, LAT)};
                    o += fmts("%lld %lld ", (long long)p.x, (long long)p.y);
                }
                put(o);
            } else if (cmd == "load") { // rings -> content of the graph generated
                size_t n;
                in >> n;
                World w(n);
                for (auto &p : w) {
                    size_t k;
                    in >> k;
                    p.resize(k);
                    for (auto &v : p) in >> v.x >> v.y;
                }
                auto polys = to_polygons(w);
                graph = VisgraphGenerator::generate(polys);
                computer = std::make_unique<ShortestPathComputer>(graph);
                vistree = std::make_unique<VistreeGenerator>(polys);
                put(content(*graph));
            } else if (cmd == "file") { // path -> content
                std::string path;
                std::getline(in >> std::ws, path);
                put(content(*GraphSerializer::deserialize_from_file(path)));
            } else if (cmd == "use") { // path: questions are about the graph in that file
                std::string path;
                std::getline(in >> std::ws, path);
                computer = std::make_unique<ShortestPathComputer>(GraphSerializer::deserialize_from_file(path));
                put("ok");
            } else if (cmd == "ask") {
                Pt a, b;
                std::string limit;
                double greed;
                int correct;
                in >> a.x >> a.y >> b.x >> b.y >> limit >> correct >> greed;
                Answer x = ask(*computer, a, b, limit == "inf" ? INFINITY : std::stod(limit), correct != 0, greed);
                std::string o = x.raised ? "E " + x.error : "P";
                for (auto &p : x.path) o += fmts(" %lld %lld", (long long)p.x, (long long)p.y);
                for (auto &c : o) if (c == '\n') c = ' ';
                put(o);
            } else if (cmd == "sees") {
                Pt a;
                int half;
                in >> a.x >> a.y >> half;
                std::string o;
                for (auto &v : vistree->get_visible_vertices(C(a), half != 0))
                    o += fmts("%lld %lld %d ", (long long)P(v.coord).x, (long long)P(v.coord).y, (int)v.is_visible_across_meridian);
                put(o);
            } else if (cmd == "forms") { // printed forms of the first obstacle and its first corner
                const Polygon q = graph->get_polygons().front();
                put(q.to_string_representation() + "|" + q.get_vertices().front().to_string_representation());
            } else if (cmd == "print") {
                std::string s = graph->to_string_representation();
                put(fmts("%zu %llu", s.size(), (unsigned long long)fnv(s)));
            } else put("? " + cmd);
        } catch (const std::exception &e) {
            put(std::string("! ") + e.what());
        }
    }
    return 0;
}
