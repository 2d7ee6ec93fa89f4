"""C19 (and C25, failures; C26, values): drives the Python layer (under PyPy, with the extension module built from the working tree) and compares what it
does with the C++ library, asked through harness/pyref.cpp.  Reports like the C++ harnesses."""
import argparse, copy, gc, hashlib, json, math, os, pickle, random, shutil, struct, subprocess, sys, threading, time, warnings

a = argparse.ArgumentParser()
for x in ("package", "ref", "prop", "tier", "scratch", "repo", "out", "mode"):
    a.add_argument("--" + x, default="")
for x, d in (("seed", 1), ("cases", 10), ("only", -1), ("shard", 0), ("nshards", 1)):
    a.add_argument("--" + x, type=int, default=d)
a.add_argument("--soft", type=float, default=1e9)
A = a.parse_args()
os.environ["OMP_NUM_THREADS"] = str(1 + (A.seed + max(A.shard, A.only)) % 4)
sys.path.insert(0, A.package)

import shapefile
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.graph_merger import GraphMerger
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
from capi.src.implementation.datastructures.polygon import Polygon
from capi.src.implementation.dtos.coordinate import Coordinate, construct_coord_in_lat_lon_range
from capi.src.interfaces.datastructures.polygon import IPolygon
from capi.src.interfaces.shapefiles.shapefile_reader import IShapefileReader
from capi.src.implementation import visibility_graphs as vg

if A.prop == "C26":
    import hypothesis
    from capi.src.hypothesis_strategies.coordinate import coordinate_strategy
    from capi.src.hypothesis_strategies.polygon import polygon_strategy
if not os.path.abspath(vg.__file__).startswith(os.path.abspath(A.package)):
    sys.exit("imported from elsewhere: " + vg.__file__)
out = open(A.out, "w") if A.out else sys.stdout
LON, PERIOD = 180000000, 360000001
sys.stdout = open(os.devnull, "w")  # progress bars


class HarnessError(Exception):
    pass


def emit(**k):
    out.write(json.dumps(k) + "\n")
    out.flush()


stats, sigs, state = {}, set(), {"case": -1, "violations": 0, "samples": 0, "interpolators": [],
                          "reader": ShapefileReader(), "generator": GraphGenerator(), "merger": GraphMerger()}


def stat(k, v=1):
    stats[k] = stats.get(k, 0) + v


def violate(key, detail):
    state["violations"] += 1
    emit(t="viol", key=key, case=state["case"], detail=str(detail)[:6000])


def nontrivial(s):
    sigs.add(int(hashlib.sha256(s.encode()).hexdigest()[:12], 16))


# ------------------------------------------------------------------ the reference
class Ref:
    def __init__(self):
        self.p = subprocess.Popen([A.ref], stdin=subprocess.PIPE, stdout=subprocess.PIPE, universal_newlines=True, cwd=A.scratch or ".")

    def ask(self, line):
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise HarnessError("the reference ended on: " + line[:300])
        return r.rstrip("\n")


def take_rings(words, at):
    n = int(words[at])
    at += 1
    rings = []
    for _ in range(n):
        k = int(words[at])
        rings.append([(int(words[at + 1 + 2 * i]), int(words[at + 2 + 2 * i])) for i in range(k)])
        at += 1 + 2 * k
    return rings, at


def take_content(text):
    if text.startswith("! "):
        return None, text
    w = text.split()
    rings, at = take_rings(w, 0)
    n = int(w[at])
    at += 1
    edges = {}
    for i in range(n):
        v = [int(x) for x in w[at + 5 * i: at + 5 * i + 5]]
        edges[(v[0], v[1]), (v[2], v[3])] = bool(v[4])
    return rings, edges


def say_rings(rings):
    return "%d %s" % (len(rings), " ".join("%d %s" % (len(r), " ".join("%d %d" % p for p in r)) for r in rings))


# ------------------------------------------------------------------ geometry
def cross(o, p, q):
    return (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])


def normalise(ring):  # corners in counter-clockwise order
    r = [p for i, p in enumerate(ring) if p != ring[i - 1]] or ring[:1]
    while True:
        k = [p for i, p in enumerate(r) if cross(r[i - 1], p, r[(i + 1) % len(r)]) != 0]
        if len(k) == len(r) or len(k) < 3:
            break
        r = k
    area = sum(r[i - 1][0] * r[i][1] - r[i][0] * r[i - 1][1] for i in range(len(r)))
    return r if area > 0 else r[::-1]


def canonical(r):
    i = r.index(min(r))
    return r[i:] + r[:i]


def deg(k):
    """Degrees that stand for k microdegrees whether truncated or rounded."""
    x = k / 1e6
    while int(1e6 * x) != k:
        x = math.nextafter(x, math.inf if k > 0 else -math.inf)
    return x


def exact(x):
    """Microdegrees of degrees that came out."""
    k = round(x * 1e6)
    return k if isinstance(x, float) and abs(x * 1e6 - k) < 1e-3 else None


# ------------------------------------------------------------------ shapefiles
def dress(r, ring):
    """The same obstacle: other start, other direction, vertices repeated or added in the middle of edges."""
    k = r.randrange(len(ring))
    ring = ring[k:] + ring[:k]
    if r.random() < .5:
        ring = ring[::-1]
    res = []
    for i, p in enumerate(ring):
        q = ring[(i + 1) % len(ring)]
        res.append(p)
        if r.random() < .1:
            res.append(p)
        if r.random() < .15 and (p[0] + q[0]) % 2 == 0 and (p[1] + q[1]) % 2 == 0:
            res.append(((p[0] + q[0]) // 2, (p[1] + q[1]) // 2))
    return res


def write_shapefile(r, path, world, plain):
    """-> kind of records written"""
    kinds = []
    with shapefile.Writer(path, shapeType=shapefile.POLYGON) as w:
        w.field("name", "C", size=10)

        def put(parts):
            w.poly([[[deg(x), deg(y)] for x, y in p + p[:1]] for p in parts])
            w.record("r%d" % len(kinds))

        def other():
            if r.random() < .4:
                w.null()
                w.record("null")
                kinds.append("null")
            else:
                x, y = r.randint(-1000, 1000), r.randint(-1000, 1000)
                put([[(x, y)] if r.random() < .5 else [(x, y), (x + 5, y + 7)]])
                kinds.append("degenerate")

        for ring in world:
            if not plain and r.random() < .15:
                other()
            parts = [ring if plain else dress(r, ring)]
            if not plain and r.random() < .25:
                for _ in range(r.randint(1, 3)):  # holes or islands, of which nothing is made
                    x, y = ring[0]
                    d = r.randint(1, 50)
                    hole = [(x, y), (x + d, y), (x + d, y + d)][:3] + ([(x, y + d)] if r.random() < .5 else [])
                    parts.append([(max(-LON, min(LON, p)), max(-90000000, min(90000000, q))) for p, q in hole])
                kinds.append("parts")
            else:
                kinds.append("ring")
            put(parts)
        if not plain and r.random() < .15 or not kinds:
            other()
    return kinds


def write_lines(r, path):
    with shapefile.Writer(path, shapeType=shapefile.POLYLINE) as w:
        w.field("name", "C", size=10)
        for _ in range(r.randint(1, 4)):
            w.line([[[r.uniform(-9, 9), r.uniform(-9, 9)] for _ in range(r.randint(2, 6))]])
            w.record("l")


# ------------------------------------------------------------------ one world
def graph_of(g):
    """Content of a graph as Python sees it."""
    vs = {}
    rings = [[(exact(v.longitude), exact(v.latitude)) for v in p.vertices] for p in g.polygons]
    edges = set()
    for v in g.vertices:
        p = (exact(v.longitude), exact(v.latitude))
        vs[p] = v
        for n in g.get_neighbors(v):
            edges.add((p, (exact(n.longitude), exact(n.latitude))))
    return rings, vs, edges


def show(x):
    return str(x)[:3000]


def same_rings(got, want):
    return [canonical(r) if r else r for r in got] == [canonical(r) for r in want]


def check_file(ref, path, want_rings, want_edges, where, scene, in_order=True):
    rings, edges = take_content(ref.ask("file " + os.path.abspath(path)))
    if rings is None:
        violate("file-unreadable", "%s: %s of %s" % (where, edges, scene))
        return False
    if not same_rings(*([rings, want_rings] if in_order else [sorted(canonical(p) for p in w) for w in (rings, want_rings)])):
        violate("obstacles", "%s: %s expected %s" % (where, show(rings), show(want_rings)))
        return False
    stat("edges_compared", len(edges))
    if edges != want_edges:
        d = [(e, edges.get(e), want_edges.get(e)) for e in set(edges) | set(want_edges) if edges.get(e) != want_edges.get(e)]
        violate("edges", "%s: %d differ, such as %s (in the file, expected) of %s" % (where, len(d), d[:3], scene))
        return False
    return True


def answer(f):
    try:
        return f(), None
    except Exception as e:  # noqa
        return None, "%s" % e


def check_route(got, want, where):
    """got: sequence of Coordinate; want: answer of the reference."""
    if want.startswith("E "):
        violate("answered-instead-of-raising", "%s: %s, expected %s" % (where, show(got), want))
        return
    w = want.split()[1:]
    want_pts = [(int(w[i]), int(w[i + 1])) for i in range(0, len(w), 2)]
    pts = []
    for c in got:
        lon, lat = exact(c.longitude), exact(c.latitude)
        if not isinstance(c, Coordinate) or lon is None or lat is None:
            violate("waypoint-form", "%s: %r" % (where, c))
            return
        if not (-180 <= c.longitude <= 180 and -90 <= c.latitude <= 90):
            violate("waypoint-out-of-range", "%s: %r" % (where, c))
            return
        pts.append((lon, lat))
    stat("waypoints", len(pts))
    if pts != want_pts:
        violate("route-differs", "%s: %s expected %s" % (where, show(pts), show(want_pts)))


def case(n, r, ref):
    work = os.path.join(A.scratch, "place" if r.random() < .6 else "c%d" % n)  # mostly where other files were before
    os.makedirs(work)
    here = os.getcwd()
    if r.random() < .3:
        os.chdir(work)
        work = os.curdir if r.random() < .5 else os.path.join(os.pardir, os.path.basename(work))
    try:
        if A.prop == "C26":
            values(n, r)
        elif A.prop == "C25":
            trouble(n, r, ref, work)
        else:
            world_case(n, r, ref, work)
            coordinates(r)
    finally:
        work = os.path.abspath(work)
        os.chdir(here)
        shutil.rmtree(work, ignore_errors=True)


def world_case(n, r, ref, work):
    before = state["violations"]
    stat("evaluations")
    plain = r.random() < .2
    w = ref.ask("scene %d %d" % (r.getrandbits(48), 40)).split()
    family = w[0]
    world, _ = take_rings(w, 1)
    lines_only = r.random() < .04
    if r.random() < .03 or lines_only:
        world, family = [], "none"
    shp = os.path.join(work, "in put.shp" if r.random() < .2 else "obstacles.shp")
    if lines_only:
        write_lines(r, shp)
        kinds = ["line"]
    else:
        kinds = write_shapefile(r, shp, world, plain)
    for k in kinds:
        stat("records_" + k)
    want_rings = [normalise(p) for p in world]
    nv = sum(len(p) for p in want_rings)
    scene = family + " " + say_rings(want_rings)
    loaded, want_edges = take_content(ref.ask("load " + say_rings(want_rings)))
    if loaded is None:
        raise HarnessError("reference: " + want_edges)
    stat("worlds")
    state["samples"] += 1
    if state["samples"] <= 2:
        emit(t="sample", v="%s: %s" % (" ".join(kinds), scene[:700]))

    # the reader
    if r.random() < .5:  # a reader and a generator in use for long, or new ones
        reader, gen = state["reader"], state["generator"]
    else:
        reader, gen = ShapefileReader(), GraphGenerator()
    polys, err = answer(lambda: reader.read(shp))
    if err is not None:
        violate("reader-raised", "%s on %s (%s)" % (err, scene, kinds))
        return
    got = [normalise([(exact(c.longitude) or round(1e6 * c.longitude), exact(c.latitude) or round(1e6 * c.latitude)) for c in p.vertices]) for p in polys]
    if not same_rings(got, want_rings):
        violate("reader", "%s expected %s (%s)" % (show(got), show(want_rings), kinds))
        return

    # in one go
    full = os.path.join(work, "full")
    _, err = answer(lambda: gen.generate(shp, full))
    if err is not None:
        violate("generate-raised", "%s on %s (%s)" % (err, scene, kinds))
        return
    path = GraphFilePaths(full).default_graph_path
    if not check_file(ref, path, want_rings, want_edges, "generate", scene):
        return
    g, err = answer(lambda: vg.load_graph_from_file(path))
    if err is not None:
        violate("load-raised", "%s on %s" % (err, scene))
        return
    rings, vs, edges = graph_of(g)
    if not same_rings(rings, want_rings) or edges != set(want_edges):
        violate("graph-in-python", "obstacles %s edges %s expected %s %s" % (show(rings), show(sorted(edges)), show(want_rings), show(sorted(want_edges))))
        return
    size, fnv = ref.ask("print").split()
    text = repr(g)
    h = 1469598103934665603
    for b in text.encode():
        h = (h ^ b) * 1099511628211 & (1 << 64) - 1
    if (len(text.encode()), h) != (int(size), int(fnv)):
        violate("printed-form", "%s... of %s" % (text[:500], scene))
    allv = list(vs)
    for _ in range(min(20, nv * nv)):
        p, q = r.choice(allv), r.choice(allv)
        stat("edge_queries")
        if g.has_edge(vs[p], vs[q]) != ((p, q) in want_edges):
            violate("has_edge", "%s %s in %s" % (p, q, scene))
    if allv:
        p = r.choice(allv)
        off = (p[0], p[1] + (1 if p[1] < 0 else -1))
        if not g.has_vertex(vs[p]) or g.has_vertex(vg.VisGraphCoord(deg(off[0]), deg(off[1]))) != (off in vs):
            violate("has_vertex", "%s or %s in %s" % (p, off, scene))

    # obstacles from a reader of one's own
    if r.random() < .3:
        form = r.choice([list, tuple])
        held = form(Polygon([Coordinate(latitude=deg(y), longitude=deg(x)) for x, y in p]) for p in want_rings)
        asked = []

        class Held(IShapefileReader):
            def read(self, shape_file_path):
                asked.append(shape_file_path)
                return held
        own = GraphGenerator(Held()) if r.random() < .5 else GraphGenerator(shapefile_reader=Held())
        place, out = r.choice(["no file at all", shp]), os.path.join(work, "own")
        n_splits, seed = r.choice([1, 1, 2, 3]), r.getrandbits(16)
        parts = ["%s.%d" % (out, i) for i in range(n_splits)]
        for i, part in enumerate(parts):
            _, err = answer(lambda: own.generate(place, part) if n_splits == 1 else own.generate_for_vertex_range(place, part, i, n_splits, seed))
            if err is not None:
                violate("own-reader-raised", "%s on %s" % (err, scene))
                return
        if set(asked) != {place}:
            violate("own-reader-asked", "%s expected %s" % (asked, place))
        _, err = answer(lambda: GraphMerger().merge(parts, out))
        if err is not None:
            violate("merge-raised", "%s on %d parts from a reader of one's own, of %s" % (err, n_splits, scene))
            return
        stat("own_readers")
        if not check_file(ref, GraphFilePaths(out).default_graph_path, want_rings, want_edges, "obstacles from a reader of one's own", scene, False):
            return

    # in ranges, merged
    merged_path = None
    for _ in range(2):
        n_splits = r.choice([1, 2, 2, 3, 4, 5, 7, max(1, nv), nv + 2, r.randint(1, nv + 3)])
        n_splits = min(n_splits, 12 if r.random() < .9 else 60)
        seed = r.getrandbits(r.choice([3, 16, 32]))
        base = os.path.join(work, "split%d" % r.getrandbits(40))
        parts = []
        for i in range(n_splits):
            part = "%s.%d" % (base, i)
            _, err = answer(lambda: gen.generate_for_vertex_range(shp, part, i, n_splits, seed))
            if err is not None:
                violate("range-raised", "%s on range %d of %d, seed %d, of %s" % (err, i, n_splits, seed, scene))
                return
            parts.append(part)
            _, e = take_content(ref.ask("file " + os.path.abspath(GraphFilePaths(part).default_graph_path)))
            stat("ranges")
            if isinstance(e, dict) and not set(e) <= set(want_edges):
                violate("range-has-foreign-edges", "%s, range %d of %d, seed %d, of %s" % (sorted(set(e) - set(want_edges))[:4], i, n_splits, seed, scene))
                return
        r.shuffle(parts)
        merged = base + ".merged"
        _, err = answer(lambda: (state["merger"] if r.random() < .5 else GraphMerger()).merge(parts, merged))
        if err is not None:
            violate("merge-raised", "%s on %d ranges, seed %d, of %s" % (err, n_splits, seed, scene))
            return
        stat("merges")
        merged_path = merged
        mp = GraphFilePaths(merged).default_graph_path
        if not check_file(ref, mp, want_rings, want_edges, "merge of %d ranges, seed %d" % (n_splits, seed), scene, False):
            return
        m = vg.load_graph_from_file(mp)
        if not (m == g) or m != g:
            violate("merged-not-equal", "%d ranges, seed %d, of %s" % (n_splits, seed, scene))

    # interpolation
    if world:
        objects(r, ref, g, want_rings, want_edges, vs, path, work, scene)
        if state["violations"] > before:
            return
    del g, vs
    where_from = full if merged_path is None or r.random() < .5 else merged_path
    pi, err = answer(lambda: PathInterpolator(where_from))
    if err is not None:
        violate("interpolator-raised", "%s on %s" % (err, scene))
        return
    if r.random() < .3:
        gc.collect()
    if ref.ask("use " + os.path.abspath(GraphFilePaths(where_from).default_graph_path)) != "ok":
        raise HarnessError("reference cannot load " + where_from)
    nq = r.randint(4, 14)
    pts = [int(x) for x in ref.ask("points %d" % (2 * nq)).split()]
    pts = [(pts[i], pts[i + 1]) for i in range(0, len(pts), 2)]
    pts = [(p[0] + (r.choice([-PERIOD, PERIOD]) if r.random() < .07 else 0), p[1]) for p in pts]
    pairs = [(pts[2 * i], pts[2 * i + 1]) for i in range(nq)]
    if r.random() < .3:
        pairs.append(r.choice(pairs))
    if r.random() < .3:
        pairs.append((pts[0], pts[0]))

    def dto(p):
        return Coordinate(latitude=deg(p[1]), longitude=deg(p[0]))

    # the interpolators of earlier worlds are still there
    for old, old_pairs, old_args, old_want, old_about in state["interpolators"]:
        for (p, q), a_ in zip(old_pairs, old_want):
            stat("queries_of_earlier_interpolators")
            got, err = answer(lambda: old.interpolate(dto(p), dto(q), *old_args))
            about = "asked again of an interpolator made earlier: %s to %s %s" % (p, q, old_about)
            if err is None:
                check_route(got, a_, about)
            elif not a_.startswith("E "):
                violate("raised", "%s, expected %s, %s" % (err, a_, about))
        if state["violations"] > before:
            return
    if len(state["interpolators"]) > 1 and r.random() < .7:
        state["interpolators"].pop(r.randrange(2))
    hundreds = r.random() < .04
    if hundreds:
        stat("batches_of_hundreds")
        pairs += [r.choice(pairs) for _ in range(r.randint(130, 400))]
    known = {}
    for _ in range(1 if hundreds else 2):
        limit = math.inf if r.random() < .5 else r.choice([.5, 2., 10., 90., 300.]) * r.random()
        correct, greed = r.random() < .5, r.choice([1.0, 1.0, 0.0, 1.5, 10.0])
        style = r.choice(["default", "keyword", "positional"])
        if style == "default":
            limit, correct, greed = math.inf, False, 1.0
            args, kw = [], {}
        elif style == "keyword":
            args, kw = [], dict(search_distance_from_source_limit=limit, correct_vertices_on_land=correct, a_star_greediness_weighting=greed)
        else:
            args, kw = [limit, correct, greed], {}
        options = "%s %d %r" % ("inf" if limit == math.inf else repr(limit), correct, greed)
        for p, q in pairs:
            known[p, q, options] = known.get((p, q, options)) or ref.ask("ask %d %d %d %d %s" % (p + q + (options,)))
        want = [known[p, q, options] for p, q in pairs]
        about = "limit %r correct %r greediness %r (%s) in %s" % (limit, correct, greed, style, scene)
        for (p, q), a_ in list(zip(pairs, want))[:20]:
            stat("queries")
            got, err = answer(lambda: pi.interpolate(dto(p), dto(q), *args, **kw))
            if err is not None:
                stat("raised")
                if not a_.startswith("E "):
                    violate("raised", "%s to %s: %s, expected %s, %s" % (p, q, err, a_, about))
            else:
                check_route(got, a_, "%s to %s %s" % (p, q, about))
                if len(got) > 2:
                    stat("routes_with_turns")
                    nontrivial("%s %s %s %s" % (p, q, limit, scene))
            if state["violations"] > before:
                return
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            form = r.choice([list, list, tuple])
            batch, err = answer(lambda: pi.batch_interpolate(form((dto(p), dto(q)) for p, q in pairs), *args, **kw))
        if err is not None:
            violate("batch-raised", "%s, %s" % (err, about))
            return
        stat("batches")
        if len(batch) != len(pairs):
            violate("batch-length", "%d for %d, %s" % (len(batch), len(pairs), about))
            return
        messages = [str(c.message) for c in caught]
        failed = [a_[2:].strip() for a_ in want if a_.startswith("E ")]
        for i, (got, a_) in enumerate(zip(batch, want)):
            if a_.startswith("E "):
                stat("failed_in_batch")
                if got is not None:
                    violate("batch-answered", "position %d: %s, expected %s, %s" % (i, show(got), a_, about))
            elif got is None:
                violate("batch-none", "position %d is None, expected %s, %s" % (i, a_, about))
            else:
                check_route(got, a_, "position %d of batch %s to %s %s" % (i, pairs[i][0], pairs[i][1], about))
            if state["violations"] > before:
                return
        if len(messages) != len(failed) or not all(f in m.replace("\n", " ") for f, m in zip(failed, messages)):
            violate("batch-warnings", "%s for %s, %s" % (show(messages), show(failed), about))
            return
        if len(state["interpolators"]) < 2:
            state["interpolators"].append((pi, pairs[:5], [limit, correct, greed], want[:5], about))
    # several threads asking one interpolator, each in its own order
    if r.random() < .35 and known and not hundreds:
        asked = sorted(known.items(), key=lambda kv: str(kv[0]))
        orders = [r.sample(asked, min(len(asked), 12)) for _ in range(3)]
        together = [[None] * len(o) for o in orders]
        start = threading.Barrier(3)

        def ask_many(t):
            start.wait(60)
            for k, ((p, q, options), _) in enumerate(orders[t]):
                limit, correct, greed = options.split()
                together[t][k] = answer(lambda: pi.interpolate(dto(p), dto(q), float(limit), correct == "1", float(greed)))
        threads = [threading.Thread(target=ask_many, args=(t,)) for t in range(3)]
        for f, v in (("setswitchinterval", 1e-6), ("setcheckinterval", 1)):
            getattr(sys, f, lambda v: None)(v)
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for f, v in (("setswitchinterval", .005), ("setcheckinterval", 100)):
            getattr(sys, f, lambda v: None)(v)
        for o, answers in zip(orders, together):
            for ((p, q, options), a_), got_err in zip(o, answers):
                stat("queries_from_threads")
                about = "from one of three threads %s to %s %s in %s" % (p, q, options, scene)
                if got_err is None:
                    violate("thread", "no answer " + about)
                elif got_err[1] is None:
                    check_route(got_err[0], a_, about)
                elif not a_.startswith("E "):
                    violate("raised", "%s, expected %s, %s" % (got_err[1], a_, about))
                if state["violations"] > before:
                    return
    # what Python sees from a point
    if world:
        tree = vg.VistreeGenerator([vg.VisGraphPolygon([vg.VisGraphCoord(deg(x), deg(y)) for x, y in p]) for p in want_rings])
        for p in pts[:4]:
            half = r.random() < .5
            want = sorted(tuple(int(x) for x in t) for t in zip(*[iter(ref.ask("sees %d %d %d" % (p[0], p[1], half)).split())] * 3))
            got, err = answer(lambda: sorted((exact(v.coord.longitude), exact(v.coord.latitude), int(v.is_visible_across_meridian))
                                             for v in tree.get_visible_vertices(vg.VisGraphCoord(deg(p[0]), deg(p[1])), half)))
            stat("observers")
            if err is not None or got != want:
                violate("visible-vertices", "from %s half %s: %s %s expected %s in %s" % (p, half, err, show(got), show(want), scene))
                return


def objects(r, ref, g, rings, edges, vs, path, work, scene):
    """The wrapped classes and functions themselves."""
    def coord(p):
        return vg.VisGraphCoord(deg(p[0]), deg(p[1]))

    def differ(key, *what):
        violate(key, " ".join(show(w) for w in what) + " in " + scene)

    stat("object_rounds")
    polys = [vg.VisGraphPolygon([coord(p) for p in ring]) for ring in rings]
    forms = ref.ask("forms").split("|")
    if [repr(polys[0]), repr(polys[0].vertices[0])] != forms:
        differ("printed-object", repr(polys[0]), forms)
    i, j = r.randrange(len(rings)), r.randrange(len(rings))
    if (polys[i] == polys[j]) != (i == j) or (polys[i] != polys[j]) != (i != j) or polys[i] != vg.VisGraphPolygon([coord(p) for p in rings[i]]):
        differ("polygon-equality", rings[i], rings[j])
    # generated, merged and saved from Python
    made = vg.generate_visgraph(polys)
    nv, seed = sum(len(p) for p in rings), r.getrandbits(32)
    cut = r.randint(0, nv)
    parts = [vg.generate_visgraph_with_shuffled_range(polys, a, b, seed) for a, b in ((0, cut), (cut, nv))]
    merged = vg.merge_graphs(parts)
    for name, x in (("generated", made), ("merged", merged)):
        if not (x == g) or x != g or repr(x) != repr(g):
            differ("graph-in-python", name, repr(x)[:500], repr(g)[:500])
    again = os.path.join(work, "again")
    vg.save_graph_to_file(g, again)
    with open(again, "rb") as f, open(path, "rb") as f2:
        if f.read() != f2.read():
            differ("file-saved-again")
    # made edge by edge
    m, pairs = vg.VisGraph(polys), [e for e in edges if e[0] < e[1]]
    r.shuffle(pairs)
    for k, (p, q) in enumerate(pairs):
        if k == 0 and m == g:
            differ("graph-equality", "no edges")
        m.add_edge(*([vs[p], vs[q]] if r.random() < .5 else [coord(q), coord(p)]), edges[p, q])
    if m != g or not m == g:
        differ("graph-equality", repr(m)[:500], repr(g)[:500])
    # path computers
    pc = vg.VisGraphShortestPathComputer(g)
    del m, made, merged, parts
    if ref.ask("use " + os.path.abspath(path)) != "ok":
        raise HarnessError("reference cannot load " + path)
    pts = [int(x) for x in ref.ask("points 8").split()]
    pts = [(pts[i], pts[i + 1]) for i in range(0, 16, 2)]
    pairs = [(pts[i], pts[i + 1]) for i in range(0, 8, 2)]
    limit, correct, greed = r.choice([math.inf, r.uniform(0, 20)]), r.random() < .5, r.choice([1.0, 1.7])
    given = [("maximum_distance_to_search_from_source", limit), ("correct_vertices_on_land", correct), ("a_star_greediness_weighting", greed)]
    r.shuffle(given)
    given = dict(given[:r.randint(0, 3)])
    options = "%s %d %r" % (repr(given.get("maximum_distance_to_search_from_source", math.inf)), given.get("correct_vertices_on_land", False), given.get("a_star_greediness_weighting", 1.0))
    want = [ref.ask("ask %d %d %d %d %s" % (p + q + (options,))) for p, q in pairs]
    about = "%s in %s" % (given, scene)
    if r.random() < .5:
        results, err = answer(lambda: pc.shortest_paths([(coord(p), coord(q)) for p, q in pairs], **given))
    else:
        results, err = answer(lambda: pc.shortest_paths(source_dest_pairs=[(coord(p), coord(q)) for p, q in pairs], **given))
    if err is not None or len(results) != len(pairs):
        violate("batch-of-computer", "%s %s, %s" % (err, results, about))
        return
    for (p, q), w, x in zip(pairs, want, results):
        stat("queries_of_computers")
        at = "%s to %s, %s" % (p, q, about)
        if r.random() < .5:
            got, err = answer(lambda: pc.shortest_path(coord(p), coord(q), **given))
        else:
            got, err = answer(lambda: pc.shortest_path(destination=coord(q), source=coord(p), **given))
        if (x.path is None) == (x.error_msg is None) or (x.path is None) != (err is not None) or (err is not None) != w.startswith("E "):
            violate("computer-raises", "single %s, batch %s, expected %s, %s" % (err, x.error_msg, w, at))
        elif err is not None:
            if not err.replace("\n", " ") == x.error_msg.replace("\n", " ") == w[2:]:
                violate("computer-message", "single %s, batch %s, expected %s, %s" % (err, x.error_msg, w, at))
        else:
            w = [int(t) for t in w.split()[1:]]
            w = list(zip(w[::2], w[1::2]))
            for y in (got, x.path):
                if [(exact(c.longitude), exact(c.latitude)) for c in y] != w:
                    violate("computer-route", "%s expected %s, %s" % (show(y), w, at))


def coordinates(r):
    """Degrees of at most six decimals in and out."""
    for _ in range(60):
        k, l = r.randint(-LON, LON), r.randint(-90000000, 90000000)
        dec = r.choice([0, 1, 2, 3, 4, 5, 6])
        k, l = k // 10 ** (6 - dec) * 10 ** (6 - dec), l // 10 ** (6 - dec) * 10 ** (6 - dec)
        x, y = k / 1e6, l / 1e6
        c = vg.VisGraphCoord(x, y)
        stat("coordinates")
        for name, v, want in (("longitude", c.longitude, k), ("latitude", c.latitude, l)):
            got = exact(v)
            if got != want:
                given = want / 1e6
                if got == int(1e6 * given) and abs(got - want) == 1:
                    stat("truncated_coordinates")
                    if not state.get("truncated"):
                        state["truncated"] = True
                        violate("degrees-truncated", "%s %r is kept as %r" % (name, given, v))
                        state["violations"] -= 1
                else:
                    violate("coordinate", "%s %r is kept as %r" % (name, given, v))
        d = vg.VisGraphCoord(deg(r.randint(-9000000, 9000000)), deg(r.randint(-9000000, 9000000)))
        e = vg.VisGraphCoord(deg(r.randint(-9000000, 9000000)), deg(r.randint(-9000000, 9000000)))
        D, E = [(exact(t.longitude), exact(t.latitude)) for t in (d, e)]
        for name, got, want in (("+", d + e, (D[0] + E[0], D[1] + E[1])), ("-", d - e, (D[0] - E[0], D[1] - E[1])), ("negative", -d, (-D[0], -D[1]))):
            if (exact(got.longitude), exact(got.latitude)) != want:
                violate("coordinate-arithmetic", "%s of %s and %s is %r" % (name, D, E, got))
        k = r.choice([2., -1., .5, 3., .1, r.uniform(.06, 5)])
        for name, got, want in (("times", d * k, (D[0] * k, D[1] * k)), ("over", d / k, (D[0] / k, D[1] / k))):
            if max(abs(round(got.longitude * 1e6) - want[0]), abs(round(got.latitude * 1e6) - want[1])) > 1.01 and max(map(abs, want)) < 90000000:
                violate("coordinate-arithmetic", "%s %s %r is %r" % (D, name, k, got))
        if (d == e) != (D == E) or (d != e) != (D != E) or not d == vg.VisGraphCoord(deg(D[0]), deg(D[1])):
            violate("coordinate-equality", "%s and %s" % (D, E))
        for name, got, want in (("dot", d.dot_product(e), (D[0] * E[0] + D[1] * E[1]) / 1e12),
                                ("cross", d.cross_product_magnitude(e), (D[0] * E[1] - D[1] * E[0]) / 1e12),
                                ("magnitude", d.magnitude(), math.hypot(*D) / 1e6), ("square", d.magnitude_squared(), (D[0] ** 2 + D[1] ** 2) / 1e12)):
            if abs(got - want) > 1e-9 * (1 + abs(want)):
                violate("coordinate-arithmetic", "%s of %s and %s is %r, expected %r" % (name, D, E, got, want))


# ------------------------------------------------------------------ C25: what cannot be done is refused without harm
def tree(top):
    """Everything below a folder, with contents."""
    res = {}
    for d, ds, fs in os.walk(top):
        res[os.path.relpath(d, top)] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                res[os.path.relpath(os.path.join(d, f), top)] = hashlib.sha256(h.read()).hexdigest()
    return res


def descriptors():
    for _ in range(3):
        gc.collect()
    return len(os.listdir("/proc/self/fd"))


def damage(r, path):
    """Makes a file one that cannot be what it should be. -> how"""
    how = r.choice(["missing", "empty", "short", "folder", "header"])
    size = os.path.getsize(path)
    if how == "folder":
        os.unlink(path)
        os.mkdir(path)
    elif how == "missing":
        os.unlink(path)
    else:
        with open(path, "r+b") as f:
            if how == "header":
                f.write(bytes(b ^ 255 for b in f.read(8)) if size >= 8 and not f.seek(0) else b"")
                f.seek(0)
                f.write(b"\xff" * 8)
            else:
                f.truncate(0 if how == "empty" else r.randrange(1, max(2, size // 2)))
    return how


def trouble(n, r, ref, work):
    before = state["violations"]
    stat("evaluations")
    w = ref.ask("scene %d %d" % (r.getrandbits(48), 14)).split()
    family, (world, _) = w[0], take_rings(w, 1)
    if not world:
        return
    shp = os.path.join(work, "obstacles.shp")
    write_shapefile(r, shp, world, r.random() < .5)
    scene = family + " " + say_rings(world)
    gen, merger = state["generator"], state["merger"]
    full, full2 = os.path.join(work, "full"), os.path.join(work, "full2")
    gen.generate(shp, full)
    merger.merge([full, full], full2)
    path = GraphFilePaths(full).default_graph_path
    g = vg.load_graph_from_file(path)
    pi = PathInterpolator(full)
    if ref.ask("use " + os.path.abspath(path)) != "ok":
        raise HarnessError("reference cannot load " + path)
    pts = [int(x) for x in ref.ask("points 12").split()]
    pts = [(pts[i], pts[i + 1]) for i in range(0, len(pts), 2)]
    pairs = [(pts[2 * i], pts[2 * i + 1]) for i in range(len(pts) // 2)]

    def dto(p):
        return Coordinate(latitude=deg(p[1]), longitude=deg(p[0]))

    def answers():
        got = [answer(lambda: [(exact(c.longitude), exact(c.latitude)) for c in pi.interpolate(dto(p), dto(q))]) for p, q in pairs]
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            batch = pi.batch_interpolate([(dto(p), dto(q)) for p, q in pairs])
        return got + [None if b is None else [(exact(c.longitude), exact(c.latitude)) for c in b] for b in batch] + [repr(g)]

    known = answers()
    state["samples"] += 1
    held = descriptors()

    def refused(what, f, kind=Exception):
        """f raises an error, and nothing that was there has changed."""
        was = tree(work)
        stat("refusals_expected")
        try:
            f()
        except Exception as e:  # noqa
            stat("raised_" + type(e).__name__)
        else:
            violate("not-refused", "%s, in %s" % (what, scene))
        now = tree(work)
        if any(k not in now or now[k] != v for k, v in was.items()):
            violate("harm-done", "%s: %s, in %s" % (what, [k for k in was if now.get(k, 0) != was[k]][:4], scene))
        return [k for k in now if k not in was]

    def no_graph(what, new):
        for k in new:
            k = os.path.join(work, k)
            if os.path.isfile(k):
                content, err = take_content(ref.ask("file " + os.path.abspath(k)))
                if content is not None:
                    violate("graph-left-behind", "%s: %s, in %s" % (what, k, scene))

    def no_output(what, f):
        out_ = os.path.join(work, "out%d" % r.getrandbits(40))
        no_graph(what, refused(what, lambda: f(out_)))

    C_ = vg.VisGraphCoord
    poly = vg.VisGraphPolygon([C_(deg(x), deg(y)) for x, y in world[0]])
    calls = {
        "computer of None": lambda: vg.VisGraphShortestPathComputer(None),
        "save None": lambda: vg.save_graph_to_file(None, os.path.join(work, "none")),
        "merge None": lambda: vg.merge_graphs([None]),
        "merge with None": lambda: vg.merge_graphs([g, None, g]),
        "graph of None": lambda: vg.VisGraph(None),
        "graph of Nones": lambda: vg.VisGraph([poly, None]),
        "polygon of None": lambda: vg.VisGraphPolygon([C_(1., 1.), None]),
        "polygon of numbers": lambda: vg.VisGraphPolygon([1, 2, 3]),
        "coordinate of text": lambda: C_("1", 2.),
        "coordinate of one": lambda: C_(1.),
        "coordinate plus number": lambda: C_(1., 1.) + 1,
        "vertex None": lambda: g.has_vertex(None),
        "edge of None": lambda: g.has_edge(C_(1., 1.), None),
        "add edge of None": lambda: g.add_edge(None, C_(1., 1.), True),
        "add edge between strangers": lambda: g.add_edge(C_(-179.5, 89.5), C_(179.5, -89.5), True),
        "neighbours of a stranger": lambda: g.get_neighbors(C_(-179.51, 89.53)),
        "path from None": lambda: vg.VisGraphShortestPathComputer(g).shortest_path(None, C_(1., 1.)),
        "paths of Nones": lambda: vg.VisGraphShortestPathComputer(g).shortest_paths([(C_(1., 1.), None)]),
        "paths of one": lambda: vg.VisGraphShortestPathComputer(g).shortest_paths([(C_(1., 1.),)]),
        "path with text for a limit": lambda: vg.VisGraphShortestPathComputer(g).shortest_path(C_(1., 1.), C_(2., 2.), "far"),
        "tree of None": lambda: vg.VistreeGenerator(None),
        "look from None": lambda: vg.VistreeGenerator([poly]).get_visible_vertices(None, False),
        "load None": lambda: vg.load_graph_from_file(None),
        "load nothing": lambda: vg.load_graph_from_file(os.path.join(work, "nothing")),
        "load a folder": lambda: vg.load_graph_from_file(work),
        "load a shapefile's index": lambda: vg.load_graph_from_file(shp[:-3] + "shx"),
        "save into nowhere": lambda: vg.save_graph_to_file(g, os.path.join(work, "no", "where")),
        "save onto a folder": lambda: vg.save_graph_to_file(g, full),
        "generate None": lambda: vg.generate_visgraph(None),
        "generate of Nones": lambda: vg.generate_visgraph([None]),
        "range beyond": lambda: vg.generate_visgraph_with_shuffled_range([poly], 0, 10 ** 9, 3),
        "range backwards": lambda: vg.generate_visgraph_with_shuffled_range([poly], 2, 1, 3),
        "range before": lambda: vg.generate_visgraph_with_shuffled_range([poly], -1, 1, 3),
        "interpolate None": lambda: pi.interpolate(None, dto(pts[0])),
        "interpolate text": lambda: pi.interpolate(Coordinate(latitude="a", longitude="b"), dto(pts[0])),
        "interpolate in a batch": lambda: pi.batch_interpolate([(dto(pts[0]), dto(pts[1])), (None, dto(pts[0]))]),
        "a batch of None": lambda: pi.batch_interpolate(None),
        "a batch of three": lambda: pi.batch_interpolate([dto(pts[0])]),
        "interpolator of nothing": lambda: PathInterpolator(os.path.join(work, "nothing")),
        "interpolator of a shapefile": lambda: PathInterpolator(shp),
    }
    for _ in range(r.randint(5, 10)):
        what = r.choice(["there", "there", "shapefile", "range", "merge", "load", "call", "call", "call"])
        if what == "there":  # into places that exist
            kind = r.choice(["graph", "empty folder", "file", "shapefile", "folder with something"])
            place = full if kind == "graph" else shp if kind == "shapefile" else os.path.join(work, "place%d" % r.getrandbits(30))
            if kind == "empty folder":
                os.mkdir(place)
            elif kind == "file":
                with open(place, "w") as f:
                    f.write("something")
            elif kind == "folder with something":
                os.mkdir(place)
                with open(os.path.join(place, r.choice(["default", "notes"])), "w") as f:
                    f.write("something")
            f, name = r.choice([(lambda: gen.generate(shp, place), "generate"), (lambda: gen.generate_for_vertex_range(shp, place, 0, 2, 3), "range"),
                                (lambda: merger.merge([full2, full2], place), "merge")])
            new = refused("%s into a %s" % (name, kind), f)
            if new:
                violate("harm-done", "%s into a %s: new %s, in %s" % (name, kind, new, scene))
            stat("existing_outputs")
        elif what == "shapefile":
            bad = os.path.join(work, "bad%d" % r.getrandbits(30))
            for x in ("shp", "shx", "dbf"):
                shutil.copy(shp[:-3] + x, bad + "." + x)
            how = damage(r, bad + ".shp")
            f = r.choice([lambda o: gen.generate(bad + ".shp", o), lambda o: gen.generate_for_vertex_range(bad + ".shp", o, 1, 2, 3)])
            if how in ("header",):  # the reader takes no notice of the first bytes
                o = os.path.join(work, "out%d" % r.getrandbits(40))
                answer(lambda: f(o))
            elif how == "missing":
                no_output("shapefile " + how, f)
            else:
                no_output("shapefile " + how, f)
            stat("shapefiles_damaged")
        elif what == "range":
            k = r.choice([(0, 0), (2, 2), (5, 3), (-1, 2), (0, -1), (-1, -1), ("a", 2), (0, None), (-1, 1000), (1000, 1000), (1001, 1000)])
            o = os.path.join(work, "out%d" % r.getrandbits(40))
            was = tree(work)
            _, err = answer(lambda: gen.generate_for_vertex_range(shp, o, k[0], k[1], 3))
            now = tree(work)
            if any(now.get(x, 0) != v for x, v in was.items()):
                violate("harm-done", "range %s of %s, in %s" % (k + (scene,)))
            if err is None:
                violate("not-refused", "split %s of %s, in %s" % (k + (scene,)))
            else:
                no_graph("range %s of %s" % k, [x for x in now if x not in was])
            stat("improper_ranges")
        elif what in ("merge", "load"):
            bad = os.path.join(work, "bad%d" % r.getrandbits(30))
            shutil.copytree(full, bad)
            how = r.choice(["damaged", "damaged", "damaged", "no folder", "a file", "nameless", "None"])
            if how == "damaged":
                how = damage(r, GraphFilePaths(bad).default_graph_path)
            elif how == "nameless":
                bad = ""
            elif how == "None":
                bad = None
            else:
                shutil.rmtree(bad)
                if how == "a file":
                    shutil.copy(path, bad)
            if what == "load":
                refused("interpolator of a graph that is %s" % how, lambda: PathInterpolator(bad))
            else:
                inputs = [full, full2][:r.randint(0, 2)]
                inputs.insert(r.randint(0, len(inputs)), bad)
                no_output("merge with a graph that is %s" % how, lambda o: merger.merge(inputs, o))
            stat("graphs_damaged")
        else:
            name = r.choice(sorted(calls))
            new = refused(name, calls[name])
            no_graph(name, new)
            stat("unsuitable_calls")
            sigs.add(int(hashlib.sha256((name + scene).encode()).hexdigest()[:12], 16))
        if state["violations"] > before:
            return
        if r.random() < .3 and answers() != known:
            violate("answers-changed", "after %s, in %s" % (what, scene))
            return
    if answers() != known:
        violate("answers-changed", scene)
    left = descriptors()
    if left > held:
        violate("descriptors-left", "%d instead of %d, in %s" % (left, held, scene))
    # what could not be done before can be done now
    again = os.path.join(work, "again")
    gen.generate(shp, again)
    with open(GraphFilePaths(again).default_graph_path, "rb") as f, open(path, "rb") as f2:
        if f.read() != f2.read():
            violate("generates-otherwise-afterwards", scene)
    merger.merge([again, full2], os.path.join(work, "merged"))
    if not vg.load_graph_from_file(GraphFilePaths(os.path.join(work, "merged")).default_graph_path) == g:
        violate("merges-otherwise-afterwards", scene)


# ------------------------------------------------------------------ C26: coordinates, polygons and paths as Python values
def number(r, near=None):
    k = r.randrange(12)
    if near is not None and k < 3:
        bits = struct.unpack("<q", struct.pack("<d", near))[0]
        return near if near == 0 else struct.unpack("<d", struct.pack("<q", bits + r.choice([-1, 1])))[0] if k == 0 else near + r.choice([-1e-6, 1e-6, 1e-9]) if k == 1 else -near
    if k < 5:
        return float(r.randint(-180, 180))
    if k < 8:
        return r.randint(-180000000, 180000000) / 1e6
    if k == 8:
        return r.choice([0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 5e-324, -5e-324, 1e-7, 359.999999, 1e300])
    if k == 9:
        return r.randint(-180, 180)  # whole numbers are numbers
    return r.uniform(-180, 180)


def same_number(a, b):
    return type(a) is type(b) and (a == b if isinstance(a, int) else struct.pack("<d", a) == struct.pack("<d", b))


class OtherPolygon(IPolygon):
    def __init__(self, vs):
        self._vs = vs

    @property
    def vertices(self):
        return self._vs

    def __eq__(self, other):
        return isinstance(other, IPolygon) and self._vs == other.vertices

    def __repr__(self):
        return "other"


def values(n, r):
    # coordinates
    pairs = []
    for _ in range(r.randint(2, 9)):
        a, b = number(r), number(r)
        if pairs and r.random() < .6:
            p = r.choice(pairs)
            a, b = r.choice([(p[1], p[0]), (p[0], b), (a, p[1]), p, (number(r, float(p[0])), p[1]), (p[0], number(r, float(p[1]))), (float(p[0]), float(p[1]))])
        pairs.append((a, b))
    cs = [Coordinate(latitude=a, longitude=b) if r.random() < .7 else Coordinate(a, b) for a, b in pairs]
    for (a, b), c in zip(pairs, cs):
        stat("evaluations")
        if not same_number(c.latitude, a) or not same_number(c.longitude, b):
            violate("coordinate", "of %r, %r: %r" % (a, b, c))
        for x in ("latitude", "longitude"):
            try:
                setattr(c, x, number(r))
            except Exception:  # noqa
                pass
            else:
                violate("coordinate-altered", "%r" % (c,))
        for other in (copy.copy(c), copy.deepcopy(c), pickle.loads(pickle.dumps(c))):
            if not (other == c) or other != c or hash(other) != hash(c):
                violate("coordinate-copied", "%r and %r" % (c, other))
        for other in ((a, b), [a, b], None, a, str(c), object()):
            if c == other or not c != other:
                violate("coordinate-equal", "%r and %r" % (c, other))
        if not same_number(c.latitude, a) or not same_number(c.longitude, b):
            violate("coordinate-altered", "of %r, %r: %r" % (a, b, c))
    for i, c in enumerate(cs):
        for j, d in enumerate(cs):
            same = pairs[i] == pairs[j]
            if (c == d) != same or (c != d) == same or (same and hash(c) != hash(d)):
                violate("coordinate-equal", "%r and %r" % (c, d))
            if not same and repr(c) == repr(d):
                violate("coordinate-printed", "%r and %r" % (c, d))
            stat("equal_coordinates" if same else "unequal_coordinates")
    if len(set(cs)) != len(set(pairs)) or any(c not in set(cs) or {d: k for k, d in enumerate(cs)}[c] != max(k for k, p in enumerate(pairs) if p == q) for c, q in zip(cs, pairs)):
        violate("coordinate-in-a-set", "%r" % (cs,))
    # moved into range
    for _ in range(6):
        a, b = [r.choice([number(r) if r.random() < .5 else r.uniform(-2000, 2000), float(r.randint(-12, 12) * 90), r.randint(-12, 12) * 90 + r.choice([1e-6, -1e-6, 1e-13, -1e-13])]) for _ in range(2)]
        if max(abs(a), abs(b)) > 1e4:
            continue
        c = construct_coord_in_lat_lon_range(latitude=a, longitude=b)
        stat("evaluations")
        for x, got, period, limit in ((a, c.latitude, 180, 90), (b, c.longitude, 360, 180)):
            off = math.fmod(got - x, period)
            if not abs(got) <= limit + 1e-9 or min(abs(off), period - abs(off)) > 1e-11 * max(1, abs(x)):
                violate("into-range", "%r, %r gives %r" % (a, b, c))
        stat("into_range")
    # polygons
    vs = [r.choice(cs) if r.random() < .4 else Coordinate(latitude=number(r), longitude=number(r)) for _ in range(r.randint(0, 9))]
    given = list(vs) if r.random() < .6 else tuple(vs)
    p, err = answer(lambda: Polygon(given) if r.random() < .5 else Polygon(vertices=given))
    if len(vs) < 3:
        stat("too_few_vertices")
        if err is None:
            violate("polygon-of-too-few", "%r" % (vs,))
    elif err is not None:
        violate("polygon-refused", "%s: %r" % (err, vs))
    else:
        if isinstance(given, list):
            for _ in range(r.randint(1, 3)):
                r.choice([lambda: given.append(cs[0]), lambda: given.reverse(), lambda: given.clear(), lambda: given.insert(0, cs[0]), lambda: given.__delitem__(slice(0, 1))])()
        if not isinstance(p, IPolygon) or len(p.vertices) != len(vs) or any(x is not y and not (same_number(x.latitude, y.latitude) and same_number(x.longitude, y.longitude)) for x, y in zip(p.vertices, vs)):
            violate("polygon", "of %r: %r" % (vs, p))
        ws = list(vs)
        k = r.randrange(8)
        if k == 0:
            ws.reverse()
        elif k == 1:
            ws = ws[1:] + ws[:1]
        elif k == 2:
            ws.append(ws[r.randrange(len(ws))])
        elif k == 3:
            del ws[r.randrange(len(ws))]
        elif k == 4:
            i = r.randrange(len(ws))
            ws[i] = Coordinate(latitude=number(r, float(ws[i].latitude)), longitude=ws[i].longitude)
        elif k == 5:
            i = r.randrange(len(ws))
            ws[i] = Coordinate(latitude=ws[i].longitude, longitude=ws[i].latitude)
        elif k == 6:
            i, j = r.randrange(len(ws)), r.randrange(len(ws))
            ws[i], ws[j] = ws[j], ws[i]
        if len(ws) >= 3:
            same = [(x.latitude, x.longitude) for x in vs] == [(x.latitude, x.longitude) for x in ws]
            q = Polygon(ws)
            o = OtherPolygon(list(ws))
            if (p == q) != same or (q == p) != same or (p != q) == same or (p == o) != same or (o == p) != same or (p != o) == same:
                violate("polygon-equal", "%r and %r" % (p, q))
            if not same and repr(p) == repr(q):
                violate("polygon-printed", "%r and %r" % (p, q))
            stat("equal_polygons" if same else "unequal_polygons")
        for other in (vs, tuple(vs), None, repr(p), cs[0]):
            if p == other or not p != other:
                violate("polygon-equal", "%r and %r" % (p, other))
        for other in (copy.copy(p), copy.deepcopy(p), pickle.loads(pickle.dumps(p))):
            if other != p:
                violate("polygon-copied", "%r and %r" % (p, other))
        if len(p.vertices) != len(vs) or list(p.vertices) != vs:
            violate("polygon-altered", "%r and %r" % (p, vs))
        stat("evaluations")
        nontrivial(repr(p))
    # where graphs are kept
    folder = os.path.join(*r.choice([["a"], ["a", "b"], ["/", "a b", "c"], ["..", "\u00fc"], ["a", ""], ["."], ["default"]])) + r.choice(["", str(r.randint(0, 99))])
    f = GraphFilePaths(folder)
    if os.path.abspath(f.folder_path) != os.path.abspath(folder) or os.path.dirname(os.path.abspath(f.default_graph_path)) != os.path.abspath(folder) or os.path.abspath(f.default_graph_path) != os.path.abspath(GraphFilePaths(folder).default_graph_path):
        violate("graph-file-paths", "%r: %r and %r" % (folder, f.folder_path, f.default_graph_path))
    # what is drawn
    if n % 8 == 0:
        few = r.randint(3, 6)
        many = few + r.randint(0, 6)

        def run(strategy, judge):
            @hypothesis.seed(r.getrandbits(40))
            @hypothesis.settings(max_examples=40, database=None, deadline=None, suppress_health_check=list(hypothesis.HealthCheck), verbosity=hypothesis.Verbosity.quiet)
            @hypothesis.given(strategy)
            def go(x):
                stat("drawn")
                judge(x)
            _, e = answer(go)
            if e is not None and not state["violations"]:
                violate("cannot-be-drawn", "%s: %s" % (strategy, e))

        def in_range(c):
            if not isinstance(c, Coordinate) or not abs(c.latitude) <= 90 or not abs(c.longitude) <= 180:
                violate("drawn-out-of-range", "%r" % (c,))

        def proper(p):
            if not isinstance(p, Polygon) or not few <= len(p.vertices) <= many or len({(c.latitude, c.longitude) for c in p.vertices}) != len(p.vertices):
                violate("drawn-polygon", "%r, of %d to %d vertices" % (p, few, many))
            for c in p.vertices:
                in_range(c)

        run(coordinate_strategy(), in_range)
        run(polygon_strategy(min_num_vertices=few, max_num_vertices=many), proper)
        if n % 16 == 0:
            few, many = 3, 10
            run(polygon_strategy(), proper)


def main():
    if A.prop == "C26":
        ref = None
    else:
        ref = Ref()
    t0 = time.time()
    for n in range(A.shard, A.cases, A.nshards):
        if A.only >= 0 and n != A.only:
            continue
        if time.time() - t0 > A.soft:
            stats["cut_short"] = 1
            break
        if state["violations"] >= 8:
            break
        state["case"] = n
        emit(t="case", n=n)
        r = random.Random(A.seed * 1000003 + n * 7919)
        try:
            case(n, r, ref)
        except HarnessError as e:
            emit(t="harness_error", v=str(e))
            sys.exit(3)
    for k, v in stats.items():
        emit(t="stat", k=k, v=v)
    emit(t="sigs", v=sorted(sigs))
    emit(t="done")
    if ref is not None:
        ref.p.stdin.close()


main()
