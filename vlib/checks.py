"""What each check runs: harness programs, builds, amounts, and what must at least be observed."""
from vlib.run import Job


class Check:
    def __init__(self, jobs, rule, minimum=None, assumptions=()):
        self.jobs, self.rule, self.minimum, self.assumptions = jobs, rule, minimum or {}, list(assumptions)


def amount(tier, quick, thorough):
    return quick if tier == "quick" else thorough


SOFT = {"quick": 200, "thorough": 3000}
CHECKS = {}

SCENES = ("Random obstacle scenes from ten families (local, lattice-aligned, world-scale, astride the antimeridian, sparse, tiny, "
          "regular grids, dense, offset anywhere on the map, one large ring; some checks also use needles, very long and thin, continents, right-angled cities, fractal "
          "shores, polar shores, land with corners on the antimeridian itself, corners of equal hash, archipelagos of hundreds to thousands of corners and amphitheatres "
          "all of whose corners are seen from one place). ")


def vis(tier):
    s = SOFT[tier]
    return [Job("vis", "fast", amount(tier, 1600, 30000), "gen", soft=s), Job("vis", "fast", amount(tier, 1600, 30000), "obs", soft=s)]


for p in ("C01", "C02"):
    CHECKS[p] = Check(
        vis,
        SCENES + "Mode gen generates the graph and compares every vertex pair, direct and across the antimeridian, with an exact-arithmetic "
        "line-of-sight oracle; mode obs does so for vistrees from observers at vertices, on edges, aligned with vertices or edges, next to their lines, close to "
        "obstacles and anywhere. A case is one scene (gen) or observer (obs); non-trivial when the oracle finds both blocked and clear "
        "sightlines in it.",
        {"pairs_blocked": 1000, "pairs_clear": 1000, "sightlines_blocked": 1000, "sightlines_clear": 1000, "crossing_edges": 100},
        ["sightlines within 4 microdegrees of touching an obstacle are not judged", "the reference geometry in harness/geo.hpp"])

def gen(tier):
    s = SOFT[tier]
    return [Job("gen", "fast", amount(tier, 800, 12000), soft=s), Job("gen", "yield", amount(tier, 240, 5000), "yield", soft=s)]


CHECKS["C03"] = Check(
    gen,
    SCENES + "Each is generated once sequentially and then in random presentations (order of obstacles, starting vertex, winding) on 1-8, rarely up to 40 "
    "threads with delays and shuffled loop chunks (own OpenMP runtime), in the yield build also with delays at memory accesses of the "
    "library, and in random shuffled-range partitions that are merged; every graph is compared edge by edge with the first. An "
    "evaluation is one comparison; distinct counts presentations together with the schedule (which thread took which chunk, in order).",
    {"parallel_generations": 500, "ranges": 500, "edges_compared": 10000},
    ["schedules are sampled, not enumerated"])


def merging(tier):
    s = SOFT[tier]
    return [Job("gen", "fast", amount(tier, 6000, 100000), soft=s), Job("gen", "yield", amount(tier, 3000, 60000), "yield", soft=s)]


CHECKS["C13"] = Check(
    merging,
    "Lists of 0-6, and now and then of up to 70 random graphs over a common pool of obstacles (subsets, overlapping edges, random flags, repetitions, nested merges) are "
    "merged on 1-8 perturbed threads and compared with a set model; the inputs are compared with their content before. An evaluation is one "
    "merge; distinct ones merge at least two graphs into one with edges and differ in content or schedule.",
    {"merges": 1000, "edges_checked": 10000}, ["schedules are sampled, not enumerated"])

QUERIES = (SCENES + "Also walls that close the way round the world. Query points anywhere, near obstacles, in bays, at obstacle vertices and on "
           "land; limits around the distance; greediness -1 to a million; some pairs asked before under other options. The monitor compares every answer with a brute-force router over all "
           "unobstructed segments (exact line-of-sight, lower and upper bounds where a sightline grazes) and spherical geometry. ")


def paths(quick, thorough):
    return lambda tier: [Job("path", "fast", amount(tier, quick, thorough), soft=SOFT[tier])]


CHECKS["C04"] = Check(
    paths(3200, 60000), QUERIES + "An evaluation is one query; non-trivial when the answer has waypoints.",
    {"routed_answers": 3000, "direct_answers": 1000, "moved_ends": 1000},
    ["penetration below 6 microdegrees (land-corrected ends: plus the difference between straight and geodesic edges) is not judged"])
CHECKS["C05"] = Check(
    paths(3200, 60000), QUERIES + "An evaluation is one query; non-trivial when a routed answer was compared with the reference length.",
    {"lengths_compared": 3000, "lengths_exact": 1000, "in_clear_sight": 1000},
    ["sightlines within 4 microdegrees of touching an obstacle may or may not be used", "optimality is not claimed after land correction"])
CHECKS["C06"] = Check(
    paths(3200, 60000), QUERIES + "An evaluation is one query; non-trivial when it started or ended on land, raised under a limit, or was routed under one.",
    {"raised_under_limit": 1000, "on_land_refused": 500, "lengths_compared": 1000},
    ["waypoints within 10 microdegrees of the limit may or may not be used"])
CHECKS["C07"] = Check(
    paths(16000, 200000), QUERIES + "An evaluation is one query; non-trivial when an end was on land.",
    {"moved_ends": 3000, "kept_ends": 3000}, ["points within 10 microdegrees of a shore are not judged"])

def jobs(*specs):
    """specs: (harness, variant, mode, quick, thorough[, hang])"""
    def f(tier):
        return [Job(x[0], x[1], amount(tier, x[3], x[4]), x[2], soft=SOFT[tier], hang=x[5] if len(x) > 5 else 120) for x in specs]
    return f


CHECKS["C08"] = Check(
    jobs(("query", "fast", "", 3000, 60000), ("query", "yield", "yield", 1000, 20000)),
    QUERIES + "Batches of 0-40, and now and then of hundreds to thousands of pairs (answerable, unanswerable, repeated) are asked on 1-8 threads with delays and shuffled chunks (own OpenMP "
    "runtime; in the yield build also at memory accesses), and every slot is compared with the single query for its pair. An evaluation is "
    "one pair; distinct batches differ in scene, pairs or schedule.",
    {"parallel_batches": 500, "failed_pairs": 500, "routed_pairs": 1000}, ["schedules are sampled, not enumerated"])
CHECKS["C09"] = Check(
    jobs(("ser", "fast", "", 6000, 100000), ("ser", "asan", "asan", 200, 4000)),
    "Random graphs (no obstacles to hundreds of vertices, extreme coordinates, every mix of edges and flags) are saved over absent, shorter, "
    "longer and unrelated files, by one or several threads and saved again, and loaded; the loaded graph is compared with the saved one "
    "obstacle by obstacle and edge by edge, the bytes of two saves with each other. An evaluation is one round trip; non-trivial with edges.",
    {"graphs_saved": 2000, "edges_saved": 10000}, ["undirected edges, as generation produces them"])
CHECKS["C10"] = Check(
    jobs(("ser", "asan", "", 160, 4000, 60)),
    "Graph files are truncated at every byte (or a sample of them) and corrupted: bits, bytes, counts set to extreme values, blocks swapped, "
    "removed or appended, random and empty files, directories, missing files. Each is loaded under AddressSanitizer and "
    "UndefinedBehaviorSanitizer with the file mapped right before an inaccessible page, allocations counted against a bound "
    "proportional to the file, and a watchdog. A truncation that is accepted must have lost no vertex or adjacency data. An evaluation is "
    "one load; distinct ones differ in the bytes of the file.",
    {"truncations": 2000, "corruptions": 2000, "loads_refused": 1000, "loads_accepted": 100},
    ["an allocation counts as out of proportion beyond the bound in harness/ser.cpp"])
CHECKS["C11"] = Check(
    jobs(("conc", "fast", "", 4000, 200000, 60), ("conc", "yield", "yield", 4000, 200000, 60)),
    "2-5 threads issue additions (direct, crossing, directed, undirected), removals, edge, flag and neighbour queries on few vertices of one "
    "graph; calls and returns are logged with a global clock, and each directed edge's history is checked for linearizability against a "
    "two-flag cell (Wing-Gong search). Every eighth round instead gives every edge one owner thread that checks its own edges while others "
    "work on the rest; every second round, all threads meet at one edge after another with one operation each. An evaluation is one history or owner round; distinct histories have overlapping operations in a new order.",
    {"cell_histories": 5000, "overlapping_pairs": 5000, "owner_rounds": 300, "meetings": 20000}, ["interleavings are sampled, not enumerated"])
CHECKS["C12"] = Check(
    jobs(("conc", "tsan", "", 900, 30000), ("conc", "fast", "locks", 400, 20000)),
    "ThreadSanitizer, with the OpenMP runtime instrumented too, watches full and range generation, merging, a first batch on a new path "
    "computer, and threads mixing edge operations, neighbour, path and visibility queries on shared objects, on 2-6 perturbed threads. In another build the same rounds run with every lock and unlock noted: a thread may not ask for a lock it holds, and the orders of acquisition seen in a round must make no cycle. An "
    "evaluation is one such round on one scene; distinct ones differ in scene or schedule.",
    {"generations": 300, "merges": 300, "batches": 300, "concurrent_operations": 20000, "concurrent_queries": 5000, "locks_taken_while_holding_one": 100000},
    ["libs2 is not instrumented: its own locking and the lazily built parts of its index are excluded", "schedules are sampled"])
CHECKS["C23"] = Check(
    jobs(("fault", "fast", "", 800, 20000)),
    "Random graphs are saved and loaded while one system call on the way (each of them in turn, with a random error) or one allocation fails; saved to "
    "directories, devices, missing and overlong places; loaded from damaged files; and saved, in a process of its own, on a file system of "
    "a few pages or under a limit to the size of files. Descriptors, file mappings and allocations are counted before and after, and the "
    "graph and the next save, with nothing failing, are compared. An evaluation is one attempt; distinct ones differ in graph or fault.",
    {"saves_with_a_fault": 2000, "loads_with_a_fault": 2000, "unusable_places": 200, "size_limits": 60}, ["a full disk is tried where a user namespace can mount one (full_disk_not_available counts the rest)"])
CHECKS["C18"] = Check(
    jobs(("query", "fast", "", 3000, 60000)),
    SCENES + "Every world is generated as it is and moved in longitude with parts re-expressed in range beyond the antimeridian; vertices, edges and "
    "their flags (recomputed for the move), path lengths and failures are compared; queries are also asked whole periods out of range, and "
    "coordinates are re-expressed. An evaluation is one world or query compared; non-trivial when edges moved across the antimeridian.",
    {"worlds_compared": 500, "edges_moved_across": 3000, "queries_compared": 1000, "out_of_range_queries": 500, "coordinates": 5000},
    ["pairs in sight both ways round the world, and grazing sightlines, are left out"])
CHECKS["C20"] = Check(
    jobs(("query", "fast", "", 1600, 40000), ("query", "yield", "yield", 500, 12000)),
    QUERIES + "A process forked before anything was asked generates each world's graph and answers each question in a child of its own. In the main "
    "process, worlds that differ a little are then generated, saved to one file, loaded and asked the same questions in turn, their graphs, "
    "computers and visibility generators laid in the same memory; and a random history of path, batch, visibility, edge and neighbour queries, "
    "saves, prints and merges (at times of hundreds of uses) runs on shared objects, on one or several threads. Answers are compared with those of the new processes, and "
    "graph, computer and visibility generator afterwards with what they were. An evaluation is one answer compared; distinct histories differ "
    "in scene, operations or schedule.",
    {"histories": 500, "concurrent_answers": 2000, "routed_queries": 1000, "answers_in_reused_places": 5000}, ["schedules are sampled, not enumerated"])

CHECKS["C14"] = Check(
    jobs(("asan", "asan", "", 900, 60000)),
    "Lists of rings, half of them with well-formed obstacles among them, mostly malformed in 14 ways (none to two vertices, one point repeated, there and back, "
    "collinear, self-crossing, slivers, overlapping, doubled, sharing corners or edges, pinched, clockwise with repetitions, on the edges of the world), go through "
    "polygons, graphs, generation (full, by range), merging, saving, loading of damaged copies, overlays, visibility, index and path queries. AddressSanitizer (with leaks), "
    "UndefinedBehaviorSanitizer (with float casts and divisions), libstdc++ assertions and a check that every sort's comparison is a strict weak order "
    "on its elements watch; an exception is an answer, the end of the process is not. An evaluation is one list of rings.",
    {"did_generate": 300, "did_computer": 300, "did_index_queries": 2000, "did_path": 1000, "raised_path": 100, "did_vistrees": 300, "sorts_checked": 20000},
    ["libs2 itself is not instrumented"])
CHECKS["C15"] = Check(
    jobs(("pred", "fast", "", 12000, 600000)),
    "Points drawn so that coincident, collinear, nearly collinear, axis-parallel and world-scale configurations, at the edges of the world and in its "
    "periodic copies, are common; orientation, point on segment, wedge visibility, intersection, equality and hashes, vector products, angular order "
    "and the nearest of the edges across a ray are compared with 128-bit integer arithmetic. An evaluation is one quadruple of points; non-trivial "
    "when three of them are collinear.",
    {"collinear_triples": 10000, "segments_met": 10000, "parallel_segments": 2000, "wedges": 10000, "wedges_along_an_edge": 2000, "angles_ordered": 10000}, ["sight along an edge is not judged within three microdegrees past its end"])
CHECKS["C16"] = Check(
    jobs(("pred", "fast", "", 20000, 900000)),
    "Random rings (any, star-shaped, wild, combs; from four microdegrees to world scale, rarely of more than a hundred thousand vertices), dressed with repeated and collinear vertices, rotated, "
    "reversed and closed, are compared as built with a 128-bit reference and, for simple rings, point by point with the region of the given ring; "
    "edges and periodic copies are compared too. An evaluation is one ring; non-trivial when vertices had to go or the winding to turn.",
    {"dressed_rings": 5000, "simple_rings": 5000, "other_rings": 1000, "vertices_dropped": 5000, "region_points": 10000},
    ["rings that enclose no area are left out"])
CHECKS["C17"] = Check(
    jobs(("index", "fast", "", 6000, 200000)),
    SCENES + "Some with obstacles laid over one another or sharing corners, some empty. Each query is answered again by going through all edges with S2's "
    "exact predicates. An evaluation is one query point with its containment, closest edge, radii and geodesics; non-trivial when a geodesic "
    "meets an edge.",
    {"points_inside": 5000, "points_outside": 5000, "closest_edges": 10000, "edges_within": 10000, "edges_beyond": 10000, "edges_sorted": 10000,
     "empty_indexes": 100, "overlaid_obstacles": 300},
    ["points within a microdegree of a boundary (corners excepted) are not judged as contained or not", "ties in distance within rounding are not judged",
     "S2's predicates on single edges and loops serve as reference"])
CHECKS["C19"] = Check(
    jobs(("pipe", "python", "", 1000, 16000)),
    "Under PyPy, with the extension module built from the working tree: " + SCENES + "Each is written to a shapefile (other starts and directions, repeated "
    "and collinear vertices, holes, null and degenerate records, line files), read, generated whole and in 1 to n+3 vertex ranges, merged, and "
    "interpolated on, singly and in batches, with options by default, position and keyword. Interpolators stay and are asked again after their files were replaced, and by three threads at once; generators are given readers of their own; paths are reused and "
    "relative; the objects of the extension module are used, compared and printed directly. Files, graphs, printed forms, routes, failures and "
    "warnings are compared with the C++ library asked directly on the rings; degrees, coordinates and visibility as Python sees them too. "
    "An evaluation is one shapefile; distinct non-trivial ones are queries answered by a route with turns.",
    {"worlds": 200, "ranges": 400, "merges": 300, "queries": 4000, "routes_with_turns": 400, "failed_in_batch": 100, "records_parts": 50,
     "records_degenerate": 10, "coordinates": 10000, "queries_from_threads": 2000})
CHECKS["C21"] = Check(
    jobs(("pred", "fast", "", 12000, 400000)),
    "Random graphs are built again with obstacles in another order and from another corner, edges in another order, repeated, and added and removed "
    "again (must be equal and print equally), and with one edge, flag, vertex or obstacle changed (must differ and print differently). An "
    "evaluation is one pair of graphs.",
    {"equal_pairs": 5000, "different_pairs": 5000})
CHECKS["C22"] = Check(
    jobs(("pred", "fast", "", 20000, 900000)),
    "Random additions of vertices and additions and removals of edges on graphs and on one or two overlays over them, concentrated on few vertices; "
    "every vertex, edge, flag and neighbour query is compared with a model, with a graph built as the modified copy, and the graphs below "
    "with what they were. An evaluation is one graph compared.",
    {"overlays_compared": 5000, "modifications": 50000, "vertices_added": 5000}, ["queries about vertices the overlay has"])
CHECKS["C24"] = Check(
    jobs(("value", "fast", "", 16000, 400000)),
    "Points of the world and its periodic copies - equal, swapped, mirrored, shifted, multiples of one another, a microdegree apart, round numbers, landmarks - and the segments "
    "and rings they make: equality, hashes, printed forms, degrees, sums, differences, scalings, products, magnitudes, angles, distances and places on the sphere, "
    "nearest points of edges, periodic copies and copies of polygons are compared with integer and long double arithmetic. An evaluation is one group of points.",
    {"equal_pairs": 10000, "unequal_pairs": 10000, "multiples": 5000, "scalings": 50000, "spherical_conversions": 50000, "equal_segments": 1000,
     "projections": 20000, "projections_with_margin": 5000, "equal_polygons": 3000, "unequal_polygons": 3000},
    ["sums, differences and multiples that do not fit into a coordinate are left out", "projections on edges beyond 89 degrees of latitude or over 170 degrees long are not judged"])
CHECKS["C25"] = Check(
    jobs(("pipe", "python", "", 400, 6000)),
    "Under PyPy, with the extension module built from the working tree: on small random worlds, generating (whole and by range) and merging into places that exist, from shapefiles and "
    "graph files that are missing, empty, cut short, folders or overwritten at the start, improper ranges, and calls with unsuitable arguments (None, text, strangers, wrong numbers of "
    "things). After each: an error was raised, every file that was there has its content, no graph was left at the output, the loaded graph and interpolator answer as before; at the end no "
    "file is left open and the proper calls work. An evaluation is one world with 5-10 of these; non-trivial: world and unsuitable call.",
    {"refusals_expected": 1500, "existing_outputs": 300, "shapefiles_damaged": 150, "improper_ranges": 150, "graphs_damaged": 300, "unsuitable_calls": 500},
    ["calls on objects whose __init__ was never run are left out", "overwritten shapefile headers may be taken for good"])
CHECKS["C26"] = Check(
    jobs(("pipe", "python", "", 3000, 100000)),
    "Under PyPy: coordinates of random, whole, extreme, neighbouring and swapped numbers, and polygons of them with one vertex changed, exchanged, repeated, left out, in another order, are "
    "compared, printed, hashed, kept in sets, copied, pickled and attempted to be altered; coordinates are moved into range; the list a polygon was made from is changed; polygons and coordinates "
    "are drawn from the package's hypothesis strategies. Judged by the numbers they were made from. An evaluation is one coordinate or polygon; non-trivial: polygons made.",
    {"equal_coordinates": 5000, "unequal_coordinates": 5000, "equal_polygons": 200, "unequal_polygons": 800, "too_few_vertices": 300, "into_range": 5000, "drawn": 5000},
    ["a latitude of just 90 degrees is moved into range as -90, as the function's formula says"])

TECHNIQUES = {
    "C26": "online oracle monitor (the numbers given) over Python values, and monitored hypothesis strategies",
    "C25": "fault injection into the Python pipeline's inputs, outputs and arguments, with file-tree, descriptor and answer monitors",
    "C24": "online oracle monitor (integer and long double arithmetic) over points, segments and rings",
    "C14": "AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and a sort-contract monitor over malformed inputs",
    "C15": "online oracle monitor (128-bit exact arithmetic) over degenerate configurations",
    "C16": "online oracle monitor (128-bit reference normalisation and region membership)",
    "C17": "online oracle monitor (exhaustive spherical search)",
    "C21": "metamorphic and mutation monitor over graph presentations",
    "C22": "model-based monitor over random modification sequences",
    "C01": "online oracle monitor (exact line-of-sight) over generated graphs and vistrees on random and adversarial scenes",
    "C02": "online oracle monitor (exact line-of-sight) over generated graphs and vistrees on random and adversarial scenes",
    "C03": "differential monitor over repeated generations under schedule perturbation (own OpenMP runtime, delays at memory accesses)",
    "C04": "online oracle monitor (penetration of legs, planar and spherical) over path queries",
    "C05": "online oracle monitor (brute-force router with bounds) over path queries",
    "C06": "online oracle monitor (brute-force router under limits) over path queries",
    "C07": "online oracle monitor (brute-force spherical distance to shore) over path queries",
    "C08": "differential monitor (batch against single queries) under schedule perturbation",
    "C09": "round-trip monitor over saved and loaded graphs, AddressSanitizer and UndefinedBehaviorSanitizer",
    "C10": "fault injection into graph files under AddressSanitizer, UndefinedBehaviorSanitizer, guard pages, allocation monitor and watchdog",
    "C11": "offline linearizability checker over recorded concurrent histories, under schedule perturbation",
    "C12": "ThreadSanitizer (library and OpenMP runtime) and a lock-order monitor over perturbed parallel workloads",
    "C18": "metamorphic monitor (worlds moved in longitude, queries moved by periods)",
    "C19": "differential monitor (Python pipeline against the C++ library asked directly) over random shapefiles and queries",
    "C20": "differential monitor (histories of uses against answers of pristine processes), reused memory and schedule perturbation",
    "C13": "set-model monitor over merges under schedule perturbation",
    "C23": "fault injection into system calls and allocations, and small file systems, under descriptor, mapping and allocation monitors",
}
LEVEL_NOTES = {
    "C25": "Held on the faults and worlds run, under PyPy.",
    "C26": "Held on the values tried, under PyPy.",
    "C24": "Held on the groups of points run, each judged by exact or extended arithmetic.",
    "C14": "Held on the ring lists and operations run, under the sanitizers named; libs2 is not instrumented.",
    "C15": "Held on the configurations run, each judged exactly.",
    "C16": "Held on the rings run, each judged exactly.",
    "C17": "Held on the worlds and queries run, each judged by exhaustive search.",
    "C21": "Held on the pairs of graphs run.",
    "C22": "Held on the modification sequences run.",
    "C01": "Held on the scenes and observers run, each pair judged by exact integer geometry; sightlines within 4 microdegrees of touching are not judged.",
    "C02": "Held on the scenes and observers run, each pair judged by exact integer geometry; sightlines within 4 microdegrees of touching are not judged.",
    "C03": "Held on the scenes, presentations, partitions and schedules run; graphs compared edge by edge.",
    "C04": "Held on the queries run; legs judged against straight and geodesic obstacle edges beyond 6 microdegrees.",
    "C05": "Held on the queries run; lengths compared with a brute-force router that brackets grazing sightlines.",
    "C06": "Held on the queries run; feasibility under the limit decided by a brute-force router that brackets grazing sightlines.",
    "C07": "Held on the queries run; nearest shore by exhaustive spherical search.",
    "C08": "Held on the batches and schedules run, every slot compared with its single query.",
    "C09": "Held on the graphs saved and loaded, compared in every obstacle and edge.",
    "C10": "Held on the damaged files loaded: small files truncated at every byte, corruption sampled.",
    "C11": "Held on the interleavings recorded; every directed edge's history decided exactly.",
    "C12": "No race or lock-order cycle on the executions watched; ThreadSanitizer judges happens-before, not only the schedule that ran.",
    "C18": "Held on the worlds and moves run.",
    "C19": "Held on the shapefiles, splits and queries run; the reference is the C++ library, judged by the other properties.",
    "C20": "Held on the histories and schedules run.",
    "C13": "Held on the merges and schedules run; results compared with a set model.",
    "C23": "Held on the graphs and faults tried: one failing call or allocation at a time.",
}
NOT_APPLICABLE = {}
