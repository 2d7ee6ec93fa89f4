#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable)."""
import json, os

V = "capi/src/implementation/visibility_graphs/code/"
P = "capi/src/implementation/"
props = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


prop("C01", "No visibility edge crosses an obstacle",
     "For any set of simple, pairwise disjoint obstacles, every edge of the generated visibility graph, and every vertex "
     "reported visible from an observer point, stands for a straight longitude/latitude segment (taken across the "
     "antimeridian exactly when it is flagged so) that does not pass through the interior of any obstacle, beyond the "
     "microdegree resolution of coordinates.",
     ["inputs"], "every obstacle set, vertex pair and observer point",
     "The tests compare a few hand-drawn scenes of one or two polygons with literal vertex lists; whether an edge slips "
     "through depends on the angular order and depth of all obstacles between two points, which no fixed scene covers.",
     [V + "visgraph/vistree_generator.cpp", V + "visgraph/visgraph_generator.cpp", V + "datastructures/open_edges/open_edges.cpp",
      V + "geom/angle_sorter/angle_sorter.cpp", V + "types/polyline/three_vertex_polyline.cpp"],
     [("rotational sweep with an ordered set of open edges", V + "visgraph/vistree_generator.cpp"),
      ("wedge test at an observer that is itself a polygon vertex", V + "types/polyline/three_vertex_polyline.cpp")],
     [("open edges", "obstacle edges currently crossed by the scan line, nearest first", V + "datastructures/open_edges/open_edges.hpp")],
     ["Graph::has_edge / is_edge_meridian_crossing after VisgraphGenerator::generate", "VistreeGenerator::get_visible_vertices"])

prop("C02", "Every pair of vertices in clear sight of each other is connected",
     "For any set of simple, pairwise disjoint obstacles, two obstacle vertices are joined by an edge of the generated graph "
     "whenever the straight segment between them, direct or taken across the antimeridian, keeps clear of every obstacle "
     "(consecutive vertices of one obstacle always are), and the edge is flagged as crossing the antimeridian exactly when only "
     "the segment across it is unobstructed. The same holds for the vertices reported visible from any observer point outside "
     "the obstacles.",
     ["inputs"], "every obstacle set, vertex pair and observer point",
     "A missing edge only lengthens or loses some routes; the tests list the visible vertices of a few small scenes and cannot "
     "show that no other scene loses one.",
     [V + "visgraph/vistree_generator.cpp", V + "visgraph/visgraph_generator.cpp", V + "coordinate_periodicity/coordinate_periodicity.cpp",
      V + "datastructures/graph/graph.cpp"],
     [("half scan per vertex, made symmetric by undirected insertion", V + "visgraph/visgraph_generator.cpp"),
      ("obstacles replicated one period to either side", V + "coordinate_periodicity/coordinate_periodicity.cpp")],
     observe=["Graph::has_edge / is_edge_meridian_crossing after VisgraphGenerator::generate", "VistreeGenerator::get_visible_vertices"])

prop("C03", "The generated graph depends on the obstacles alone",
     "The graph generated for an obstacle set is the same whatever the number of threads and their schedule, the order of the "
     "obstacles, the starting vertex of each ring and its winding direction. Generating it in shuffled vertex ranges that "
     "partition the vertices, with one seed, and merging the parts yields that same graph; each part contains only edges of it.",
     ["schedules", "inputs", "configurations"], "every obstacle set, presentation of it, thread count, schedule, partition and seed",
     "The tests generate with one thread setting, one seed and one split into two halves, and compare two tiny scenes.",
     [V + "visgraph/visgraph_generator.cpp", V + "datastructures/graph/graph.cpp", V + "types/polygon/polygon.cpp", P + "graph_generator.py"],
     [("per-vertex reader/writer locks on the adjacency matrix", V + "datastructures/graph/graph.cpp"),
      ("seeded shuffle before taking the range", V + "visgraph/visgraph_generator.cpp")],
     observe=["VisgraphGenerator::generate", "VisgraphGenerator::generate_with_shuffled_range", "merge_graphs"])

prop("C04", "A returned path never runs over an obstacle",
     "Every path returned by the path search (single or batch, with or without land correction, under any search limit and "
     "greediness) starts at the requested source and ends at the requested destination, or at their land-corrected positions, "
     "and none of its legs passes through the interior of an obstacle: intermediate waypoints are obstacle vertices joined by "
     "unobstructed straight longitude/latitude segments (possibly across the antimeridian), and a path without waypoints is "
     "unobstructed as a geodesic or as such a segment.",
     ["inputs"], "every obstacle set, source, destination and search option",
     "The tests check nine literal routes around at most two polygons.",
     [V + "shortest_path/shortest_path_computer.cpp", V + "visgraph/vistree_generator.cpp", V + "datastructures/modified_graph/modified_graph.cpp",
      V + "datastructures/spatial_segment_index/spatial_segment_index.cpp"],
     [("direct leg only if no obstacle edge is crossed", V + "shortest_path/shortest_path_computer.cpp"),
      ("A* over the visibility graph extended with source and destination", V + "shortest_path/shortest_path_computer.cpp")],
     observe=["ShortestPathComputer::shortest_path", "ShortestPathComputer::shortest_paths"])

prop("C05", "Returned paths are shortest",
     "For source and destination outside the obstacles and not in clear sight of each other, the returned path is no longer than "
     "any route along the unobstructed straight segments between source, destination and obstacle vertices when the greediness "
     "weighting is at most 1, and at most the weighting times as long when it is above 1 (planar degrees; a leg counts by its direct "
     "length where that is unobstructed, by its length over the antimeridian otherwise). A pair connected by such segments always "
     "gets a path; source and destination whose geodesic is clear of obstacles get the direct leg. The same bound holds between the "
     "positions that a land correction gives, where these lie on or outside the straight shore.",
     ["inputs"], "every obstacle set, source, destination and greediness weighting",
     "Tests assert literal routes on scenes where the alternative is obvious; optimality is a statement over all alternative routes.",
     [V + "shortest_path/shortest_path_computer.cpp", V + "visgraph/vistree_generator.cpp"],
     [("A* with a consistent straight-line heuristic that wraps", V + "shortest_path/shortest_path_computer.cpp")],
     observe=["ShortestPathComputer::shortest_path"])

prop("C06", "A search that cannot be honoured raises instead of returning a bad path",
     "A path query raises an error, and returns no path, when the source or destination lies inside an obstacle and land "
     "correction is off, or when they are not in clear sight of each other and every route needs a waypoint (or the destination) farther "
     "from the source than the given search limit; whenever a path with waypoints is returned under a limit, each of its points is within that limit of the source in "
     "straight-line distance, and a limit that the unlimited route respects never changes the length of the answer (after a land correction "
     "the limit counts from the corrected source).",
     ["inputs", "configurations"], "every obstacle set, source, destination and limit",
     "One literal limit and one literal on-land query are tested.",
     [V + "shortest_path/shortest_path_computer.cpp"],
     [("neighbour skipped when beyond the limit", V + "shortest_path/shortest_path_computer.cpp"),
      ("containment query on source and destination", V + "shortest_path/shortest_path_computer.cpp")],
     observe=["ShortestPathComputer::shortest_path"])

prop("C07", "Points on land are snapped to the nearest shore, others are untouched",
     "With land correction on, a query whose source or destination lies inside an obstacle uses instead a point on that "
     "obstacle's boundary that is nearest to it on the sphere (to within coordinate resolution), so that the returned path "
     "starts or ends there; a source or destination that is not inside an obstacle is never moved, with correction on or off.",
     ["inputs"], "every obstacle set and pair of query points on or off land",
     "Three literal corrections of axis-parallel squares are tested.",
     [V + "shortest_path/shortest_path_computer.cpp", V + "datastructures/spatial_segment_index/spatial_segment_index.cpp",
      V + "types/line_segment/line_segment.cpp"],
     [("containment query, closest edge and projection", V + "shortest_path/shortest_path_computer.cpp")],
     observe=["first and last point of ShortestPathComputer::shortest_path"])

prop("C08", "A batch answers each pair exactly as a single query would",
     "A batch path query returns one result per pair, in the order of the pairs, each holding either exactly the path that the "
     "single query for that pair returns, or the error message that the single query raises, never both or neither; a failing pair "
     "never affects another, whatever the batch size, number of threads and schedule.",
     ["schedules", "inputs", "histories"], "every list of pairs, options, thread count and schedule",
     "One batch of three pairs is tested, on whatever schedule the run happens to have.",
     [V + "shortest_path/shortest_path_computer.cpp", P + "path_interpolator.py"],
     [("dynamic parallel loop writing to its own slot", V + "shortest_path/shortest_path_computer.cpp"),
      ("exceptions caught per pair", V + "shortest_path/shortest_path_computer.cpp")],
     observe=["ShortestPathComputer::shortest_paths", "PathInterpolator.batch_interpolate"])

prop("C09", "Saving and loading a graph loses nothing",
     "A graph loaded from a file equals the graph saved to it: same obstacles in the same order with the same vertices, same "
     "edges and same antimeridian flags, for any number of obstacles and vertices. This holds whatever the file at that path "
     "contained before, and saving one graph again yields the same bytes.",
     ["inputs", "histories"], "every undirected graph and every earlier content of the file",
     "Three graphs of up to eight vertices are tested on fresh files; bit packing depends on the vertex count and the reused file "
     "on what was there before.",
     [V + "serialization/graph_serializer.cpp"],
     [("bit-packed lower triangle and list of crossing edges", V + "serialization/graph_serializer.cpp")],
     observe=["GraphSerializer::serialize_to_file", "GraphSerializer::deserialize_from_file"])

prop("C10", "Loading a damaged graph file is safe",
     "Loading a graph file that is missing, empty, truncated at any byte or corrupted in any way either raises an error or "
     "returns a graph; it never reads outside the file, crashes, hangs or allocates memory out of proportion to the file. A file "
     "shortened by so much as to lose vertex or adjacency data is never accepted as a graph.",
     ["inputs", "crash_points"], "every byte string as a graph file; every truncation point of a valid file",
     "No test loads a damaged file.",
     [V + "serialization/graph_serializer.cpp"],
     [("offsets checked against the mapped size", V + "serialization/graph_serializer.cpp")],
     observe=["GraphSerializer::deserialize_from_file under AddressSanitizer"])

prop("C11", "Concurrent graph operations act as atomic steps on each edge",
     "Edge additions, removals and queries issued on one graph by several threads behave, for each directed edge, as if executed "
     "one at a time in an order consistent with their call and return times: no update is lost, an addition never disturbs another "
     "edge, a removal clears the edge, and an edge counts as antimeridian-crossing only while it was added as crossing and never as "
     "direct since its last removal. Neighbour lists agree with the edge queries.",
     ["schedules", "histories"], "every interleaving of operations by any number of threads, including the sequential ones",
     "The tests drive the graph from one thread with three or four calls.",
     [V + "datastructures/graph/graph.cpp"],
     [("two per-vertex shared mutexes taken in index order", V + "datastructures/graph/graph.cpp")],
     [("adjacency matrix", "one state per ordered vertex pair", V + "datastructures/graph/graph.hpp")],
     ["Graph::add_edge, add_directed_edge, remove_edge, remove_directed_edge, has_edge, is_edge_meridian_crossing, get_neighbors"])

prop("C12", "The parallel code is free of data races and lock-order cycles",
     "Graph generation (full and by range), graph merging, batch path queries, and concurrent calls of the graph's edge "
     "operations and of path queries on one shared computer never access the same memory from two threads without "
     "synchronisation when one of them writes, never acquire locks in cyclic order, and no thread asks for a lock it already holds.",
     ["schedules"], "every schedule of the parallel regions and of concurrent callers",
     "A race shows only on particular interleavings; the tests run the parallel loops on inputs of a few vertices without a detector.",
     [V + "visgraph/visgraph_generator.cpp", V + "datastructures/graph/graph.cpp", V + "shortest_path/shortest_path_computer.cpp"],
     [("shared mutexes, per-thread results", V + "datastructures/graph/graph.cpp")],
     observe=["ThreadSanitizer reports with an instrumented OpenMP runtime"])

prop("C13", "Merging graphs is the union of their edges",
     "The merge of any list of graphs has exactly the obstacles and edges that occur in at least one of them, each obstacle once; "
     "an edge is flagged as crossing the antimeridian exactly when every input that has it flags it so. The result does not depend "
     "on the order or repetition of the inputs, nor on threads, and the inputs are left unchanged.",
     ["inputs", "schedules"], "every list of graphs over disjoint or equal obstacles, order, repetition and thread count",
     "One merge of two halves of one six-vertex graph is tested.",
     [V + "datastructures/graph/graph.cpp", P + "graph_merger.py"],
     [("parallel loop over the inputs adding into the shared result", V + "datastructures/graph/graph.cpp")],
     observe=["merge_graphs"])

prop("C14", "No input makes the library violate memory or language rules",
     "Building polygons, graphs, indexes and path computers and querying them never reads or writes outside an object's "
     "lifetime or bounds, leaks, overflows signed arithmetic, sorts with an inconsistent order or terminates the process, for every "
     "list of obstacles within the world's bounds, well-formed or not: clockwise, repeated or collinear vertices, slivers that "
     "collapse, touching, overlapping or self-intersecting rings.",
     ["inputs"], "every list of vertex rings with coordinates within the world's bounds, and every query on it",
     "The tests feed clean shapes only and run without sanitizers.",
     [V + "types/polygon/polygon.cpp", V + "visgraph/vistree_generator.cpp", V + "datastructures/spatial_segment_index/spatial_segment_index.cpp",
      V + "shortest_path/shortest_path_computer.cpp", V + "geom/angle_sorter/angle_sorter.cpp"],
     [("-", V + "types/polygon/polygon.cpp")],
     observe=["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ debug mode"])

prop("C15", "Geometric predicates are exact",
     "For all points of the world and its periodic copies, orientation, point-on-segment, wedge-visibility, angular-order, nearest-edge "
     "and segment intersection answers equal those of exact arithmetic (sight along an edge up to 3 microdegrees past its end may "
     "count as blocked or not): two non-parallel segments are reported as meeting exactly when they "
     "share a point and the reported point is the exact one rounded to at most one microdegree per axis. Answers do not depend on "
     "the order of a segment's endpoints, and equal values have equal hashes.",
     ["inputs"], "every tuple of coordinates in range",
     "A dozen literal points near the origin are tested; overflow and rounding show only at world scale and near-degenerate tuples.",
     [V + "types/coordinate/coordinate.cpp", V + "types/line_segment/line_segment.cpp", V + "types/polyline/three_vertex_polyline.cpp"],
     [("64-bit integer cross products of microdegrees", V + "types/line_segment/line_segment.cpp")],
     observe=["LineSegment::orientation_of_point_to_segment, on_segment, intersection_with_segment", "Coordinate::vector_orientation", "ThreeVertexPolyline"])

prop("C16", "Polygons keep their shape when normalised",
     "A polygon built from any ring of vertices describes the same region as the ring, with counter-clockwise winding and without "
     "repeated consecutive or collinear pass-through vertices; every real corner is kept exactly and in cyclic order. Rings that "
     "differ only in winding, in repeated consecutive vertices or in collinear vertices give the same cyclic vertex list.",
     ["inputs"], "every simple ring",
     "Seven literal polygons are tested.",
     [V + "types/polygon/polygon.cpp"],
     [("collinear removal, then orientation by the shoelace sum", V + "types/polygon/polygon.cpp")],
     observe=["Polygon::get_vertices", "Polygon::get_line_segments"])

prop("C17", "Spatial queries agree with exhaustive search",
     "For any obstacles and query, the spatial index answers as checking every obstacle edge would: a point is contained iff it "
     "is inside some obstacle, the closest edge is one at minimal spherical distance, the edges within a distance are exactly "
     "those, and the edges met by a geodesic are exactly those, sorted by distance from its start.",
     ["inputs"], "every obstacle set, point, distance and segment",
     "Four queries on a single square or triangle are tested.",
     [V + "datastructures/spatial_segment_index/spatial_segment_index.cpp"],
     [("S2 shape index with closest-edge, crossing-edge and containment queries", V + "datastructures/spatial_segment_index/spatial_segment_index.cpp")],
     observe=["SpatialSegmentIndex queries"])

prop("C18", "Results do not depend on where the antimeridian falls",
     "Moving all obstacles and query points by the same longitude, so that some lie beyond the antimeridian and are re-expressed "
     "in range, changes neither which vertices are connected nor the length of any path (beyond coordinate resolution), as long as "
     "no two points see each other both ways round the world. A query "
     "point given one or more periods out of range is answered as its in-range equivalent, and re-expressing in range always yields "
     "a longitude in range that is congruent to the given one.",
     ["inputs"], "every obstacle set without an obstacle astride the antimeridian, every longitude offset",
     "One literal route and two literal scenes touch the antimeridian.",
     [V + "coordinate_periodicity/coordinate_periodicity.cpp", V + "shortest_path/shortest_path_computer.cpp", V + "visgraph/visgraph_generator.cpp"],
     [("three periodic copies; wrapped distances", V + "coordinate_periodicity/coordinate_periodicity.cpp")],
     observe=["VisgraphGenerator::generate", "ShortestPathComputer::shortest_path", "coordinate_from_periodic_coordinate"])

prop("C19", "The Python pipeline is faithful end to end",
     "For any polygon shapefile, generating a graph file from it yields a graph whose obstacles are the first ring of each polygon "
     "record with at least three vertices (or what a given reader returns), in order; generating it in any number of vertex ranges and merging the files yields an "
     "equal graph. Interpolation on that file returns exactly the route of the underlying search, coordinates in range and in "
     "degrees with latitude and longitude in their own fields (degrees of at most six decimals are kept exactly), raises where it fails, and in a batch yields None with a warning at "
     "that position only, whichever threads ask. The Python objects answer as the C++ objects they wrap.",
     ["inputs", "configurations"], "every shapefile of simple rings, split count, seed and list of queries",
     "One shapefile with two splits is tested; the interpolator's own tests need a file that is not in the repository.",
     [P + "graph_generator.py", P + "graph_merger.py", P + "path_interpolator.py", P + "shapefiles/shapefile_reader.py",
      "capi/src/implementation/visibility_graphs/bindings.cpp"],
     [("split ranges by integer division, last one takes the rest", P + "graph_generator.py")],
     observe=["GraphGenerator, GraphMerger, PathInterpolator, ShapefileReader"])

prop("C20", "Queries leave no trace",
     "Path queries, visibility queries, graph queries, saving and merging never change the graph, the path computer or each "
     "other's answers: any query gives the same answer whenever it is asked, after any history of other queries and alongside "
     "any concurrent ones, and extending a graph with query points never alters the shared graph.",
     ["histories", "schedules"], "every sequence and interleaving of queries on shared objects",
     "Every test asks a fresh object at most a few questions.",
     [V + "shortest_path/shortest_path_computer.cpp", V + "datastructures/modified_graph/modified_graph.cpp", V + "datastructures/graph/graph.cpp"],
     [("overlay graph per query", V + "datastructures/modified_graph/modified_graph.cpp")],
     observe=["ShortestPathComputer::shortest_path", "ModifiedGraph", "VistreeGenerator::get_visible_vertices"])

prop("C21", "Graphs compare equal exactly when they have the same content",
     "Two graphs compare equal if and only if they have the same vertices, edges and antimeridian flags, whatever the order in "
     "which obstacles were given and edges inserted; their printed forms are then identical and otherwise differ.",
     ["inputs", "histories"], "every pair of graphs and construction order",
     "Equality is used by most tests as their oracle and is itself tested on no pair that differs in a single edge, flag or vertex.",
     [V + "datastructures/graph/graph.cpp"],
     [("comparison of canonical printed forms", V + "datastructures/graph/graph.cpp")],
     observe=["Graph::operator==", "Graph::to_string_representation"])

prop("C22", "A graph overlay behaves as a modified copy",
     "A graph extended through an overlay with vertices and edge additions and removals answers every vertex, edge, flag and "
     "neighbour query about its vertices as a copy of the base graph with the same modifications applied would, adding a vertex to a graph disturbs "
     "no existing edge, and the base graph under an overlay never changes.",
     ["histories"], "every base graph and sequence of modifications",
     "The overlay has no test of its own, and no test adds a vertex to a graph with edges.",
     [V + "datastructures/modified_graph/modified_graph.cpp", V + "datastructures/graph/graph.cpp"],
     [("per-vertex override map consulted before the base graph", V + "datastructures/modified_graph/modified_graph.cpp")],
     observe=["ModifiedGraph and Graph through IGraph"])

prop("C23", "Failures of the file system are reported and leave nothing behind",
     "When saving or loading a graph file cannot be done (unusable path, full disk, limit to the size of files, any failing system "
     "call or allocation on the way, a file that is refused), the call raises an error: it never ends the process, nor returns as if done "
     "unless the file does hold the graph (or the loaded graph is the saved one). It leaks no file descriptor, mapping or memory and leaves the "
     "graph unchanged, and the same call succeeds once the cause is gone.",
     ["fault_sequences", "inputs"], "every graph and every point at which a call or allocation fails",
     "The tests save to and load from places where everything succeeds.",
     [V + "serialization/graph_serializer.cpp", "capi/cpp_libs/mio/mio.hpp"],
     [("files sized by allocate_file, mapped by mio, error codes turned into exceptions", V + "serialization/graph_serializer.cpp")],
     observe=["GraphSerializer::serialize_to_file, deserialize_from_file", "open descriptors, file mappings, live allocations"])

prop("C24", "Coordinates, segments and polygons are exact values",
     "For all coordinates of the world and its periodic copies: a coordinate keeps its microdegrees exactly (given in degrees, to the microdegree); sums, differences, "
     "negations, integer products, tangents and periodic copies are exact, scalings and divisions rounded to the nearest microdegree, products, "
     "magnitudes, angles and spherical distances right to rounding, and the way to the sphere and back loses nothing off the poles. Coordinates, "
     "visible vertices, segments (whatever their direction) and polygons compare equal exactly when their content is the same, also where hashes coincide; equal ones have equal hashes; "
     "printed coordinates and polygons tell every different one apart and say its degrees, corner by corner. Projecting a point gives the nearest point of "
     "the edge on the sphere to the microdegree, moved on by the margin asked for; a copied polygon keeps its corners when the original is assigned to.",
     ["inputs"], "every tuple of coordinates in range",
     "The tests try a few literal values each; rounding, range, sign and collisions show only elsewhere.",
     [V + "types/coordinate/coordinate.cpp", V + "types/line_segment/line_segment.cpp", V + "types/polygon/polygon.cpp",
      V + "types/visible_vertex/visible_vertex.cpp", V + "coordinate_periodicity/coordinate_periodicity.cpp"],
     [("32-bit microdegrees, 64-bit products; hashes derived from them", V + "types/coordinate/coordinate.cpp")],
     observe=["the public operations of Coordinate, LineSegment, VisibleVertex, Polygon", "periodic copies"])

prop("C25", "What the Python pipeline cannot do it refuses without harm",
     "Generating (whole or by range) or merging into a path that exists already, from a shapefile or graph file that is missing, empty, cut short or no such file, "
     "and any call of the package's classes or the extension module with unsuitable arguments (None, text, wrong numbers of things, vertices the graph lacks, improper ranges) "
     "raises a Python error. It never ends the interpreter, changes a file or folder that was there, or leaves a graph file at the output that loads; "
     "graphs, path computers and interpolators in use answer as before, no file stays open, and the proper call succeeds afterwards.",
     ["fault_sequences", "inputs"], "every sequence of improper calls on any state of the inputs and outputs",
     "The tests call the pipeline properly only.",
     ["capi/src/implementation/graph_generator.py", "capi/src/implementation/graph_merger.py", "capi/src/implementation/path_interpolator.py",
      "capi/src/implementation/shapefiles/shapefile_reader.py", "capi/src/implementation/visibility_graphs/bindings.cpp"],
     [("os.mkdir before writing; pybind11's argument conversions; exceptions passed on", "capi/src/implementation/graph_generator.py")],
     observe=["GraphGenerator, GraphMerger, PathInterpolator, ShapefileReader, the extension module", "the file tree, open descriptors, loaded graphs"])

prop("C26", "Coordinates and polygons of the Python layer are values",
     "A Python Coordinate keeps the latitude and longitude it is given, cannot be altered, is equal exactly to coordinates of the same numbers (never to anything else), with equal hashes, "
     "also when copied, pickled or kept in sets; construct_coord_in_lat_lon_range gives one that is, to rounding, in range and congruent modulo 180 degrees of latitude and 360 of longitude. A Polygon keeps its vertices in "
     "order whatever becomes of the list it was made from, refuses fewer than three, and is equal exactly to polygons of the same vertices in the same order. Printed forms tell different "
     "ones apart. The hypothesis strategies draw coordinates in range and polygons of as many distinct vertices as asked for. A graph's file lies in the folder of its GraphFilePaths.",
     ["inputs"], "every coordinate, polygon and strategy parameter",
     "The tests draw short lists of coordinates for two of these facts only; the polygon strategy is never run.",
     ["capi/src/implementation/dtos/coordinate.py", "capi/src/implementation/datastructures/polygon.py", "capi/src/implementation/datastructures/graph_file_paths.py",
      "capi/src/hypothesis_strategies/coordinate.py", "capi/src/hypothesis_strategies/polygon.py"],
     [("a frozen dataclass; vertices copied into a list", "capi/src/implementation/dtos/coordinate.py")],
     observe=["the public operations of Coordinate, Polygon, GraphFilePaths and the strategies"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
