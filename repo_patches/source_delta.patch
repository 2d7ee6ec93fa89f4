From bce02c9933da54eb947a9232a570e330e11d2234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 01/31] fix: order open edges by which is nearer to the
 observer, and keep edges at equal distance

Open edges were keyed by their distance at insertion: edges at equal distances
replaced each other, and the order went stale as the scanline rotated, so that
vertices behind an obstacle were reported visible.
---
 .../datastructures/open_edges/open_edges.cpp  | 59 ++++++++++++++-----
 .../datastructures/open_edges/open_edges.hpp  | 21 +++++--
 .../code/visgraph/vistree_generator.cpp       | 14 ++---
 .../code/visgraph/vistree_generator.hpp       |  3 +-
 4 files changed, 67 insertions(+), 30 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index e384cad..6a661a6 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -4,28 +4,57 @@
 
 #include "open_edges.hpp"
 
-void OpenEdges::add_edge(int64_t distance, const LineSegment &segment) {
-    _edges_sorted_by_distance.emplace(distance, segment);
-    _edge_to_distance_mapping[segment] = distance;
+OpenEdges::OpenEdges(const Coordinate &observer) : _edges_nearest_first(NearerToObserver{.observer = observer}) {}
+
+void OpenEdges::add_edge(const LineSegment &segment) {
+    if (_edge_to_position_mapping.find(segment) != _edge_to_position_mapping.end()) {
+        return;
+    }
+
+    _edge_to_position_mapping[segment] = _edges_nearest_first.insert(segment);
 }
 
 void OpenEdges::remove_edge(const LineSegment &segment) {
-    if (_edge_to_distance_mapping.find(segment) == _edge_to_distance_mapping.end()) {
+    const auto position = _edge_to_position_mapping.find(segment);
+    if (position == _edge_to_position_mapping.end()) {
         return;
     }
 
-    const auto segment_distance = _edge_to_distance_mapping.at(segment);
-    _edge_to_distance_mapping.erase(segment);
+    _edges_nearest_first.erase(position->second);
+    _edge_to_position_mapping.erase(position);
+}
+
+LineSegment OpenEdges::closest_edge() const { return *_edges_nearest_first.begin(); }
+
+bool OpenEdges::empty() const { return _edges_nearest_first.empty(); }
 
-    const auto equal_iter = _edges_sorted_by_distance.equal_range(segment_distance);
-    for (auto iter = equal_iter.first; iter != equal_iter.second; ++iter) {
-        if (iter->second == segment) {
-            _edges_sorted_by_distance.erase(iter);
-            return;
-        }
+bool OpenEdges::NearerToObserver::operator()(const LineSegment &a, const LineSegment &b) const {
+    if (a == b) {
+        return false;
+    }
+
+    // An edge which the observer is on is the nearest there can be
+    const auto observer_side_of_a = a.orientation_of_point_to_segment(observer);
+    const auto observer_side_of_b = b.orientation_of_point_to_segment(observer);
+    if (observer_side_of_a == Orientation::COLLINEAR || observer_side_of_b == Orientation::COLLINEAR) {
+        return observer_side_of_a == Orientation::COLLINEAR && observer_side_of_b != Orientation::COLLINEAR;
     }
-}
 
-LineSegment OpenEdges::closest_edge() const { return _edges_sorted_by_distance.begin()->second; }
+    const auto on_side = [](const LineSegment &line, const LineSegment &edge, const Orientation side) {
+        const auto orientation_1 = line.orientation_of_point_to_segment(edge.get_endpoint_1());
+        const auto orientation_2 = line.orientation_of_point_to_segment(edge.get_endpoint_2());
+        return (orientation_1 == side || orientation_1 == Orientation::COLLINEAR) &&
+               (orientation_2 == side || orientation_2 == Orientation::COLLINEAR);
+    };
+    const auto far_side = [](const Orientation near_side) {
+        return near_side == Orientation::CLOCKWISE ? Orientation::COUNTER_CLOCKWISE : Orientation::CLOCKWISE;
+    };
 
-bool OpenEdges::empty() const { return _edges_sorted_by_distance.empty(); }
+    if (on_side(a, b, far_side(observer_side_of_a))) {
+        return !on_side(b, a, far_side(observer_side_of_b));
+    }
+    if (on_side(a, b, observer_side_of_a)) {
+        return false;
+    }
+    return on_side(b, a, observer_side_of_b);
+}
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
index cdd4872..670300e 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
@@ -5,23 +5,36 @@
 #ifndef CAPI_OPEN_EDGES_HPP
 #define CAPI_OPEN_EDGES_HPP
 
-#include <map>
 #include <memory>
+#include <set>
 #include <unordered_map>
 
 #include "types/line_segment/line_segment.hpp"
 
+// The edges crossed by the scanline, nearest to the observer first
 class OpenEdges {
   public:
-    void add_edge(int64_t distance, const LineSegment &segment);
+    explicit OpenEdges(const Coordinate &observer);
+
+    void add_edge(const LineSegment &segment);
     void remove_edge(const LineSegment &segment);
 
     [[nodiscard]] LineSegment closest_edge() const;
     [[nodiscard]] bool empty() const;
 
   private:
-    std::map<int64_t, const LineSegment> _edges_sorted_by_distance;
-    std::unordered_map<LineSegment, int64_t> _edge_to_distance_mapping;
+    // Edges do not cross each other, so whichever of two edges is nearer to the observer is so along the whole
+    // range of angles which they share. Hence, the order of the open edges stays valid while the scanline rotates.
+    struct NearerToObserver {
+        Coordinate observer;
+
+        bool operator()(const LineSegment &a, const LineSegment &b) const;
+    };
+
+    using EdgesNearestFirst = std::multiset<LineSegment, NearerToObserver>;
+
+    EdgesNearestFirst _edges_nearest_first;
+    std::unordered_map<LineSegment, EdgesNearestFirst::iterator> _edge_to_position_mapping;
 };
 
 #endif // CAPI_OPEN_EDGES_HPP
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index cdd4097..c43fd50 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -54,7 +54,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
     auto vertices_sorted_counter_clockwise_around_observer = candidate_vertices;
     AngleSorter::sort_counter_clockwise_around_observer(observer, vertices_sorted_counter_clockwise_around_observer);
 
-    auto open_edges = OpenEdges();
+    auto open_edges = OpenEdges(observer);
     const auto initial_scanline_segment =
         LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));
     const auto initial_scanline_vector = initial_scanline_segment.get_tangent_vector();
@@ -66,7 +66,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
         const auto intersection = line_segment->intersection_with_segment(initial_scanline_segment);
         if (intersection.has_value() && !initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&
             !initial_scanline_segment.on_segment(line_segment->get_endpoint_2())) {
-            open_edges.add_edge((intersection.value() - observer).magnitude_squared_microdegrees(), *line_segment);
+            open_edges.add_edge(*line_segment);
         }
     }
 
@@ -98,7 +98,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
             });
         }
 
-        VistreeGenerator::add_segments_to_open_edges(counter_clockwise_segments, open_edges, observer, current_vertex);
+        VistreeGenerator::add_segments_to_open_edges(counter_clockwise_segments, open_edges);
     }
 
     return visible_vertices;
@@ -233,12 +233,8 @@ void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::sha
 }
 
 void VistreeGenerator::add_segments_to_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-                                                  OpenEdges &open_edges, const Coordinate &observer,
-                                                  const Coordinate &current_vertex) {
+                                                  OpenEdges &open_edges) {
     for (const auto &segment : segments) {
-        const auto intersection = segment->intersection_with_segment(LineSegment(observer, current_vertex));
-        const auto distance_squared = (intersection.value() - observer).magnitude_squared_microdegrees();
-
-        open_edges.add_edge(distance_squared, *segment);
+        open_edges.add_edge(*segment);
     }
 }
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
index 9551e76..2edcbb8 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
@@ -38,8 +38,7 @@ class VistreeGenerator {
     static void erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
                                                OpenEdges &open_edges);
     static void add_segments_to_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-                                           OpenEdges &open_edges, const Coordinate &observer,
-                                           const Coordinate &current_vertex);
+                                           OpenEdges &open_edges);
 
     static std::vector<Coordinate>
     all_vertices_for_line_segments(const std::vector<std::shared_ptr<LineSegment>> &line_segments);
-- 
2.43.0


From e853734239dfe7698e4109e341d758175a4d1f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 02/31] fix: sort vertices around an observer by exact angle

The comparator claimed the observer to be less than itself, and compared
rounded angles, so that it was not a strict weak ordering and nearly collinear
far vertices could come out of order.
---
 .../code/geom/angle_sorter/angle_sorter.cpp   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..8457a63 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -12,25 +12,30 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
         return;
     }
 
+    const auto in_lower_half = [](const Coordinate &v) -> bool {
+        return v.get_latitude_microdegrees() < 0 ||
+               (v.get_latitude_microdegrees() == 0 && v.get_longitude_microdegrees() < 0);
+    };
+
+    // Angles are compared exactly, so that vertices which are close to collinear are never taken out of order
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
-        if (c1 == observer) {
-            return true;
-        } else if (c2 == observer) {
-            return false;
+        if (c1 == observer || c2 == observer) {
+            return c1 == observer && c2 != observer;
         }
 
         const auto v1 = c1 - observer;
         const auto v2 = c2 - observer;
-        const auto dotprod = v1.dot_product_microdegrees(v2);
 
-        if (v1.vector_orientation(v2) != Orientation::COLLINEAR || dotprod < 0) {
-            const auto v1_angle_to_horizontal = v1.angle_to_horizontal();
-            const auto v2_angle_to_horizontal = v2.angle_to_horizontal();
+        if (in_lower_half(v1) != in_lower_half(v2)) {
+            return in_lower_half(v2);
+        }
 
-            return v1_angle_to_horizontal < v2_angle_to_horizontal;
+        const auto orientation = v1.vector_orientation(v2);
+        if (orientation != Orientation::COLLINEAR) {
+            return orientation == Orientation::COUNTER_CLOCKWISE;
         }
 
-        return v1.magnitude_squared() < v2.magnitude_squared();
+        return v1.magnitude_squared_microdegrees() < v2.magnitude_squared_microdegrees();
     };
 
     std::sort(vertices.begin(), vertices.end(), cmp);
-- 
2.43.0


From a2b4d6242b2cfc680c9559796ae20cb05e5c3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/31] fix: an observer on the edge of a polygon does not see
 through that polygon

On a horizontal edge, it saw the vertices on the far side of the polygon; on
any other edge, only the two ends of that edge.
---
 .../code/visgraph/vistree_generator.cpp       | 24 ++++++++++++++++++-
 .../code/visgraph/vistree_generator.hpp       |  3 +++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index c43fd50..0142e3c 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -55,6 +55,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
     AngleSorter::sort_counter_clockwise_around_observer(observer, vertices_sorted_counter_clockwise_around_observer);
 
     auto open_edges = OpenEdges(observer);
+    auto segments_under_observer = std::vector<std::shared_ptr<LineSegment>>();
     const auto initial_scanline_segment =
         LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));
     const auto initial_scanline_vector = initial_scanline_segment.get_tangent_vector();
@@ -62,6 +63,10 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
         if (observer == line_segment->get_endpoint_1() || observer == line_segment->get_endpoint_2()) {
             continue;
         }
+        if (line_segment->on_segment(observer)) {
+            segments_under_observer.push_back(line_segment);
+            continue;
+        }
 
         const auto intersection = line_segment->intersection_with_segment(initial_scanline_segment);
         if (intersection.has_value() && !initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&
@@ -90,7 +95,9 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
 
         VistreeGenerator::erase_segments_from_open_edges(clockwise_segments, open_edges);
 
-        const auto curr_vertex_visible = VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex);
+        const auto curr_vertex_visible =
+            VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex) &&
+            !VistreeGenerator::is_vertex_behind_segments(segments_under_observer, current_vertex);
         if (curr_vertex_visible) {
             visible_vertices.push_back(VisibleVertex{
                     .coord = coordinate_from_periodic_coordinate(current_vertex),
@@ -225,6 +232,21 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
     return true;
 }
 
+bool VistreeGenerator::is_vertex_behind_segments(const std::vector<std::shared_ptr<LineSegment>> &segments,
+                                                 const Coordinate &vertex) {
+    // An observer on the edge of a polygon does not see what is on the inner side of that edge,
+    // nor past the end of it
+    for (const auto &segment : segments) {
+        const auto orientation = segment->orientation_of_point_to_segment(vertex);
+        if (orientation == Orientation::COUNTER_CLOCKWISE ||
+            (orientation == Orientation::COLLINEAR && !segment->on_segment(vertex))) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
                                                       OpenEdges &open_edges) {
     for (const auto &segment : segments) {
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
index 2edcbb8..711e37a 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
@@ -40,6 +40,9 @@ class VistreeGenerator {
     static void add_segments_to_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
                                            OpenEdges &open_edges);
 
+    static bool is_vertex_behind_segments(const std::vector<std::shared_ptr<LineSegment>> &segments,
+                                          const Coordinate &vertex);
+
     static std::vector<Coordinate>
     all_vertices_for_line_segments(const std::vector<std::shared_ptr<LineSegment>> &line_segments);
 
-- 
2.43.0


From b719374f5d30f454ad0b50b5693c4323372960bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/31] fix: a directed edge leads from its first vertex to its
 second

add_directed_edge(a, b) made a a neighbor of b, rather than b one of a.
---
 .../visibility_graphs/code/datastructures/graph/graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..4cae108 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -64,7 +64,7 @@ void Graph::add_directed_edge(const Coordinate &a, const Coordinate &b, bool mer
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     _neighbors[index] = static_cast<EdgeState>(
             _neighbors[index] |
             ((meridian_crossing) ? EdgeState::CONNECTED_OVER_MERIDIAN : EdgeState::CONNECTED));
@@ -98,7 +98,7 @@ void Graph::remove_directed_edge(const Coordinate &a, const Coordinate &b) {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     _neighbors[index] = EdgeState::DISCONNECTED;
 }
 
@@ -125,7 +125,7 @@ bool Graph::has_edge(const Coordinate &a, const Coordinate &b) const {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     return _neighbors[index] != EdgeState::DISCONNECTED;
 }
 
@@ -156,7 +156,7 @@ bool Graph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b)
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     return _neighbors[index] == EdgeState::CONNECTED_OVER_MERIDIAN;
 }
 
-- 
2.43.0


From 74c83469e611ca2c4910ec4fdc20150cb07349a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 05/31] fix: adding a vertex to a graph keeps its edges

The adjacency matrix was resized without moving its rows, which scrambled the
edges, and a vertex which was already there lost its own.
---
 .../code/datastructures/graph/graph.cpp               | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 4cae108..40be855 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,11 +215,20 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
+    auto neighbors = std::vector<EdgeState>((_num_coords + 1) * (_num_coords + 1), EdgeState::DISCONNECTED);
+    for (size_t i = 0; i < _num_coords; ++i) {
+        std::copy_n(_neighbors.begin() + i * _num_coords, _num_coords, neighbors.begin() + i * (_num_coords + 1));
+    }
+
     ++_num_coords;
-    _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
+    _neighbors = std::move(neighbors);
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
-- 
2.43.0


From 2fd6802dd9e008d2d9eb6e56c26fc0394e91752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 06/31] fix: print and compare graphs in the order of
 coordinates, not of their hashes

Coordinates with equal hashes came in the order of insertion, so that graphs
with the same content could compare as different.
---
 .../visibility_graphs/code/datastructures/graph/graph.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 40be855..5dda95c 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -164,7 +164,8 @@ std::string Graph::to_string_representation() const {
     auto outs = std::stringstream();
 
     const auto coord_sorter = [](const Coordinate &lhs, const Coordinate &rhs) {
-        return std::hash<Coordinate>()(lhs) < std::hash<Coordinate>()(rhs);
+        return std::make_pair(lhs.get_longitude_microdegrees(), lhs.get_latitude_microdegrees()) <
+               std::make_pair(rhs.get_longitude_microdegrees(), rhs.get_latitude_microdegrees());
     };
 
     auto vertices = get_vertices();
-- 
2.43.0


From 18d77361fadf9d20d94bcca84553257e997303e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 07/31] fix: equal line segments have equal hashes

A segment and its reverse compare equal but hashed differently.
---
 .../code/types/line_segment/line_segment.cpp                | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 7eb4214..46ad99b 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -2,6 +2,7 @@
 // Created by James.Balajan on 31/03/2021.
 //
 
+#include <algorithm>
 #include <s2/s2point.h>
 #include <stdexcept>
 
@@ -136,7 +137,8 @@ S2Polyline *LineSegment::to_s2_polyline() const {
 }
 
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
-    const std::size_t coord_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
-    const std::size_t coord_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
+    // Segments are equal regardless of their direction, and so must be their hashes
+    const auto [coord_1_hash, coord_2_hash] = std::minmax({hash<Coordinate>()(segment.get_endpoint_1()),
+                                                           hash<Coordinate>()(segment.get_endpoint_2())});
     return coord_1_hash ^ (coord_2_hash + 0x9e3779b9 + (coord_1_hash << 6) + (coord_1_hash >> 2));
 }
-- 
2.43.0


From 8f0da3d972a85211b5bc5a28d316fc2bb00ff03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 08/31] fix: tell reflex corners exactly

Rounding in the floating point determinant misjudged corners which are close
to straight.
---
 .../code/types/polyline/three_vertex_polyline.cpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..c8f3145 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,7 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    return s.cross_product_magnitude_microdegrees(t) < 0;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From b012c7a57c2f2f3b9791691c7b41d5aa8ee677ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 09/31] fix: keep the corner at which a polygon repeats a
 vertex

Each of several consecutive equal vertices counted as collinear and all of
them were dropped, the first vertex of a closed ring included.
---
 .../visibility_graphs/code/types/polygon/polygon.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..c29ce03 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -78,7 +78,17 @@ Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices)
     }
 }
 
-std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices) {
+std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices_with_repetitions) {
+    // Of consecutive equal vertices only one is kept. They would otherwise all count as collinear.
+    auto vertices = std::vector<Coordinate>();
+    vertices.reserve(vertices_with_repetitions.size());
+    for (size_t i = 0; i < vertices_with_repetitions.size(); ++i) {
+        const auto prev_i = (i == 0) ? vertices_with_repetitions.size() - 1 : i - 1;
+        if (vertices_with_repetitions[i] != vertices_with_repetitions[prev_i]) {
+            vertices.push_back(vertices_with_repetitions[i]);
+        }
+    }
+
     const long num_vertices = vertices.size();
     auto filtered_vertices = std::vector<Coordinate>();
     filtered_vertices.reserve(num_vertices);
-- 
2.43.0


From 93c2a8897e25a11408eb3f1508302ca7f2e7dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 10/31] fix: tell the winding of polygons exactly

The floating point sum lost the area of long slivers to rounding.
---
 .../visibility_graphs/code/types/polygon/polygon.cpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index c29ce03..afe9cb2 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -60,14 +60,17 @@ Polygon::normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coo
 }
 
 Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices) {
-    double winding_sum = 0;
+    // Twice the signed area fits, even where the sum of the first few terms would overflow, so the sum may wrap around
+    uint64_t wrapping_winding_sum = 0;
     long num_vertices = vertices.size();
-#pragma omp simd reduction(+ : winding_sum)
+#pragma omp simd reduction(+ : wrapping_winding_sum)
     for (long i = 0; i < num_vertices; ++i) {
         long next_i = (i + 1) % num_vertices;
-        winding_sum += (vertices[next_i].get_longitude() - vertices[i].get_longitude()) *
-                       (vertices[next_i].get_latitude() + vertices[i].get_latitude());
+        wrapping_winding_sum += static_cast<uint64_t>(
+            (vertices[next_i].get_longitude_microdegrees_long() - vertices[i].get_longitude_microdegrees_long()) *
+            (vertices[next_i].get_latitude_microdegrees_long() + vertices[i].get_latitude_microdegrees_long()));
     }
+    const auto winding_sum = static_cast<int64_t>(wrapping_winding_sum);
 
     if (winding_sum < 0) {
         return Orientation::COUNTER_CLOCKWISE;
-- 
2.43.0


From 65813caf0482176346861a938026e2462f39a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 11/31] fix: a modified graph answers as a modified copy of its
 base graph would

Crossing edges from a vertex of its own raised, and so did queries about such
a vertex; a removed edge which was added again as crossing was not crossing;
neighbors and vertices which the base graph has were listed twice.
---
 .../modified_graph/modified_graph.cpp         | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..5214e2e 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -2,6 +2,8 @@
 // Created by James.Balajan on 23-Feb.-2022.
 //
 
+#include <algorithm>
+
 #include "modified_graph.hpp"
 
 ModifiedGraph::ModifiedGraph(std::shared_ptr<IGraph> base_graph): _graph(base_graph) { } // NOLINT
@@ -21,15 +23,18 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
     }
 
     if (_neighbors[a].find(b) == _neighbors[a].end()) {
+        const auto is_edge_in_base_graph = _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
+
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
+            .is_meridian_crossing = meridian_crossing && (!is_edge_in_base_graph || _graph->is_edge_meridian_crossing(a, b)),
             .relationship = NeighborRelationship::EDGE_PRESENT
         };
     } else {
         const auto& curr_neighbor = _neighbors[a][b];
 
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
+            .is_meridian_crossing = meridian_crossing && (curr_neighbor.relationship == NeighborRelationship::EDGE_REMOVED ||
+                                                          curr_neighbor.is_meridian_crossing),
             .relationship = NeighborRelationship::EDGE_PRESENT,
         };
     }
@@ -63,6 +68,9 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
+        if (has_vertex(a) && has_vertex(b) && !(_graph->has_vertex(a) && _graph->has_vertex(b))) {
+            return false;
+        }
         return _graph->has_edge(a, b);
     }
 
@@ -71,6 +79,9 @@ bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
 
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
+        if (has_vertex(a) && has_vertex(b) && !(_graph->has_vertex(a) && _graph->has_vertex(b))) {
+            return false;
+        }
         return _graph->is_edge_meridian_crossing(a, b);
     }
 
@@ -85,10 +96,9 @@ std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) c
 
     neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
     for (const auto& neighbor : _neighbors.at(vertex)) {
+        neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
             neighbors.push_back(neighbor.first);
-        } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
-            neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
     }
 
@@ -100,7 +110,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
-- 
2.43.0


From fa01a6c4a7a0da4f49c5180912e1bd95b7fa2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 12/31] fix: source and destination of a path see across the
 antimeridian

Only the vertices of the graph did, so that routes from and to points near the
antimeridian made detours to vertices on their own side, or did not exist.
---
 .../code/shortest_path/shortest_path_computer.cpp  | 14 ++++++++++++--
 .../code/shortest_path/shortest_path_computer.hpp  |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 5fb11bc..125eda8 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -20,7 +20,7 @@ struct AStarHeapElement {
 };
 
 ShortestPathComputer::ShortestPathComputer(const std::shared_ptr<IGraph> &graph) :
-    _graph(graph), _index(graph->get_polygons()), _vistree_gen(graph->get_polygons()) {}
+    _graph(graph), _index(graph->get_polygons()), _vistree_gen(make_polygons_periodic(graph->get_polygons())) {}
 
 std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &source, const Coordinate &destination,
                                                             double maximum_distance_to_search_from_source,
@@ -167,6 +167,13 @@ double ShortestPathComputer::distance_measurement(const Coordinate &a, const Coo
     }
 }
 
+Coordinate ShortestPathComputer::closest_copy_over_meridian(const Coordinate &a, const Coordinate &b) {
+    const auto periodic_coordinates = periodic_coordinates_from_coordinate(a);
+    return (periodic_coordinates[1] - b).magnitude() < (periodic_coordinates[2] - b).magnitude()
+               ? periodic_coordinates[1]
+               : periodic_coordinates[2];
+}
+
 double ShortestPathComputer::heuristic_distance_measurement(const Coordinate &a, const Coordinate &b) {
     return std::min(distance_measurement(a, b, false), distance_measurement(a, b, true));
 }
@@ -224,8 +231,11 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
             const auto reachable_vertices = _vistree_gen.get_visible_vertices(vertices_to_process[i]);
 
             for (const auto &point : reachable_vertices) {
+                const auto seen_at = point.is_visible_across_meridian
+                                         ? closest_copy_over_meridian(point.coord, vertices_to_process[i])
+                                         : point.coord;
                 if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(point.coord) != Orientation::COUNTER_CLOCKWISE) {
+                    blocking_edges[i].value().orientation_of_point_to_segment(seen_at) != Orientation::COUNTER_CLOCKWISE) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index 53cd64e..ad05558 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -46,6 +46,7 @@ class ShortestPathComputer {
   private:
     static double distance_measurement(const Coordinate &a, const Coordinate &b, bool is_meridian_spanning);
     static double heuristic_distance_measurement(const Coordinate &a, const Coordinate &b);
+    static Coordinate closest_copy_over_meridian(const Coordinate &a, const Coordinate &b);
 
     [[nodiscard]] LandCollisionCorrection handle_land_collisions(const Coordinate &source,
                                                                  const Coordinate &destination,
-- 
2.43.0


From 3b39f8743567f1fa362114a65528a16ee7ec14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 13/31] fix: no direct path through the polygon from whose
 inside the endpoints were moved to its shore

Both edges which source and destination were moved to were ignored, and with
them the polygon between the two.
---
 .../shortest_path/shortest_path_computer.cpp  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 125eda8..458f310 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -35,10 +35,27 @@ std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &so
     const auto &corrected_dest = land_corrections.corrected_dest;
 
     auto intersections = _index.intersect_with_segments(LineSegment(corrected_source, corrected_dest));
+    // The edge which an endpoint was moved to is no obstacle, unless the path starts off into the polygon behind it
+    const auto is_own_edge = [&](const LineSegment &intersection, const std::optional<LineSegment> &corrected_edge,
+                                 const Coordinate &corrected_point, const Coordinate &other_point) {
+        if (!corrected_edge.has_value() || intersection != corrected_edge.value()) {
+            return false;
+        }
+        if (land_corrections.corrected_source_edge == land_corrections.corrected_dest_edge) {
+            return true;
+        }
+
+        const auto other_point_over_meridian = closest_copy_over_meridian(other_point, corrected_point);
+        const auto heading = (other_point_over_meridian - corrected_point).magnitude() < (other_point - corrected_point).magnitude()
+                                 ? other_point_over_meridian
+                                 : other_point;
+        return corrected_edge.value().orientation_of_point_to_segment(heading) != Orientation::COUNTER_CLOCKWISE;
+    };
+
     size_t num_intersections_excluding_corrections = 0;
     for (const auto &intersection : intersections) {
-        if ((!land_corrections.corrected_source_edge.has_value() || intersection != land_corrections.corrected_source_edge.value()) &&
-        (!land_corrections.corrected_dest_edge.has_value() || intersection != land_corrections.corrected_dest_edge.value())) {
+        if (!is_own_edge(intersection, land_corrections.corrected_source_edge, corrected_source, corrected_dest) &&
+            !is_own_edge(intersection, land_corrections.corrected_dest_edge, corrected_dest, corrected_source)) {
             ++num_intersections_excluding_corrections;
         }
     }
-- 
2.43.0


From 06e08ef15668196d7ca67ae82d8aedc37cbc33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 14/31] fix: nothing of an earlier file at the same path gets
 into a saved graph

Some bytes of the file are never written, and the loaded graph took what was
there before for edges over the antimeridian.
---
 .../visibility_graphs/code/serialization/graph_serializer.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..6bb53a2 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -305,7 +305,7 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         throw std::runtime_error(error);
     };
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
+    const auto fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
     if (fd == -1) {
         handle_allocation_error();
     }
-- 
2.43.0


From 6608a3ee41edae880fbf6597bc7de594f14acbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 15/31] fix: loading a truncated or corrupt graph file raises

Nothing was checked against the size of the file, so that loading it read past
the end of the mapping or allocated whatever the file asked for.
---
 .../code/serialization/graph_serializer.cpp   | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 6bb53a2..153e586 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -11,6 +11,7 @@
 #include <unistd.h>
 #include <vector>
 
+#include "constants/constants.hpp"
 #include "graph_serializer.hpp"
 
 #define BITS_IN_A_BYTE 8u
@@ -26,6 +27,8 @@ uint32_t deserialize_4_bytes_from_mmap(const mio::mmap_source &mmap, size_t offs
 int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap, size_t offset);
 uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
 
+void check_fits_in_file(const mio::mmap_source &mmap, size_t offset, uint64_t num_elements, size_t element_size);
+
 void allocate_file(const std::string &path, size_t num_bytes);
 void handle_mmap_error(const std::error_code &error);
 
@@ -149,27 +152,38 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    check_fits_in_file(mmap, offset, num_polygons, sizeof(uint64_t));
     auto polygons = std::vector<Polygon>(num_polygons);
 
+    size_t num_graph_vertices = 0;
     size_t curr_offset = offset;
     for (size_t i = 0; i < num_polygons; ++i) {
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
 
+        check_fits_in_file(mmap, curr_offset, num_vertices, 2 * sizeof(int32_t));
         auto vertices = std::vector<Coordinate>(num_vertices);
         for (size_t j = 0; j < num_vertices; ++j) {
             const auto longitude_offset = curr_offset + (j * 2 * sizeof(int32_t));
             const auto latitude_offset = longitude_offset + sizeof(int32_t);
             const auto longitude = deserialize_4_signed_bytes_from_mmap(mmap, longitude_offset);
             const auto latitude = deserialize_4_signed_bytes_from_mmap(mmap, latitude_offset);
+            if (std::abs(static_cast<int64_t>(longitude)) > MAX_PERIODIC_LONGITUDE_MICRODEGREES ||
+                std::abs(static_cast<int64_t>(latitude)) > MAX_PERIODIC_LONGITUDE_MICRODEGREES) {
+                throw std::runtime_error("The graph file is corrupt: a vertex is out of range");
+            }
             vertices[j] = Coordinate(longitude, latitude);
         }
 
         curr_offset += (num_vertices * 2 * sizeof(int32_t));
 
         polygons[i] = Polygon(vertices);
+        num_graph_vertices += polygons[i].get_vertices().size();
     }
 
+    // The graph takes up memory for each pair of vertices. In the file there is one bit for each.
+    check_fits_in_file(mmap, curr_offset, num_graph_vertices,
+                       num_graph_vertices == 0 ? 0 : (num_graph_vertices - 1) / (2 * BITS_IN_A_BYTE));
     graph = std::make_shared<Graph>(polygons);
 
     return curr_offset;
@@ -187,6 +201,8 @@ size_t GraphSerializer::deserialize_adjacency_matrix_from_mmap(const mio::mmap_s
 
     std::unordered_set<uint64_t> meridian_spanning_edge_indices;
     const auto num_meridian_spanning_edges = deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());
+    check_fits_in_file(mmap, adjacency_matrix_byte_offsets.back() + sizeof(num_meridian_spanning_edges),
+                       num_meridian_spanning_edges, sizeof(uint64_t));
     for (size_t i = 0; i < num_meridian_spanning_edges; ++i) {
         meridian_spanning_edge_indices.insert(
             deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back() + (i + 1) * sizeof(uint64_t)));
@@ -293,7 +309,16 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    check_fits_in_file(mmap, offset, 1, sizeof(uint8_t));
+    return mmap[offset];
+}
+
+inline void check_fits_in_file(const mio::mmap_source &mmap, size_t offset, uint64_t num_elements, size_t element_size) {
+    if (offset > mmap.size() || (element_size != 0 && num_elements > (mmap.size() - offset) / element_size)) {
+        throw std::runtime_error(fmt::format("The graph file is truncated or corrupt: it ends after {} bytes", mmap.size()));
+    }
+}
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
-- 
2.43.0


From e5a900fe79789987cb66922ee37751e784983ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 16/31] fix: generate a vertex range of a shapefile without
 polygons

The number of vertices was reduced over an empty sequence, which raises.
---
 capi/src/implementation/graph_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..ecae211 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -61,7 +61,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons), 0)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0


From dd41fb4902124bb7131373ca596ec6eb6dbccc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 17/31] fix: no direct path through a polygon between two of
 its shores when they are rounded inland

---
 .../shortest_path/shortest_path_computer.cpp  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 458f310..2fa46ae 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -35,32 +35,32 @@ std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &so
     const auto &corrected_dest = land_corrections.corrected_dest;
 
     auto intersections = _index.intersect_with_segments(LineSegment(corrected_source, corrected_dest));
-    // The edge which an endpoint was moved to is no obstacle, unless the path starts off into the polygon behind it
-    const auto is_own_edge = [&](const LineSegment &intersection, const std::optional<LineSegment> &corrected_edge,
-                                 const Coordinate &corrected_point, const Coordinate &other_point) {
-        if (!corrected_edge.has_value() || intersection != corrected_edge.value()) {
+    // The edge which an endpoint was moved to is no obstacle, unless the path starts off into the polygon behind it.
+    // In that case the edge may not even be crossed, as the endpoint may have been rounded to the inner side of it.
+    const auto starts_into_polygon = [&](const std::optional<LineSegment> &corrected_edge,
+                                         const Coordinate &corrected_point, const Coordinate &other_point) {
+        if (!corrected_edge.has_value() ||
+            land_corrections.corrected_source_edge == land_corrections.corrected_dest_edge) {
             return false;
         }
-        if (land_corrections.corrected_source_edge == land_corrections.corrected_dest_edge) {
-            return true;
-        }
 
         const auto other_point_over_meridian = closest_copy_over_meridian(other_point, corrected_point);
         const auto heading = (other_point_over_meridian - corrected_point).magnitude() < (other_point - corrected_point).magnitude()
                                  ? other_point_over_meridian
                                  : other_point;
-        return corrected_edge.value().orientation_of_point_to_segment(heading) != Orientation::COUNTER_CLOCKWISE;
+        return corrected_edge.value().orientation_of_point_to_segment(heading) == Orientation::COUNTER_CLOCKWISE;
     };
 
     size_t num_intersections_excluding_corrections = 0;
     for (const auto &intersection : intersections) {
-        if (!is_own_edge(intersection, land_corrections.corrected_source_edge, corrected_source, corrected_dest) &&
-            !is_own_edge(intersection, land_corrections.corrected_dest_edge, corrected_dest, corrected_source)) {
+        if (intersection != land_corrections.corrected_source_edge && intersection != land_corrections.corrected_dest_edge) {
             ++num_intersections_excluding_corrections;
         }
     }
 
-    if (num_intersections_excluding_corrections == 0) {
+    if (num_intersections_excluding_corrections == 0 &&
+        !starts_into_polygon(land_corrections.corrected_source_edge, corrected_source, corrected_dest) &&
+        !starts_into_polygon(land_corrections.corrected_dest_edge, corrected_dest, corrected_source)) {
         return std::vector<Coordinate>{corrected_source, corrected_dest};
     }
 
-- 
2.43.0


From 0f75f4d223cb37d61eff40a7f8e692e3d5751f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 18/31] fix: an endpoint moved to shore does not see along its
 edge past the end of it

---
 .../code/shortest_path/shortest_path_computer.cpp         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 2fa46ae..4267197 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -251,8 +251,12 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
                 const auto seen_at = point.is_visible_across_meridian
                                          ? closest_copy_over_meridian(point.coord, vertices_to_process[i])
                                          : point.coord;
-                if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(seen_at) != Orientation::COUNTER_CLOCKWISE) {
+                // Along the edge, the polygon may begin again past the end of it
+                const auto orientation = blocking_edges[i].has_value()
+                                             ? blocking_edges[i].value().orientation_of_point_to_segment(seen_at)
+                                             : Orientation::NO_ORIENTATION;
+                if (orientation == Orientation::NO_ORIENTATION || orientation == Orientation::CLOCKWISE ||
+                    (orientation == Orientation::COLLINEAR && blocking_edges[i].value().on_segment(seen_at))) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
-- 
2.43.0


From 7708475969b663131919f4397a612b449e256997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 19/31] fix: sight along an edge ends at its far end, not a
 share of its length past it

---
 .../code/types/polyline/three_vertex_polyline.cpp        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index c8f3145..a5b5c78 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -17,21 +17,22 @@ bool ThreeVertexPolyline::point_visible(const Coordinate &coordinate) const {
     const auto v2v3_orientation = v2v3.vector_orientation(v2coord);
     const auto reflex = is_reflex();
 
+    // Past the far end of an edge the tolerance is a distance, not a share of the edge's length
     if (!reflex) {
         return !(
             (v2v1_orientation == Orientation::CLOCKWISE && v2v3_orientation == Orientation::COUNTER_CLOCKWISE) ||
             (v2v1_orientation == Orientation::COLLINEAR && v2v3_orientation == Orientation::COUNTER_CLOCKWISE &&
-                    !ThreeVertexPolyline::inclusive_between(v2v1.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE)) ||
+                    !ThreeVertexPolyline::inclusive_between(v2coord.magnitude(), 0, v2v1.magnitude() + EPSILON_TOLERANCE)) ||
             (v2v1_orientation == Orientation::CLOCKWISE && v2v3_orientation == Orientation::COLLINEAR &&
-                    !ThreeVertexPolyline::inclusive_between(v2v3.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE))
+                    !ThreeVertexPolyline::inclusive_between(v2coord.magnitude(), 0, v2v3.magnitude() + EPSILON_TOLERANCE))
         );
     } else {
         return (
             (v2v1_orientation == Orientation::COUNTER_CLOCKWISE && v2v3_orientation == Orientation::CLOCKWISE) ||
             (v2v1_orientation == Orientation::COLLINEAR && v2v3_orientation == Orientation::CLOCKWISE &&
-                    ThreeVertexPolyline::inclusive_between(v2v1.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE)) ||
+                    ThreeVertexPolyline::inclusive_between(v2coord.magnitude(), 0, v2v1.magnitude() + EPSILON_TOLERANCE)) ||
             (v2v1_orientation == Orientation::COUNTER_CLOCKWISE && v2v3_orientation == Orientation::COLLINEAR &&
-                    ThreeVertexPolyline::inclusive_between(v2v3.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE))
+                    ThreeVertexPolyline::inclusive_between(v2coord.magnitude(), 0, v2v3.magnitude() + EPSILON_TOLERANCE))
         );
     }
 }
-- 
2.43.0


From 476da8b5d1e7a3c64b6aeba1c2f1b992db996162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 20/31] fix: generating a graph with fewer vertices than
 threads divides no progress by zero

---
 .../visibility_graphs/code/visgraph/visgraph_generator.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
index 1709d1e..037c586 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
@@ -37,7 +37,7 @@ std::shared_ptr<Graph> VisgraphGenerator::generate(const std::vector<Polygon> &p
         indicators::option::ShowElapsedTime{true},
         indicators::option::ShowRemainingTime{true},
         indicators::option::Stream{std::cout},
-        indicators::option::MaxProgress{num_vertices},
+        indicators::option::MaxProgress{std::max<size_t>(num_vertices, 1)},
     };
 
 #pragma omp parallel shared(visgraph, polygon_vertices, vistree_gen, num_vertices, bar) default(none)
@@ -45,7 +45,7 @@ std::shared_ptr<Graph> VisgraphGenerator::generate(const std::vector<Polygon> &p
         size_t num_threads = omp_get_num_threads();
 
         if (omp_get_thread_num() == 0) {
-            bar.set_option(indicators::option::MaxProgress{num_vertices / num_threads});
+            bar.set_option(indicators::option::MaxProgress{std::max<size_t>(num_vertices / num_threads, 1)});
             bar.set_option(indicators::option::PostfixText(fmt::format("Generating VisGraph ({} threads)", num_threads)));
         }
 
-- 
2.43.0


From 687a4a7c1ff103a64e24ee1555f44162a1650d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 21/31] fix: a loose segment end as observer has no corner to
 see around

---
 .../visibility_graphs/code/visgraph/vistree_generator.cpp   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index 0142e3c..8ac058f 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -197,16 +197,18 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
     if (vertex_in_question == observer_coordinate) {
         return false;
     }
-    if (_vertices_and_segments.find(observer_coordinate) != _vertices_and_segments.end()) {
+    const auto observer_segments = _vertices_and_segments.find(observer_coordinate);
+    if (observer_segments != _vertices_and_segments.end() && observer_segments->second.size() >= 2) {
         // We perform this check to stop our observer coordinate (if it is a vertex of a polygon)
         // from seeing vertices from inside the polygon
         // Essentially we build artificial walls based on the edges we know obstruct vision (those adjacent)
         // This will be a constant time operation as each vertex only has two adjacent edges
+        // (the loose end of a lone segment is not the corner of anything, and has one)
 
         auto barrier_polyline_vertices = std::vector<Coordinate>();
         barrier_polyline_vertices.reserve(3);
 
-        const auto &vertex_segments = _vertices_and_segments.at(observer_coordinate);
+        const auto &vertex_segments = observer_segments->second;
         for (size_t i = 0; i < vertex_segments.size(); ++i) {
             barrier_polyline_vertices.push_back(vertex_segments[i]->get_endpoint_1());
             if (i != 0)
-- 
2.43.0


From d900d560d22606a1676dff569a7d263937db7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 22/31] fix: a degenerate segment does not end the process

---
 .../visibility_graphs/code/types/line_segment/line_segment.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 46ad99b..8984c6e 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -133,7 +133,7 @@ bool LineSegment::operator==(const LineSegment &other) const {
 bool LineSegment::operator!=(const LineSegment &other) const { return !((*this) == other); }
 
 S2Polyline *LineSegment::to_s2_polyline() const {
-    return new S2Polyline(std::vector<S2Point>{_endpoint_1.to_s2_point(), _endpoint_2.to_s2_point()});
+    return new S2Polyline(std::vector<S2Point>{_endpoint_1.to_s2_point(), _endpoint_2.to_s2_point()}, S2Debug::DISABLE);
 }
 
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
-- 
2.43.0


From 180e890375247a4085b644fa12e4c6534e96bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 23/31] fix: a polygon that is invalid on the sphere does not
 end the process

---
 .../visibility_graphs/code/types/polygon/polygon.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index afe9cb2..cf5efb4 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -121,13 +121,19 @@ std::unique_ptr<S2Loop> Polygon::to_s2_loop() const {
         verts.push_back(vertex.to_s2_point());
     }
 
-    return std::make_unique<S2Loop>(verts);
+    // Edges may turn out to cross each other as geodesics, which is not worth ending the process for
+    auto loop = std::make_unique<S2Loop>();
+    loop->set_s2debug_override(S2Debug::DISABLE);
+    loop->Init(verts);
+    return loop;
 }
 
 std::unique_ptr<const S2Polygon> Polygon::to_s2_polygon() const {
     auto loops = std::vector<std::unique_ptr<S2Loop>>();
-    loops.push_back(to_s2_loop());
-    return std::make_unique<const S2Polygon>(std::move(loops));
+    if (_vertices->size() >= 3) {
+        loops.push_back(to_s2_loop());
+    }
+    return std::make_unique<const S2Polygon>(std::move(loops), S2Debug::DISABLE);
 }
 
 std::string Polygon::to_string_representation() const {
-- 
2.43.0


From 3e1cfda8c868dedc0fa2026ae3ce85e117b7fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 24/31] fix: a default polygon is empty rather than a null
 pointer

---
 .../visibility_graphs/code/types/polygon/polygon.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cf5efb4..f80e6ff 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -9,7 +9,7 @@
 
 #include "polygon.hpp"
 
-Polygon::Polygon() = default;
+Polygon::Polygon() : _vertices(std::make_shared<std::vector<Coordinate>>()) {}
 
 Polygon::Polygon(std::initializer_list<Coordinate> vertices) : _vertices(Polygon::preprocess_vertices(vertices)) {}
 
-- 
2.43.0


From b28ed66f406a9a186b60bc8f825ec4cc6d9dfcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:45 +0000
Subject: [PATCH 25/31] fix: a leg from a moved endpoint does not enter the
 polygon past the end of its edge

Heading exactly along the edge the point was moved to, or having been rounded
to the inner side of it, the leg crosses nothing but edges that are excluded,
and yet runs through the polygon past the end of the edge.
---
 .../shortest_path/shortest_path_computer.cpp  | 25 +++++++++++++------
 .../shortest_path/shortest_path_computer.hpp  |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 4267197..78ca004 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -48,7 +48,7 @@ std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &so
         const auto heading = (other_point_over_meridian - corrected_point).magnitude() < (other_point - corrected_point).magnitude()
                                  ? other_point_over_meridian
                                  : other_point;
-        return corrected_edge.value().orientation_of_point_to_segment(heading) == Orientation::COUNTER_CLOCKWISE;
+        return is_behind_edge(corrected_edge.value(), corrected_point, heading);
     };
 
     size_t num_intersections_excluding_corrections = 0;
@@ -195,6 +195,21 @@ double ShortestPathComputer::heuristic_distance_measurement(const Coordinate &a,
     return std::min(distance_measurement(a, b, false), distance_measurement(a, b, true));
 }
 
+bool ShortestPathComputer::is_behind_edge(const LineSegment &edge, const Coordinate &corrected_point,
+                                          const Coordinate &heading) {
+    switch (edge.orientation_of_point_to_segment(heading)) {
+    case Orientation::COUNTER_CLOCKWISE:
+        return true;
+    case Orientation::COLLINEAR:
+        // Along the edge, the polygon may begin again past the end of it
+        return !edge.on_segment(heading);
+    default:
+        // A point rounded to the inner side of the edge comes out over the edge, not past the end of it
+        return edge.orientation_of_point_to_segment(corrected_point) == Orientation::COUNTER_CLOCKWISE &&
+               !edge.intersection_with_segment(LineSegment(corrected_point, heading)).has_value();
+    }
+}
+
 LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coordinate &source,
                                                                      const Coordinate &destination,
                                                                      bool correct_vertices_on_land) const {
@@ -251,12 +266,8 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
                 const auto seen_at = point.is_visible_across_meridian
                                          ? closest_copy_over_meridian(point.coord, vertices_to_process[i])
                                          : point.coord;
-                // Along the edge, the polygon may begin again past the end of it
-                const auto orientation = blocking_edges[i].has_value()
-                                             ? blocking_edges[i].value().orientation_of_point_to_segment(seen_at)
-                                             : Orientation::NO_ORIENTATION;
-                if (orientation == Orientation::NO_ORIENTATION || orientation == Orientation::CLOCKWISE ||
-                    (orientation == Orientation::COLLINEAR && blocking_edges[i].value().on_segment(seen_at))) {
+                if (!blocking_edges[i].has_value() ||
+                    !is_behind_edge(blocking_edges[i].value(), vertices_to_process[i], seen_at)) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index ad05558..ad96f82 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -47,6 +47,7 @@ class ShortestPathComputer {
     static double distance_measurement(const Coordinate &a, const Coordinate &b, bool is_meridian_spanning);
     static double heuristic_distance_measurement(const Coordinate &a, const Coordinate &b);
     static Coordinate closest_copy_over_meridian(const Coordinate &a, const Coordinate &b);
+    static bool is_behind_edge(const LineSegment &edge, const Coordinate &corrected_point, const Coordinate &heading);
 
     [[nodiscard]] LandCollisionCorrection handle_land_collisions(const Coordinate &source,
                                                                  const Coordinate &destination,
-- 
2.43.0


From f46315c9eefd4a5143be7efc662d029c730a83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:52:26 +0000
Subject: [PATCH 26/31] fix: close the graph file when it cannot be made as
 large as the graph

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 153e586..9cf7c6f 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -335,6 +335,9 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         handle_allocation_error();
     }
     if (ftruncate(fd, num_bytes) != 0) {
+        const auto truncation_errno = errno;
+        close(fd);
+        errno = truncation_errno;
         handle_allocation_error();
     }
     if (close(fd) == -1) {
-- 
2.43.0


From 2a874ed9dffba841cc3d6e17b295914f5d6d5dab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:52:26 +0000
Subject: [PATCH 27/31] fix: raise an error when the disk is too full for a
 graph file, instead of ending the process

---
 .../code/serialization/graph_serializer.cpp               | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 9cf7c6f..1af5410 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <cstdint>
+#include <fcntl.h>
 #include <fmt/core.h>
 #include <mio.hpp>
 #include <string>
@@ -334,10 +335,11 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
     if (fd == -1) {
         handle_allocation_error();
     }
-    if (ftruncate(fd, num_bytes) != 0) {
-        const auto truncation_errno = errno;
+    // Without the disk space set aside, writing to the mapped file ends the process when the disk is full
+    const auto allocation_errno = posix_fallocate(fd, 0, static_cast<off_t>(num_bytes));
+    if (allocation_errno != 0) {
         close(fd);
-        errno = truncation_errno;
+        errno = allocation_errno;
         handle_allocation_error();
     }
     if (close(fd) == -1) {
-- 
2.43.0


From 71291ae1d4189eba1c765267c436ee0f1f6efa45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:52:27 +0000
Subject: [PATCH 28/31] fix: close a file which cannot be mapped

---
 capi/cpp_libs/mio/mio.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/capi/cpp_libs/mio/mio.hpp b/capi/cpp_libs/mio/mio.hpp
index c568a46..39f3b4c 100644
--- a/capi/cpp_libs/mio/mio.hpp
+++ b/capi/cpp_libs/mio/mio.hpp
@@ -1059,6 +1059,15 @@ void basic_mmap<AccessMode, ByteT>::map(const String& path, const size_type offs
     {
         is_handle_internal_ = true;
     }
+    else
+    {
+        // Nobody else knows of the handle.
+#ifdef _WIN32
+        ::CloseHandle(handle);
+#else // POSIX
+        ::close(handle);
+#endif
+    }
 }
 
 template<access_mode AccessMode, typename ByteT>
-- 
2.43.0


From 2c0680182cb5cd4578013d5910bfad58fefc4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:54:20 +0000
Subject: [PATCH 29/31] fix: None where a graph is asked for raises a TypeError
 instead of ending the interpreter

---
 .../visibility_graphs/bindings.cpp               | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/bindings.cpp b/capi/src/implementation/visibility_graphs/bindings.cpp
index 247413b..f23ce42 100644
--- a/capi/src/implementation/visibility_graphs/bindings.cpp
+++ b/capi/src/implementation/visibility_graphs/bindings.cpp
@@ -63,7 +63,7 @@ PYBIND11_MODULE(_vis_graph, m) {
         .def("get_neighbors", &Graph::get_neighbors);
 
     py::class_<ShortestPathComputer>(m, "VisGraphShortestPathComputer")
-        .def(py::init<const std::shared_ptr<Graph> &>())
+        .def(py::init<const std::shared_ptr<Graph> &>(), py::arg("graph").none(false))
         .def(
             "shortest_path",
             [](ShortestPathComputer &self, const Coordinate &source, const Coordinate &destination,
@@ -108,8 +108,18 @@ PYBIND11_MODULE(_vis_graph, m) {
           "Generates a visgraph from the supplied polygons using only a certain range of vertices (after shuffling)");
 
     m.def("load_graph_from_file", &GraphSerializer::deserialize_from_file, "Loads serialized graph from file");
-    m.def("save_graph_to_file", &GraphSerializer::serialize_to_file, "Serializes graph to file");
-    m.def("merge_graphs", &merge_graphs, "Merges graphs into one");
+    m.def("save_graph_to_file", &GraphSerializer::serialize_to_file, "Serializes graph to file",
+          py::arg("graph").none(false), py::arg("path"));
+    m.def("merge_graphs",
+     [](const std::vector<std::shared_ptr<Graph>> &graphs) {
+            for (const auto &graph : graphs) {
+                if (graph == nullptr) {
+                    throw py::type_error("merge_graphs(): None is no graph");
+                }
+            }
+            return merge_graphs(graphs);
+        },
+        "Merges graphs into one");
 
 #ifdef VERSION_INFO
     m.attr("__version__") = MACRO_STRINGIFY(VERSION_INFO);
-- 
2.43.0


From 59d65ecadc444a7d721f951ed8ebc8e9b0d1b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:33:39 +0000
Subject: [PATCH 30/31] fix: a Coordinate is hashable and cannot be altered, so
 that polygons can be drawn by the hypothesis strategy

---
 capi/src/implementation/dtos/coordinate.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/capi/src/implementation/dtos/coordinate.py b/capi/src/implementation/dtos/coordinate.py
index d6229e6..89fff1c 100644
--- a/capi/src/implementation/dtos/coordinate.py
+++ b/capi/src/implementation/dtos/coordinate.py
@@ -1,14 +1,11 @@
 from dataclasses import dataclass
 
 
-@dataclass
+@dataclass(frozen=True)
 class Coordinate:
     latitude: float
     longitude: float
 
-    class Config:
-        frozen = True
-
 
 def construct_coord_in_lat_lon_range(latitude: float, longitude: float) -> Coordinate:
     return Coordinate(
-- 
2.43.0


From 9dd5aa832812ffe55b7637261c70e22444ed9845 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:46:23 +0000
Subject: [PATCH 31/31] fix: splits that do not exist are refused, also when
 there are fewer vertices than splits

---
 capi/src/implementation/graph_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index ecae211..ca11bcd 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -34,6 +34,9 @@ class GraphGenerator(IGraphGenerator):
     def generate_for_vertex_range(
         self, shape_file_path: str, output_path: str, current_split_num: int, num_splits: int, seed: int
     ) -> None:
+        if not 0 <= current_split_num < num_splits:
+            raise ValueError(f"There is no split {current_split_num} of {num_splits}")
+
         os.mkdir(output_path)
         graph_file = GraphFilePaths(output_path)
 
-- 
2.43.0

