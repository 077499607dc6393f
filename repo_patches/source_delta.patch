From 05458460e6d96ada5fbd538331f2b87070f80885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 01/51] fix: tag-aware simplification must not bypass a
 remaining node in one direction

---
 src/library/include/geometry/network/network_import.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..9890416 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -438,6 +438,11 @@ namespace map_matching_2::geometry::network {
                     }
                 }
             }
+
+            if (merge_edges.size() != in_edges_v.size()) {
+                // only merge when all edges find a partner, otherwise the remaining vertex would be bypassed
+                merge_edges.clear();
+            }
         }
 
         class vertex_visitor : public graph::visitor {
-- 
2.43.0


From 946fc9530f404c3bbe6b3a92c63f3d95d8820b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 02/51] fix: weakly unconnected components must not depend on
 edge directions

---
 .../geometry/network/network_import.hpp       | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 9890416..a9ecfcd 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -121,17 +121,43 @@ namespace map_matching_2::geometry::network {
             using discovered_type = std::vector<vertex_descriptor>;
             std::vector<discovered_type> components;
 
+            const auto discover_vertex = [&](const vertex_descriptor &vertex_desc) {
+                if (visited.emplace(this->graph().vertex_index(vertex_desc)).second) {
+                    queue.push(vertex_desc);
+                }
+            };
+
             const auto vertices_v = this->graph().vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
-                const auto vertex_index = this->graph().vertex_index(it);
-                if (not visited.contains(vertex_index)) {
+                if (not visited.contains(this->graph().vertex_index(it))) {
                     auto &discovered = components.emplace_back(discovered_type{});
-                    vertex_visitor vertex_visitor{discovered};
 
-                    graph::breadth_first_search(this->graph(), it, visited, queue, vertex_visitor);
+                    // follow the edges in both directions, weakly components do not depend on the edge direction
+                    discover_vertex(it);
+                    while (not queue.empty()) {
+                        const vertex_descriptor vertex_desc = queue.front();
+                        queue.pop();
+                        discovered.emplace_back(vertex_desc);
+
+                        const auto out_edges_v = this->graph().out_edges_view(vertex_desc);
+                        for (auto oe_it = out_edges_v.begin(); oe_it != out_edges_v.end();
+                             oe_it = out_edges_v.next(oe_it)) {
+                            discover_vertex(this->graph().target(out_edges_v[oe_it]));
+                        }
+
+                        const auto in_edges_v = this->graph().in_edges_view(vertex_desc);
+                        for (auto ie_it = in_edges_v.begin(); ie_it != in_edges_v.end();
+                             ie_it = in_edges_v.next(ie_it)) {
+                            discover_vertex(this->graph().source(in_edges_v[ie_it]));
+                        }
+                    }
                 }
             }
 
+            if (components.empty()) {
+                return;
+            }
+
             const auto component_comparator = [](const auto &a, const auto &b) {
                 return a.size() < b.size();
             };
@@ -445,22 +471,6 @@ namespace map_matching_2::geometry::network {
             }
         }
 
-        class vertex_visitor : public graph::visitor {
-
-        public:
-            explicit constexpr vertex_visitor(std::vector<vertex_descriptor> &discovered)
-                : _discovered{discovered} {}
-
-            template<typename Graph>
-            void discover_vertex(const Graph &graph, typename Graph::vertex_descriptor vertex_desc) {
-                _discovered.emplace_back(vertex_desc);
-            }
-
-        private:
-            std::vector<vertex_descriptor> &_discovered;
-
-        };
-
     };
 
 }
-- 
2.43.0


From f19c666e7cdadfeaaa1c654517b257a8d7c7de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 03/51] fix: uniting more than two nodes at the same position
 with simplification enabled

---
 .../geometry/network/network_import.hpp       | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index a9ecfcd..587fca9 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -184,6 +184,7 @@ namespace map_matching_2::geometry::network {
             using in_edge_descriptor = typename graph_type::in_edge_descriptor;
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
+            boost::unordered_flat_set<point_type> simplify_points;
 
             std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
             std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
@@ -240,23 +241,28 @@ namespace map_matching_2::geometry::network {
                     graph.remove_vertex(vertex_desc);
 
                     if (simplify) {
-                        // check if current node can be omitted
-                        if (_is_mergeable(existing_vertex_desc, adjacent_edges)) {
-                            _populate_merges(existing_vertex_desc, merge_edges, simplify_network_complete);
+                        // check later if node can be omitted, further duplicates still need to find it until then
+                        simplify_points.emplace(it->first);
+                    }
+                } else {
+                    node_map.emplace(point, vertex_desc);
+                }
+            }
 
-                            if (not merge_edges.empty()) {
-                                for (const auto &merge_edge : merge_edges) {
-                                    _merge(merge_edge.first, merge_edge.second);
-                                }
+            vertex_desc = vertices_v.begin();
+            for (vertex_val = vertex_desc; vertex_desc != vertices_v.end(); vertex_desc = vertex_val) {
+                vertex_val = vertices_v.next(vertex_val);
 
-                                merge_edges.clear();
-                            }
+                if (simplify_points.contains(vertices_v[vertex_desc].get().point) and
+                    _is_mergeable(vertex_desc, adjacent_edges)) {
+                    // node can be omitted
+                    _populate_merges(vertex_desc, merge_edges, simplify_network_complete);
 
-                            node_map.erase(it);
-                        }
+                    for (const auto &merge_edge : merge_edges) {
+                        _merge(merge_edge.first, merge_edge.second);
                     }
-                } else {
-                    node_map.emplace(point, vertex_desc);
+
+                    merge_edges.clear();
                 }
             }
 
-- 
2.43.0


From 9c8e00857fb091897a41cbe2becca05c630f548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 04/51] fix: use after free when removing duplicate edges

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 587fca9..9783823 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -287,9 +287,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From 70c95b226b9bb164ee7fd5793c80273bd1042feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 05/51] fix: a too long way to a node must not hide a shorter
 way within the routing bounds

---
 src/library/include/geometry/network/network.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..0a798cf 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -427,9 +427,18 @@ namespace map_matching_2::geometry::network {
                 const auto weight = _weight_func(graph.get_edge_data(edge_desc));
                 const auto distance_target = distance_source + weight;
                 if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
+                    // disable target for this edge, a known target has a shorter distance and is not changed anyway
                     const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
+                    if (not _colors.contains(target)) {
+                        _colors[target] = graph::color::BLACK;
+                        _disabled.emplace(target);
+                    }
+                } else if (not _disabled.empty()) {
+                    // enable target again, it can be reached within the bounds on this edge
+                    const vertex_descriptor &target = graph.target(edge_desc);
+                    if (_disabled.erase(target) > 0) {
+                        _colors.erase(target);
+                    }
                 }
             }
 
@@ -441,6 +450,8 @@ namespace map_matching_2::geometry::network {
             graph::colors_type &_colors;
             const WeightFunc &_weight_func;
 
+            boost::unordered_flat_set<vertex_descriptor> _disabled{};
+
         };
 
         template<typename WeightFunc>
-- 
2.43.0


From 638cd1258e09c2ec351e45f89ef8789fe0c57e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 06/51] fix: routing over roads without a length

---
 .../include/geometry/network/network.hpp       | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 0a798cf..acc90c4 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -220,7 +220,8 @@ namespace map_matching_2::geometry::network {
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
             constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+                // lines without a length, e.g. between nodes at the same position, have no weight
+                return edge.rich_line.has_length() ? edge.rich_line.length() : length_type{};
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
@@ -262,7 +263,8 @@ namespace map_matching_2::geometry::network {
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
             constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+                // lines without a length, e.g. between nodes at the same position, have no weight
+                return edge.rich_line.has_length() ? edge.rich_line.length() : length_type{};
             };
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
@@ -317,12 +319,14 @@ namespace map_matching_2::geometry::network {
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         if (this->graph().target(it) == *next_vertex_it) {
                             const edge_data_type &edge = this->graph().get_edge_data(it);
-                            if (not edge.rich_line.empty() and
-                                (not edge.rich_line.has_length() or edge.rich_line.length() < shortest_length)) {
-                                if (edge.rich_line.has_length()) {
-                                    shortest_length = edge.rich_line.length();
+                            if (not edge.rich_line.empty()) {
+                                const length_type length = edge.rich_line.has_length()
+                                                               ? edge.rich_line.length()
+                                                               : length_type{};
+                                if (length < shortest_length) {
+                                    shortest_length = length;
+                                    rich_line_ptr = &edge.rich_line;
                                 }
-                                rich_line_ptr = &edge.rich_line;
                             }
                         }
                     }
-- 
2.43.0


From f2b90e6af25de51ff71a7d9ed8eeb3a30a6bbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 07/51] fix: goal-directed routing must not report a route to
 an unreachable goal

---
 src/library/include/geometry/network/network.hpp | 10 ++++++----
 src/library/include/matching/algorithm/route.hpp |  7 +++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index acc90c4..4a12c70 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -282,10 +282,12 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            if (predecessors.contains(goal)) {
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..b400e44 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -117,8 +117,11 @@ namespace map_matching_2::matching {
 
                 std::vector<std::list<vertex_descriptor>> shortest_paths;
                 if (a_star) {
-                    shortest_paths.emplace_back(
-                            this->shortest_path(candidates, from, source, to, target, max_distance_factor));
+                    auto shortest_path = this->shortest_path(
+                            candidates, from, source, to, target, max_distance_factor);
+                    if (not shortest_path.empty()) {
+                        shortest_paths.emplace_back(std::move(shortest_path));
+                    }
                 } else {
                     shortest_paths = this->shortest_paths(candidates, from, source, to, max_distance_factor);
                 }
-- 
2.43.0


From a647958cceeae9857bd49214bf67e3682a65d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 08/51] fix: search mode next compared adjacent roads with the
 distance of the road itself

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index d708a62..fbb45fd 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -167,8 +167,8 @@ namespace map_matching_2::matching {
                 for (const auto vertex : std::array{source, target}) {
                     const auto out_edges_v = _network.graph().out_edges_view(vertex);
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
-                        const auto &adj_edge = out_edges_v[it];
-                        const auto &adj_edge_line = edge.rich_line.line();
+                        const auto &adj_edge = _network.edge(it);
+                        const auto &adj_edge_line = adj_edge.rich_line.line();
                         const auto adj_distance = geometry::distance(point, adj_edge_line);
                         if (adj_distance <= edge_distance) {
                             additions.emplace_back(it);
-- 
2.43.0


From 30575a59c88dda65f1f446e5f243f53e7ec3673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 09/51] fix: cutting lines with repeated points

Segments between equal points have no length, their sentinel value must
not be used in sums and comparisons.
---
 .../include/geometry/algorithm/substring.hpp        | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index c7dd192..7152ea9 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -76,7 +76,10 @@ namespace map_matching_2::geometry {
             bool found{false};
             for (std::size_t i = 0; i < line.size() - 1; ++i) {
                 const auto segment = rich_line.rich_referring_segment(i);
-                current_distance += segment.length();
+                if (segment.has_length()) {
+                    // repeated points have no length
+                    current_distance += segment.length();
+                }
 
                 if (not found and current_distance > from_distance) {
                     from_index = i + 1;
@@ -185,7 +188,7 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(from_nearest_segment);
             const auto distance_from = geometry::distance(rich_segment.first(), from);
-            if (distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
+            if (rich_segment.has_length() and distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
                 from_nearest_segment++;
             }
         }
@@ -218,7 +221,7 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(to_nearest_segment);
             const auto distance_to = geometry::distance(rich_segment.second(), to);
-            if (distance_to > rich_segment.length() and to_nearest_segment > 0) {
+            if (rich_segment.has_length() and distance_to > rich_segment.length() and to_nearest_segment > 0) {
                 to_nearest_segment--;
             }
         }
@@ -228,7 +231,9 @@ namespace map_matching_2::geometry {
         bool found_to_distance = !calculate_to;
         for (std::size_t i = 0; i < rich_line.size() - 1; ++i) {
             const auto rich_segment = rich_line.rich_referring_segment(i);
-            const auto distance = rich_segment.length();
+            // repeated points have no length
+            const auto distance = rich_segment.has_length() ?
+                    rich_segment.length() : default_float_type<length_type>::v0;
 
             if (calculate_from) {
                 if (i < from_nearest_segment) {
-- 
2.43.0


From 914162065cb10f9758ee5945145ee246f340795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 10/51] fix: combined candidate search kept no roads to enlarge
 the radius for

Roads out of the first radius were erased from the nearest ones, so that
doubling the radius never found any.
---
 .../include/matching/algorithm/candidate_search.hpp      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index fbb45fd..77575fd 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -86,7 +86,7 @@ namespace map_matching_2::matching {
 
             const point_type &point = track.rich_line.at(index);
 
-            boost::container::set<edge_descriptor> edge_result;
+            boost::container::set<edge_descriptor> edge_result, edge_nearest;
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::NEAREST or
@@ -97,6 +97,10 @@ namespace map_matching_2::matching {
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::CIRCLE) {
+                if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED) {
+                    edge_nearest = edge_result;
+                }
+
                 bool found = false;
                 bool adaptive_radius = match_settings.adaptive_radius;
                 double current_radius = match_settings.radius;
@@ -123,6 +127,9 @@ namespace map_matching_2::matching {
                         // create bounding box with at least buffer_distance
                         const auto buffer = geometry::buffer_box(point, current_radius);
                         edge_result = _network.query_segments_unique(boost::geometry::index::intersects(buffer));
+                    } else {
+                        // every radius needs to start again with all nearest edges
+                        edge_result = edge_nearest;
                     }
 
                     for (auto edge_it = edge_result.begin(); edge_it != edge_result.end();) {
-- 
2.43.0


From 8c237f116c329d185b4998cde100a8b3b167d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 11/51] fix: driving on along a road from its very beginning

A candidate at the beginning of a road has nothing before it on the road,
so that its route along the same road was never considered.
---
 src/library/include/matching/algorithm/route.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index b400e44..f776584 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -184,13 +184,15 @@ namespace map_matching_2::matching {
                     const auto &edge = _network.edge(candidate_from.edge_desc);
                     if (edge.rich_line.has_length() and start->length() + end->length() >= edge.rich_line.length()) {
                         // if both lines overlap (which is only possible when sum of lengths is larger or equal than edge length)
-                        if (candidate_from.from->has_length() and candidate_to.from->has_length() and
-                            candidate_from.from->length() <= candidate_to.from->length()) {
+                        // the start candidate may lie at the very beginning of the edge, then nothing is before it
+                        const auto from_length = candidate_from.from->has_length() ?
+                                candidate_from.from->length() : geometry::default_float_type<length_type>::v0;
+                        if (candidate_to.from->has_length() and from_length <= candidate_to.from->length()) {
                             // only continue if substring is possible, else routing is needed
                             // std::cout << edge << "\n" << candidate_from << "\n" << candidate_to << std::endl;
                             return route_type{
                                     geometry::substring<lazy_rich_line_type>(
-                                            edge.rich_line, candidate_from.from->length(), candidate_to.from->length(),
+                                            edge.rich_line, from_length, candidate_to.from->length(),
                                             candidate_from.projection_point, candidate_to.projection_point, true, true)
                             };
                         }
-- 
2.43.0


From 698b593e6973b9bd7c9f33aab0bac1400103bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 12/51] fix: parts of routes must keep their own lines alive

A reference to foreign data in front of own data ended the search for own
data, so that the part only referenced lines of the original route.
---
 src/library/include/geometry/network/route/route.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 6688258..fb9b2f3 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -481,19 +481,19 @@ namespace map_matching_2::geometry::network {
                 auto copy_rich_line = [&](const rich_line_reference_variant_type &rich_line_ref,
                         auto &next_rich_it, const auto &end_rich_it) {
                     bool data_moved = false;
-                    while (next_rich_it != end_rich_it) {
-                        const rich_line_variant_type &next_rich_line = *next_rich_it;
+                    // only continue behind found local data, as references without local data may come first
+                    for (auto rich_it = next_rich_it; rich_it != end_rich_it; ++rich_it) {
+                        const rich_line_variant_type &next_rich_line = *rich_it;
                         if (_equal_reference(next_rich_line, rich_line_ref)) {
                             // reference has local data, move it
                             const auto &_own_rich_line = new_rich_lines.emplace_back(next_rich_line);
                             std::visit([&new_references](auto &&_rich_line) {
                                 new_references.emplace_back(std::cref(_rich_line));
                             }, _own_rich_line);
-                            ++next_rich_it;
+                            next_rich_it = std::next(rich_it);
                             data_moved = true;
                             break;
                         }
-                        ++next_rich_it;
                     }
 
                     // only reference movement
-- 
2.43.0


From 3c0e945d861e5d0983f1721603d827ee464c21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 13/51] fix: parts of rich lines must not take over the totals
 of the whole line

---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..db49f1f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -476,10 +476,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -498,10 +498,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From 3e29c9b2b64da0d784ea0ed2065f7ef79f0b62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 14/51] fix: azimuth of a rich line after erasing its last
 point

---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 2 +-
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..9799b8b 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -316,7 +316,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..b67ef70 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -306,7 +306,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
-- 
2.43.0


From a0ea79390b2582fad4c74b867aa9c52cd8062cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 15/51] fix: directions between segments of lazy rich lines
 were always rejected

---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index db49f1f..c8e065e 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -437,6 +437,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
-- 
2.43.0


From 0d6c9a498a02ddd9804032fb86c05a8e3ca35e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 16/51] fix: assigning rich lines and segments must not keep
 values of the old geometry

---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp     | 3 +++
 src/library/include/geometry/rich_type/eager_rich_line.hpp   | 3 +++
 .../include/geometry/rich_type/eager_rich_segment.hpp        | 1 +
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp      | 1 +
 src/library/include/geometry/rich_type/lazy_rich_line.hpp    | 1 +
 src/library/include/geometry/rich_type/lazy_rich_segment.hpp | 1 +
 src/library/include/geometry/rich_type/rich_line_data.hpp    | 2 ++
 src/library/include/geometry/rich_type/rich_segment_data.hpp | 5 +++++
 8 files changed, 17 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..43913ff 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -130,6 +130,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -143,6 +144,8 @@ namespace map_matching_2::geometry {
             multi_rich_line_data_base_type::_azimuth = other.azimuth();
             multi_rich_line_data_base_type::_directions = other.directions();
             multi_rich_line_data_base_type::_absolute_directions = other.absolute_directions();
+            multi_rich_line_data_base_type::_lengths.clear();
+            multi_rich_line_data_base_type::_azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
                     std::back_inserter(multi_rich_line_data_base_type::_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 9799b8b..e526d79 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -204,6 +205,8 @@ namespace map_matching_2::geometry {
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
             rich_line_data_base_type::_absolute_directions = other.absolute_directions();
+            rich_line_data_base_type::_lengths.clear();
+            rich_line_data_base_type::_azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
                     std::back_inserter(rich_line_data_base_type::_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
diff --git a/src/library/include/geometry/rich_type/eager_rich_segment.hpp b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
index c757eba..1df1fad 100644
--- a/src/library/include/geometry/rich_type/eager_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
@@ -115,6 +115,7 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr eager_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_invalidate();
             rich_segment_data_base_type::_compute(*this);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..1cfc9c5 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b67ef70..eb699bc 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
index f2b2114..06f32d2 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
@@ -107,6 +107,7 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr lazy_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c8e065e..d56911f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,6 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
+            _lengths.clear();
+            _azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
             return *this;
diff --git a/src/library/include/geometry/rich_type/rich_segment_data.hpp b/src/library/include/geometry/rich_type/rich_segment_data.hpp
index e9e8809..67f0e07 100644
--- a/src/library/include/geometry/rich_type/rich_segment_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_segment_data.hpp
@@ -95,6 +95,11 @@ namespace map_matching_2::geometry {
             return geometry::equals_points(rich_segment.first(), rich_segment.second());
         }
 
+        constexpr void _invalidate() {
+            _length = not_initialized<length_type>;
+            _azimuth = not_initialized<angle_type>;
+        }
+
         void _compute_length(const is_rich_segment auto &rich_segment) const {
             if (not initialized(_length)) {
                 _length = not_valid<length_type>;
-- 
2.43.0


From 268bf1688ddc37a294d780032544effd45cbdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 17/51] fix: azimuth of the only segment of merged rich lines

---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index d56911f..a24802a 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -405,6 +405,10 @@ namespace map_matching_2::geometry {
 
                 _compute_azimuths(rich_line);
 
+                for (std::size_t i = 0; i < _azimuths.size(); ++i) {
+                    _initialize_azimuth(rich_line, i);
+                }
+
                 if (_azimuths.size() >= 2) {
                     bool has_directions = false;
                     angle_type directions = default_float_type<angle_type>::v0;
-- 
2.43.0


From 6955bc29f9d807058c9126284b51c2d9dc76f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 18/51] fix: directions of routes with lines of a single point

---
 src/library/include/geometry/network/route/route.hpp      | 6 +++---
 src/library/include/geometry/network/route/route_data.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index fb9b2f3..4c1f71d 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -294,7 +294,7 @@ namespace map_matching_2::geometry::network {
                             // has direction only when attached
                             if (_size(curr_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
-                                _has_azimuth(next_rich_line, 0)) {
+                                _size(next_rich_line) >= 2 and _has_azimuth(next_rich_line, 0)) {
                                 return true;
                             }
                         }
@@ -334,7 +334,7 @@ namespace map_matching_2::geometry::network {
                             // add direction inbetween only when attached
                             if (_size(curr_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
-                                _has_azimuth(next_rich_line, 0)) {
+                                _size(next_rich_line) >= 2 and _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
                                         _get_azimuth(curr_rich_line, _size(curr_rich_line) - 2),
                                         _get_azimuth(next_rich_line, 0));
@@ -385,7 +385,7 @@ namespace map_matching_2::geometry::network {
                             // add direction inbetween only when attached
                             if (_size(curr_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
-                                _has_azimuth(next_rich_line, 0)) {
+                                _size(next_rich_line) >= 2 and _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
                                         _get_azimuth(curr_rich_line, _size(curr_rich_line) - 2),
                                         _get_azimuth(next_rich_line, 0));
diff --git a/src/library/include/geometry/network/route/route_data.hpp b/src/library/include/geometry/network/route/route_data.hpp
index 667cbff..a4ce6bf 100644
--- a/src/library/include/geometry/network/route/route_data.hpp
+++ b/src/library/include/geometry/network/route/route_data.hpp
@@ -243,7 +243,7 @@ namespace map_matching_2::geometry::network {
                                 const auto _curr_size = route_type::_size(curr_rich_line);
                                 if (_curr_size >= 2 and
                                     route_type::_has_azimuth(curr_rich_line, _curr_size - 2) and
-                                    route_type::_has_azimuth(next_rich_line, 0)) {
+                                    route_type::_size(next_rich_line) >= 2 and route_type::_has_azimuth(next_rich_line, 0)) {
                                     const auto direction = geometry::direction_deg(
                                             route_type::_get_azimuth(curr_rich_line, _curr_size - 2),
                                             route_type::_get_azimuth(next_rich_line, 0));
-- 
2.43.0


From b62b2f06f554e8c8bee443bba95adbbd6a64fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 19/51] fix: part of a route within a single line

---
 src/library/include/geometry/network/route/route.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 4c1f71d..46c14a2 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -527,6 +527,15 @@ namespace map_matching_2::geometry::network {
                 std::vector<_route_type> routes{};
                 routes.reserve(to - from + 2); // plus two for possible from_pos and to_pos sub_rich_lines
 
+                if (from + 1 == to and from_pos > 0) {
+                    // begin and end are within the same rich line
+                    routes.emplace_back(_route_type{
+                            _as<_rich_line_type>(_rich_lines[from]).
+                            sub_rich_line(from_pos, to_pos)
+                    });
+                    return merge<_rich_line_type, _route_type>(std::move(routes));
+                }
+
                 if (from_pos > 0) {
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
-- 
2.43.0


From a0684a2f3f6289c7420d455f1d2fbdbedbd1a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 20/51] fix: measures of routes after joining

---
 src/library/include/geometry/network/route/eager_route.hpp | 7 ++++++-
 src/library/include/geometry/network/route/lazy_route.hpp  | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..9b70eeb 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -161,7 +161,12 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            // joining changes the lines of both routes
+            a.route_data_base_type::_invalidate();
+            a.route_data_base_type::_compute(a);
+            b.route_data_base_type::_invalidate();
+            b.route_data_base_type::_compute(b);
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..a52f0af 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,10 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            // joining changes the lines of both routes
+            a.route_data_base_type::_invalidate();
+            b.route_data_base_type::_invalidate();
         }
 
     };
-- 
2.43.0


From 0563bab378781dba672c9c19d1a1662a9cc40b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 21/51] fix: measures of empty immediate routes

---
 .../include/geometry/network/route/eager_route.hpp        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 9b70eeb..02c9a89 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -50,10 +50,14 @@ namespace map_matching_2::geometry::network {
         using route_data_base_type = route_data<length_type, angle_type>;
         using route_base_type = route<rich_line_variant_type>;
 
-        constexpr eager_route() = default;
+        constexpr eager_route()
+            : eager_route{true} {}
 
         constexpr explicit eager_route(bool is_invalid)
-            : route_data_base_type{}, route_base_type{is_invalid} {}
+            : route_data_base_type{
+                    not_valid<length_type>, not_valid<angle_type>, not_valid<angle_type>, not_valid<angle_type>, true
+            },
+            route_base_type{is_invalid} {}
 
         template<is_rich_line RichLine>
         explicit eager_route(RichLine rich_line) requires
-- 
2.43.0


From ef28110182f69c809e71506be0cee76829a3ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 22/51] fix: parts of lines between places next to the line

---
 src/library/include/geometry/algorithm/substring.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index 7152ea9..2ae374a 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -187,7 +187,7 @@ namespace map_matching_2::geometry {
             }
 
             const auto rich_segment = rich_line.rich_referring_segment(from_nearest_segment);
-            const auto distance_from = geometry::distance(rich_segment.first(), from);
+            const auto distance_from = geometry::distance(rich_segment.first(), from_projection);
             if (rich_segment.has_length() and distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
                 from_nearest_segment++;
             }
@@ -220,7 +220,7 @@ namespace map_matching_2::geometry {
             }
 
             const auto rich_segment = rich_line.rich_referring_segment(to_nearest_segment);
-            const auto distance_to = geometry::distance(rich_segment.second(), to);
+            const auto distance_to = geometry::distance(rich_segment.second(), to_projection);
             if (rich_segment.has_length() and distance_to > rich_segment.length() and to_nearest_segment > 0) {
                 to_nearest_segment--;
             }
-- 
2.43.0


From 6aa29b531c3f8994a8844a0558c1c8669281f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 23/51] fix: parts of spherical lines between distances

---
 .../include/geometry/algorithm/substring.hpp      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index 2ae374a..a238eb1 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -59,17 +59,28 @@ namespace map_matching_2::geometry {
         std::size_t from_index = 0, to_index = line.size();
         // only recombine when substring is in same direction as original line
         if (rich_line.has_length() and from_distance < to_distance) {
+            const auto interpolate = [&line](const auto distance, point_type &point) {
+                if constexpr (std::same_as<typename boost::geometry::coordinate_system<point_type>::type,
+                    cs_spherical_equatorial>) {
+                    // distances are in meter, see geometry::distance
+                    boost::geometry::line_interpolate(line, distance, point,
+                            boost::geometry::strategies::line_interpolate::spherical<double>{6371.0 * 1000});
+                } else {
+                    boost::geometry::line_interpolate(line, distance, point);
+                }
+            };
+
             point_type from, to;
             if (use_from_point) {
                 from = from_point;
             } else {
-                boost::geometry::line_interpolate(line, from_distance, from);
+                interpolate(from_distance, from);
             }
 
             if (use_to_point) {
                 to = to_point;
             } else {
-                boost::geometry::line_interpolate(line, to_distance, to);
+                interpolate(to_distance, to);
             }
 
             length_type current_distance = default_float_type<length_type>::v0;
-- 
2.43.0


From c4d080cfca73f194244298c7b4d18785badaf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 24/51] fix: median merge with a tolerance of zero

---
 src/library/include/geometry/algorithm/median_merge.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/geometry/algorithm/median_merge.hpp b/src/library/include/geometry/algorithm/median_merge.hpp
index 26908f1..acb591c 100644
--- a/src/library/include/geometry/algorithm/median_merge.hpp
+++ b/src/library/include/geometry/algorithm/median_merge.hpp
@@ -61,6 +61,12 @@ namespace map_matching_2::geometry {
 
             double current_tolerance = tolerance_adjuster(point, tolerance);
 
+            if (current_tolerance <= 0.0) {
+                // there is no area in which points could be merged
+                ++it;
+                continue;
+            }
+
             const auto buffer = geometry::buffer_box(point, current_tolerance);
             std::pmr::list<index_key_type> results{&_buffer};
             points_index.query(boost::geometry::index::intersects(buffer), std::back_inserter(results));
-- 
2.43.0


From 92e0ecd82b52333f25539a51d6b96d610e9ebd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 25/51] fix: median of an even number of values

---
 src/library/include/geometry/algorithm/median.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/median.hpp b/src/library/include/geometry/algorithm/median.hpp
index d208ae0..bccbcab 100644
--- a/src/library/include/geometry/algorithm/median.hpp
+++ b/src/library/include/geometry/algorithm/median.hpp
@@ -35,7 +35,7 @@ namespace map_matching_2::geometry {
         if (container.size() % 2 == 1) {
             return container[middle];
         } else {
-            std::nth_element(container.begin(), container.begin() + middle - 1, container.end());
+            std::nth_element(container.begin(), container.begin() + middle - 1, container.begin() + middle);
             return (container[middle - 1] + container[middle]) / static_cast<Element>(2);
         }
     }
-- 
2.43.0


From 29b523566414bffede6ccb1ba566c1c57a699efd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 26/51] fix: length of spherical lines in metres

---
 src/library/include/geometry/algorithm/length.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/length.hpp b/src/library/include/geometry/algorithm/length.hpp
index 28c6b56..fb7fb57 100644
--- a/src/library/include/geometry/algorithm/length.hpp
+++ b/src/library/include/geometry/algorithm/length.hpp
@@ -28,7 +28,7 @@ namespace map_matching_2::geometry {
     length(const Geometry &geometry) {
         using coordinate_system_type = typename boost::geometry::coordinate_system<Geometry>::type;
         if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
-            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371));
+            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371.0 * 1000));
         } else {
             return boost::geometry::length(geometry);
         }
-- 
2.43.0


From 59b7365ec3c181a1340f02c1be9c3119cf22fecd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 27/51] fix: transformation following another one starts at its
 target

---
 src/library/src/geometry/srs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index 8a29082..fec7b32 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -130,10 +130,10 @@ namespace map_matching_2::geometry {
     srs_transform compute_next_srs_transform(const srs_transform &_srs_transform, const std::int32_t transform_srs_code,
             const SRS transform_srs_type) {
 
-        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and _srs_transform.srs_code != transform_srs_code and
-            _srs_transform.transform_srs_type != transform_srs_type) {
+        if (_srs_transform.transform_srs_type != SRS::CS_INVALID) {
+            // data is in the srs it was transformed to
             return srs_transform{
-                    srs{_srs_transform.srs_code, _srs_transform.transform_srs_type},
+                    srs{_srs_transform.transform_srs_code, _srs_transform.transform_srs_type},
                     transform_srs_code, transform_srs_type
             };
         }
-- 
2.43.0


From 0c6c6bd11b7f995825abaf50111b0666d51422c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 28/51] fix: points without defects stay marked as such

---
 src/library/include/matching/algorithm/detect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/detect.hpp b/src/library/include/matching/algorithm/detect.hpp
index 163a0c9..c81b10c 100644
--- a/src/library/include/matching/algorithm/detect.hpp
+++ b/src/library/include/matching/algorithm/detect.hpp
@@ -67,7 +67,7 @@ namespace map_matching_2::matching {
             }
 
             for (auto &defect_set : defects) {
-                if (not defect_set.empty()) {
+                if (defect_set.size() > 1) {
                     defect_set.erase(defect::none);
                 }
             }
-- 
2.43.0


From b0b5419e1469c63bb52f05e27b5e71cf238dd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 29/51] fix: filter duplicates in the track instead of the
 moved-from one

---
 src/library/include/environment/environments/hmm.hpp    | 6 +++---
 src/library/include/environment/environments/single.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index 0091824..ff3c782 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -78,8 +78,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
@@ -114,7 +114,7 @@ namespace map_matching_2::environment {
             _transitions.clear();
 
             // observations
-            _observations.reserve(track.rich_line.size());
+            _observations.reserve(_candidates.size());
             for (const auto &candidate : _candidates) {
                 double max_distance = 0.0;
                 for (const auto &candidate_edge : candidate.edges) {
diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 270eaaa..748aaaa 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -98,8 +98,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
-- 
2.43.0


From 64b2931055a37d45df53106ef119db4488e3a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 30/51] fix: out of range access with a state size of three

---
 src/library/include/environment/environments/single.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 748aaaa..4ea0767 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -418,7 +418,6 @@ namespace map_matching_2::environment {
 
                                 if (prev_action >= 0) {
                                     const auto &prev_candidate = _candidates[prev_position];
-                                    const auto &prev_edge = current_candidate.edges[prev_action];
 
                                     const auto prev_route = _algorithms.router.candidate_route(
                                             _candidates, prev_position, prev_action, current_position, current_action,
-- 
2.43.0


From c7e7af516f1c793e4eb89a81c735d156e8152378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 31/51] fix: repeated skips of candidates

---
 src/library/include/matching/algorithm/route.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index f776584..4ee986b 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -267,7 +267,11 @@ namespace map_matching_2::matching {
                 const auto to = to_policy_pair.first;
 
                 if (from == to) {
-                    // skip detected
+                    // skip detected, may be repeated
+                    while (j + 1 < policy.size() and policy[j + 1].first == to) {
+                        ++i;
+                        ++j;
+                    }
                     ++i;
                     ++j;
                     skipped = true;
-- 
2.43.0


From 5254f2662117516077c4efa7709866b8a2d455b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 32/51] fix: points of edges crossed by other edges are found

---
 .../include/geometry/network/network.hpp      | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 4a12c70..d275a19 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -172,14 +172,18 @@ namespace map_matching_2::geometry::network {
 
         [[nodiscard]] std::pair<bool, std::pair<std::size_t, std::size_t>>
         point_in_edges(const point_type &point) const {
-            const auto nearest_segments = query_segments(boost::geometry::index::nearest(point, 1));
-            if (not nearest_segments.empty()) {
-                const auto &nearest_segment_pair = nearest_segments.front();
-                const auto &nearest_segment = nearest_segment_pair.first;
-                bool found = geometry::equals_points(nearest_segment.first, point) or
-                        geometry::equals_points(nearest_segment.second, point);
-                const auto edge_pair = nearest_segment_pair.second;
-                return std::pair{found, edge_pair};
+            const auto &index = segments_index();
+            // all segments at the point are candidates, as other segments may cross the point without ending there
+            for (auto it = index.qbegin(boost::geometry::index::nearest(point, index.size())); it != index.qend(); ++it) {
+                const auto &nearest_segment = it->first;
+                if (geometry::equals_points(nearest_segment.first, point) or
+                    geometry::equals_points(nearest_segment.second, point)) {
+                    const auto edge_pair = it->second;
+                    return std::pair{true, edge_pair};
+                }
+                if (boost::geometry::distance(point, nearest_segment) > 1e-6) {
+                    break;
+                }
             }
             return std::pair{false, std::pair<std::size_t, std::size_t>{}};
         }
-- 
2.43.0


From 800b9da5d2156451a49a108f4c297717b3a9b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 33/51] fix: routes of different edges are not joined

---
 src/library/include/matching/algorithm/route.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 4ee986b..3a83413 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -305,6 +305,10 @@ namespace map_matching_2::matching {
                 if (not route.is_invalid() and route.has_length()) {
                     skipped = false;
                     routes.emplace_back(std::move(route));
+                } else if (route.is_invalid() or
+                    candidates[from].edges[source].edge_desc != candidates[to].edges[target].edge_desc) {
+                    // next route does not continue on the same edge from the previous one, so cannot be joined
+                    skipped = true;
                 }
             }
 
-- 
2.43.0


From b1ebf752ca69102da2606df2e85940bea023f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 34/51] fix: gaps between segments are not simplified away

---
 .../include/geometry/algorithm/simplify.hpp   | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/library/include/geometry/algorithm/simplify.hpp b/src/library/include/geometry/algorithm/simplify.hpp
index eb20cae..c6f1cf4 100644
--- a/src/library/include/geometry/algorithm/simplify.hpp
+++ b/src/library/include/geometry/algorithm/simplify.hpp
@@ -21,6 +21,8 @@
 
 #include "geometry/common.hpp"
 
+#include "geometry/algorithm/equals.hpp"
+
 #include "geometry/rich_type/concepts.hpp"
 #include "geometry/rich_type/traits/rich_segment.hpp"
 #include "geometry/rich_type/traits/rich_line.hpp"
@@ -183,20 +185,21 @@ namespace map_matching_2::geometry {
                     auto next_it = std::next(it);
                     const auto &_segment = *it;
                     const auto &_next_segment = *next_it;
-                    if (_segment.has_azimuth() and _next_segment.has_azimuth()) {
+                    // a gap between segments is retained like a reversal
+                    bool retain = not geometry::equals_points(_segment.second(), _next_segment.first());
+                    if (not retain and _segment.has_azimuth() and _next_segment.has_azimuth()) {
                         const auto direction =
                                 std::fabs(geometry::direction_deg(_segment.azimuth(), _next_segment.azimuth()));
-                        if (direction > (180.0 - reverse_tolerance)) {
-                            // reverse movement detected
-                            const auto position = std::distance(segments.begin(), next_it);
-                            const auto size = segments.size();
-                            _simplify_rich_segments<rich_segment_type>(segments, index, next_it, tolerance);
-                            const auto diff = size - segments.size();
-                            it = std::next(segments.begin(), position - diff);
-                            index = it;
-                        } else {
-                            ++it;
-                        }
+                        // reverse movement detected
+                        retain = direction > (180.0 - reverse_tolerance);
+                    }
+                    if (retain) {
+                        const auto position = std::distance(segments.begin(), next_it);
+                        const auto size = segments.size();
+                        _simplify_rich_segments<rich_segment_type>(segments, index, next_it, tolerance);
+                        const auto diff = size - segments.size();
+                        it = std::next(segments.begin(), position - diff);
+                        index = it;
                     } else {
                         ++it;
                     }
-- 
2.43.0


From db9353d9d7f3d68e3854a5ec701a2d218042c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 35/51] fix: stretches driven repeatedly are counted every time

---
 src/library/include/geometry/algorithm/compare.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 3f806ac..fbc1132 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -435,23 +435,13 @@ namespace map_matching_2::geometry {
             // remaining duplicate lines are missed lines because already matched duplicate lines were removed above
             for (auto reverse_a_it = reverse_a_segments.begin();
                  reverse_a_it != reverse_a_segments.end(); ++reverse_a_it) {
-                if (std::find_if(error_misses.begin(), error_misses.end(), [&](const auto &error_miss) {
-                    return geometry::equals_points((*reverse_a_it).segment().first, error_miss.segment().first) and
-                            geometry::equals_points((*reverse_a_it).segment().second, error_miss.segment().second);
-                }) == error_misses.end()) {
-                    error_misses.emplace_back(*reverse_a_it);
-                }
+                error_misses.emplace_back(*reverse_a_it);
             }
 
             // remaining reverse lines were added erroneously
             for (reverse_b_it = reverse_b_segments.begin();
                  reverse_b_it != reverse_b_segments.end(); ++reverse_b_it) {
-                if (std::find_if(error_adds.begin(), error_adds.end(), [&](const auto &error_add) {
-                    return geometry::equals_points((*reverse_b_it).segment().first, error_add.segment().first) and
-                            geometry::equals_points((*reverse_b_it).segment().second, error_add.segment().second);
-                }) == error_adds.end()) {
-                    error_adds.emplace_back(*reverse_b_it);
-                }
+                error_adds.emplace_back(*reverse_b_it);
             }
 
             // missed lines that we added were correctly found, can happen due to early merging within loops
-- 
2.43.0


From 7b075b6f5a8020e8d2c99d188a3208ebaa4644b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 36/51] fix: adapting points keeps gaps between segments

---
 .../include/geometry/algorithm/compare.hpp       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index fbc1132..45dff28 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -621,22 +621,22 @@ namespace map_matching_2::geometry {
                 }
 
                 if (nearest_point != nullptr) {
+                    // only a connected next segment follows, there may be gaps between segments
+                    const auto next_it = std::next(segment_it);
+                    const bool connected = not first and next_it != segments.end() and
+                            geometry::equals_points(point, next_it->segment().first);
                     *segment_it = first
                                   ? rich_segment_type{segment_type{*nearest_point, segment.second}}
                                   : rich_segment_type{segment_type{segment.first, *nearest_point}};
-                    if (not(segment_it == segments.begin() and
-                            geometry::equals_points(point, segment_it->segment().first)) and
-                        std::next(segment_it) != segments.end()) {
-                        auto &next_segment = *std::next(segment_it);
-                        if (not geometry::equals_points(next_segment.segment().first, point)) {
-                            next_segment = rich_segment_type{segment_type{point, next_segment.segment().second}};
-                        }
+                    if (connected) {
+                        *next_it = rich_segment_type{segment_type{*nearest_point, next_it->segment().second}};
                     }
                 }
             };
 
             for (auto segment_it = segments.begin(); segment_it != segments.end(); ++segment_it) {
-                if (segment_it == segments.begin()) {
+                if (segment_it == segments.begin() or
+                    not geometry::equals_points(std::prev(segment_it)->segment().second, segment_it->segment().first)) {
                     adapt_point(segment_it, true);
                 }
                 adapt_point(segment_it, false);
-- 
2.43.0


From 782a2da6d2a65e66ca777d8b8eddd8cfa539e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 37/51] fix: last queued tasks are not lost when the queue is
 closed

---
 src/library/include/util/coordinator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 9301250..e50cb70 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -76,9 +76,13 @@ namespace map_matching_2::util {
         virtual void execute(task_type &&task) = 0;
 
         void _start() {
-            while (not _queue.empty() or not _queue.closed()) {
+            while (true) {
                 task_type task;
+                // waits for the next task, returns closed only when no tasks are left in the closed queue
                 auto queue_op = _queue.wait_pull_front(task);
+                if (queue_op == boost::queue_op_status::closed) {
+                    break;
+                }
                 if (queue_op == boost::queue_op_status::success) {
                     _semaphore.acquire();
                     boost::async(_thread_pool, [this, task = std::move(task)]() mutable {
-- 
2.43.0


From 051e4b2a460312f28c3768a0d3a3693be591f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 38/51] fix: measurements with equal times stay in order

---
 src/library/include/io/track/csv_track_importer.hpp | 2 +-
 src/library/include/io/track/gpx_track_importer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/track/csv_track_importer.hpp b/src/library/include/io/track/csv_track_importer.hpp
index 04982d1..601bfed 100644
--- a/src/library/include/io/track/csv_track_importer.hpp
+++ b/src/library/include/io/track/csv_track_importer.hpp
@@ -226,7 +226,7 @@ namespace map_matching_2::io::track {
                     if (_selectors.empty() or _selectors.contains(id)) {
                         auto &measurements = std::any_cast<std::vector<measurement_type_out> &>(
                                 measurement_pair.second);
-                        std::sort(std::begin(measurements), std::end(measurements));
+                        std::stable_sort(std::begin(measurements), std::end(measurements));
                         _forwarder.pass(multi_track_type{
                                 id, geometry::measurements2line<measurement_type_out, line_type_out>(
                                         std::move(measurements))
diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index 27feef4..c82ae8e 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -175,7 +175,7 @@ namespace map_matching_2::io::track {
                 }
             }
 
-            std::sort(std::begin(measurements), std::end(measurements));
+            std::stable_sort(std::begin(measurements), std::end(measurements));
 
             return geometry::measurements2line<measurement_type_out, line_type_out>(measurements);
         };
-- 
2.43.0


From 2f80c761fb6f3f342d328d935bdce4142d4871ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 39/51] fix: measures of multi lines with empty parts

---
 .../geometry/rich_type/multi_rich_line.hpp    | 22 +++++++++----------
 .../rich_type/multi_rich_line_data.hpp        |  8 +++----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/library/include/geometry/rich_type/multi_rich_line.hpp b/src/library/include/geometry/rich_type/multi_rich_line.hpp
index 7b9dc5e..267adbe 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line.hpp
@@ -165,7 +165,7 @@ namespace map_matching_2::geometry {
                 if (size() == 1) {
                     const auto &rich_line = front();
                     return rich_line.has_azimuth();
-                } else {
+                } else if (not front().empty() and not back().empty()) {
                     const auto &start = front().front();
                     const auto &end = back().back();
                     return not geometry::equals_points(start, end);
@@ -182,7 +182,7 @@ namespace map_matching_2::geometry {
                     if (rich_line.has_azimuth()) {
                         return rich_line.azimuth();
                     }
-                } else {
+                } else if (not front().empty() and not back().empty()) {
                     const auto &start = front().front();
                     const auto &end = back().back();
                     if (not geometry::equals_points(start, end)) {
@@ -207,9 +207,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 return true;
                             }
                         }
@@ -239,9 +239,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 angle_type direction = geometry::direction_deg(
                                         rich_line.azimuth(rich_line.size() - 2), next.azimuth(0));
                                 directions += direction;
@@ -278,9 +278,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 angle_type direction = geometry::direction_deg(
                                         rich_line.azimuth(rich_line.size() - 2), next.azimuth(0));
                                 directions += std::fabs(direction);
diff --git a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
index 8a48590..f1b28fd 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
@@ -176,7 +176,7 @@ namespace map_matching_2::geometry {
                         if (rich_line.has_azimuth()) {
                             this->_azimuth = rich_line.azimuth();
                         }
-                    } else {
+                    } else if (not multi_rich_line.front().empty() and not multi_rich_line.back().empty()) {
                         const auto &start = multi_rich_line.front().front();
                         const auto &end = multi_rich_line.back().back();
                         if (not geometry::equals_points(start, end)) {
@@ -196,9 +196,9 @@ namespace map_matching_2::geometry {
                         const auto &start = multi_rich_line[i];
                         const auto &end = multi_rich_line[i + 1];
 
-                        if (geometry::equals_points(start.back(), end.front()) and
-                            start.size() >= 2 and start.has_azimuth(start.size() - 2) and
-                            end.size() >= 2 and end.has_azimuth(0)) {
+                        if (start.size() >= 2 and end.size() >= 2 and
+                            geometry::equals_points(start.back(), end.front()) and
+                            start.has_azimuth(start.size() - 2) and end.has_azimuth(0)) {
                             // used for directions between lines here
                             this->_azimuths.emplace_back(geometry::direction_deg(
                                     start.azimuth(start.size() - 2), end.azimuth(0)));
-- 
2.43.0


From f2539c3da65c4c82caba6ace58df04ced3b250b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 40/51] fix: roads missing in the network are skipped

---
 src/library/include/io/track/edges_list_importer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index bc4619f..b6e57a9 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -150,8 +150,8 @@ namespace map_matching_2::io::track {
                             }
                             prev_edge_id = edge_id;
 
-                            const auto &edge_descriptors = _edge_map.at(edge_id);
-                            if (edge_descriptors.empty()) {
+                            const auto edge_it = _edge_map.find(edge_id);
+                            if (edge_it == _edge_map.end()) {
                                 std::cerr << std::format(
                                         "file '{}' contains edge with id {} but no such edge exists in the network, skipping ...",
                                         filenames[i], edge_id) << std::endl;
@@ -159,7 +159,7 @@ namespace map_matching_2::io::track {
                                 break;
                             }
 
-                            edge_descriptor_list.emplace_back(edge_descriptors);
+                            edge_descriptor_list.emplace_back(edge_it->second);
                         }
                     }
 
-- 
2.43.0


From bbb7c71c201820108b503bf4719f984c75e70a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 41/51] fix: points are reprojected whatever their type

---
 src/library/include/geometry/algorithm/reproject.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index a45608a..f02478e 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -18,6 +18,8 @@
 
 #include "types/geometry/reprojector.hpp"
 
+#include "geometry/algorithm/convert.hpp"
+
 namespace map_matching_2::geometry {
 
     [[nodiscard]] point_reprojector_variant create_point_reprojector(const srs_transform &srs_transform);
@@ -34,15 +36,15 @@ namespace map_matching_2::geometry {
                 if constexpr (std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>) {
                     out_point = reprojector(in_point);
                 } else {
-                    static_assert(not(std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>),
-                            "reprojector not called because types mismatch.");
+                    // the point is given in the reference system of the reprojector, only its type differs
+                    out_point = convert_point<out_point_type, OutPoint>(
+                            reprojector(convert_point<InPoint, in_point_type>(in_point)));
                 }
             } else {
                 if constexpr (std::same_as<InPoint, OutPoint>) {
                     out_point = in_point;
                 } else {
-                    static_assert(not std::same_as<InPoint, OutPoint>,
-                            "no transform reprojector and types mismatch.");
+                    out_point = convert_point<InPoint, OutPoint>(in_point);
                 }
             }
         }, reprojector_variant);
-- 
2.43.0


From 020fe344c85c74780eb35163ec2a03fa56460b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 42/51] fix: geometry of roads is reprojected like their nodes

---
 src/library/include/io/network/giscup_importer.hpp  | 11 +++++++----
 src/library/include/io/network/seattle_importer.hpp |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index 3788ab5..7b8fad1 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -115,10 +115,10 @@ namespace map_matching_2::io::network {
                     // const std::string name = parts.at(1);
                     // const std::string type = parts.at(2);
 
-                    line_type geometry;
-                    geometry.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
+                    line_type input_line;
+                    input_line.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
                     for (std::size_t j = 4; j + 1 < parts.size(); j += 2) {
-                        geometry.emplace_back(point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))});
+                        input_line.emplace_back(point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))});
                     }
 
                     auto [from_node_id, to_node_id] = _edge_map.at(edge_id);
@@ -130,9 +130,12 @@ namespace map_matching_2::io::network {
                     const auto &to_node = _graph_helper.graph().get_vertex_data(
                             _graph_helper.get_vertex_descriptor_for_index(to_vertex));
 
+                    line_type edge_line;
+                    geometry::reproject_line(input_line, edge_line, _reprojector_variant);
+
                     _graph_helper.add_edge(
                             from_vertex, to_vertex, edge_data_type{
-                                    edge_id, rich_line_type{std::move(geometry)}
+                                    edge_id, rich_line_type{std::move(edge_line)}
                             });
                 }
             }
diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index cc3c163..e09debf 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -80,12 +80,15 @@ namespace map_matching_2::io::network {
 
                     boost::trim(wkt_line);
 
+                    line_type input_line;
+                    boost::geometry::read_wkt(wkt_line, input_line);
+
                     line_type edge_line;
-                    boost::geometry::read_wkt(wkt_line, edge_line);
+                    geometry::reproject_line(input_line, edge_line, _reprojector_variant);
 
                     vertex_size_type from_vertex;
                     if (not _vertex_map.contains(from_node_id)) {
-                        const point_type &from_point = edge_line.front();
+                        const point_type &from_point = input_line.front();
                         from_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
                                         from_node_id, from_point, _reprojector_variant
@@ -97,7 +100,7 @@ namespace map_matching_2::io::network {
 
                     vertex_size_type to_vertex;
                     if (not _vertex_map.contains(to_node_id)) {
-                        const point_type &to_point = edge_line.back();
+                        const point_type &to_point = input_line.back();
                         to_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
                                         to_node_id, to_point, _reprojector_variant
-- 
2.43.0


From e425b46093a8cb5f1f0ea933ce8a3c332f7c4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 43/51] fix: ways without nodes are skipped

---
 src/library/include/io/network/osm_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index a351c97..c9dd42a 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::io::network {
                     }
                 }
 
-                for (std::size_t i = 0; i < osm_nodes.size() - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < osm_nodes.size(); ++i) {
                     try {
                         const auto index_from = static_cast<std::uint64_t>(osm_nodes[i].ref());
                         const auto index_to = static_cast<std::uint64_t>(osm_nodes[i + 1].ref());
-- 
2.43.0


From 5981959b16328fba7ca32abf66ccda07fb55e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 44/51] fix: reversed oneways are oneways

---
 src/library/include/io/network/osm_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index c9dd42a..c4000f6 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -120,6 +120,7 @@ namespace map_matching_2::io::network {
                     oneway = true;
                 }
                 if (_oneway_reverse(tag)) {
+                    oneway = true;
                     reverse = true;
                 }
             }
-- 
2.43.0


From 293e71b17ac3c780181b778b26574c2b864536d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 45/51] fix: nodes without roads are exported under their own
 id

---
 .../include/io/network/osm_exporter.hpp       | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index e301e60..c41b0da 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -52,24 +52,33 @@ namespace map_matching_2::io::network {
 
             // index all points
             std::uint64_t index = 0;
+            const auto index_point = [&](const auto &point) {
+                point_type _point;
+                geometry::reproject_point(point, _point, _reprojector_variant);
+                const auto x = boost::geometry::get<0>(_point);
+                const auto y = boost::geometry::get<1>(_point);
+                point_map_key_type point_map_key{x, y};
+                if (not _point_map.contains(point_map_key)) {
+                    _point_map.emplace(point_map_key, index++);
+                }
+            };
             const auto edges_v = _graph.edges_view();
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
                 for (const auto &point : edge.rich_line.line()) {
-                    point_type _point;
-                    geometry::reproject_point(point, _point, _reprojector_variant);
-                    const auto x = boost::geometry::get<0>(_point);
-                    const auto y = boost::geometry::get<1>(_point);
-                    point_map_key_type point_map_key{x, y};
-                    if (not _point_map.contains(point_map_key)) {
-                        _point_map.emplace(point_map_key, index++);
-                    }
+                    index_point(point);
                 }
             }
 
+            // nodes without edges
+            const auto vertices_v = _graph.vertices_view();
+            for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
+                const vertex_data_type &vertex = vertices_v[it].get();
+                index_point(vertex.point);
+            }
+
             // add nodes
             point_set_type points_added;
-            const auto vertices_v = _graph.vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
                 const vertex_data_type &vertex = vertices_v[it].get();
                 add_node(buffer, vertex, points_added);
-- 
2.43.0


From b9e687d98839d0e6d0e965d48ae2f533b4aed99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 46/51] fix: opposite roads are exported with both directions
 and their own attributes

---
 .../include/io/network/osm_exporter.hpp       | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index c41b0da..1204fbe1 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -16,6 +16,7 @@
 #ifndef MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 #define MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 
+#include <algorithm>
 #include <utility>
 
 #include <boost/unordered/unordered_flat_set.hpp>
@@ -99,14 +100,18 @@ namespace map_matching_2::io::network {
                 const edge_data_type &edge = edges_v[it].get();
                 bool is_oneway = true;
                 if (not edges_reversed.contains(_graph.edge_index(it))) {
-                    const auto target = _graph.target(it);
-                    const auto out_edges_v = _graph.out_edges_view(target);
-                    for (auto out_it = out_edges_v.begin();
-                         out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
-                        const edge_data_type &out_edge = out_edges_v[out_it].get();
-                        if (geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
-                            edges_reversed.emplace(_graph.edge_index(out_it));
-                            is_oneway = false;
+                    // opposite roads share a way when their tags are the same and do not make it a oneway
+                    if (not has_oneway_tag(edge)) {
+                        const auto target = _graph.target(it);
+                        const auto out_edges_v = _graph.out_edges_view(target);
+                        for (auto out_it = out_edges_v.begin();
+                             out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
+                            const edge_data_type &out_edge = out_edges_v[out_it].get();
+                            if (have_same_tags(edge, out_edge) and
+                                geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
+                                edges_reversed.emplace(_graph.edge_index(out_it));
+                                is_oneway = false;
+                            }
                         }
                     }
                     add_way(buffer, edge, is_oneway, index++);
@@ -136,6 +141,29 @@ namespace map_matching_2::io::network {
         point_map_type _point_map{};
         geometry::point_reprojector_variant _reprojector_variant;
 
+        [[nodiscard]] bool has_oneway_tag(const edge_data_type &edge) const {
+            for (const auto &tag : _tag_helper.edge_tags(edge.id)) {
+                const auto pair = _tag_helper.tag(tag);
+                if ((pair.first == "oneway" and
+                     (pair.second == "yes" or pair.second == "true" or pair.second == "1")) or
+                    (pair.first == "junction" and pair.second == "roundabout") or
+                    (pair.first == "highway" and pair.second == "motorway")) {
+                    return true;
+                }
+            }
+            return false;
+        }
+
+        [[nodiscard]] bool have_same_tags(const edge_data_type &left, const edge_data_type &right) const {
+            if (left.id == right.id) {
+                return true;
+            }
+            const auto &left_tags = _tag_helper.edge_tags(left.id);
+            const auto &right_tags = _tag_helper.edge_tags(right.id);
+            return left_tags.size() == right_tags.size() and
+                    std::is_permutation(std::cbegin(left_tags), std::cend(left_tags), std::cbegin(right_tags));
+        }
+
         void add_node(osmium::memory::Buffer &buffer, const vertex_data_type &node, point_set_type &points_added) {
             osmium::builder::NodeBuilder node_builder{buffer};
 
-- 
2.43.0


From 8c9eaedc1894b9be7f808a260bffa3d473b21131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:10 +0000
Subject: [PATCH 47/51] fix: roads are compared without copying their lines

---
 src/library/include/geometry/network/edge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/edge.hpp b/src/library/include/geometry/network/edge.hpp
index 8f07e8b..0837b25 100644
--- a/src/library/include/geometry/network/edge.hpp
+++ b/src/library/include/geometry/network/edge.hpp
@@ -143,7 +143,7 @@ namespace map_matching_2::geometry::network {
 
         friend constexpr bool operator==(const edge &left, const edge &right) {
             return left.id == right.id and
-                    static_cast<rich_line_type>(left.rich_line) == static_cast<rich_line_type>(right.rich_line);
+                    left.rich_line == right.rich_line;
         }
 
         friend constexpr bool operator!=(const edge &left, const edge &right) {
-- 
2.43.0


From 5a28fd7f0f835df921ebbc3cc7e3ead8993a4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:10 +0000
Subject: [PATCH 48/51] fix: files grow by at least one block

---
 .../io/memory_mapped/storage/base_storage.hpp    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/base_storage.hpp b/src/library/include/io/memory_mapped/storage/base_storage.hpp
index f9abfec..549ecbd 100644
--- a/src/library/include/io/memory_mapped/storage/base_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/base_storage.hpp
@@ -16,6 +16,7 @@
 #ifndef MAP_MATCHING_2_IO_MEMORY_MAPPED_STORAGE_BASE_STORAGE_HPP
 #define MAP_MATCHING_2_IO_MEMORY_MAPPED_STORAGE_BASE_STORAGE_HPP
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 #include <filesystem>
@@ -285,6 +286,13 @@ namespace map_matching_2::io::memory_mapped::storage {
     protected:
         mmap_type *_storage{nullptr};
 
+        // smaller growths cannot hold a block of the memory algorithm of the segment manager
+        static constexpr std::size_t _min_growth{4096};
+
+        [[nodiscard]] static constexpr std::size_t _growth(const std::size_t offset, const std::size_t size) {
+            return std::max(size - offset, _min_growth);
+        }
+
 #if defined(MM2_WINDOWS)
         template<typename CreationTag>
         static void _make_sparse_file(CreationTag creation_tag, const std::string &filename, const std::size_t init) {
@@ -297,10 +305,10 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         static void _grow_file(const std::string &filename, const std::size_t offset, const std::size_t size) {
             if (size > offset) {
-                grow_file(filename, size);
+                grow_file(filename, offset + _growth(offset, size));
                 mmap_type storage{boost::interprocess::open_only, filename.c_str()};
                 process_info(boost::interprocess::open_only, storage, filename);
-                storage.get_segment_manager()->grow(size - offset);
+                storage.get_segment_manager()->grow(_growth(offset, size));
             }
         }
 #endif
@@ -378,7 +386,7 @@ namespace map_matching_2::io::memory_mapped::storage {
             const std::size_t offset = this->size();
             if (size > offset) {
                 this->close();
-                mmap_type::grow(_name.c_str(), size - offset);
+                mmap_type::grow(_name.c_str(), base_type::_growth(offset, size));
                 open();
             }
         }
@@ -480,7 +488,7 @@ namespace map_matching_2::io::memory_mapped::storage {
 #if defined(MM2_WINDOWS)
                 base_type::_grow_file(path_str, offset, size);
 #else
-                mmap_type::grow(path_str.c_str(), size - offset);
+                mmap_type::grow(path_str.c_str(), base_type::_growth(offset, size));
 #endif
                 open();
             }
-- 
2.43.0


From 486dc95985b97acea37622384008da70109b602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:10 +0000
Subject: [PATCH 49/51] fix: roads keep their lines when the file has to grow
 while nodes are removed

---
 src/app/include/app/prepare.hpp               |  3 +-
 .../geometry/network/network_import.hpp       | 71 +++++++++++--------
 .../include/io/helper/graph_helper.hpp        | 24 ++++++-
 3 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/src/app/include/app/prepare.hpp b/src/app/include/app/prepare.hpp
index 6c320f2..66899df 100644
--- a/src/app/include/app/prepare.hpp
+++ b/src/app/include/app/prepare.hpp
@@ -128,7 +128,8 @@ namespace map_matching_2::app {
     void _remove_duplicate_nodes(std::unique_ptr<NetworkImport> &network_import, const prepare_data &data) {
         if (data.process.remove_duplicate_nodes) {
             verbose_frame("Remove duplicate nodes", [&]() {
-                network_import->remove_duplicate_nodes(
+                network_import->graph_helper().remove_duplicate_nodes(
+                        *network_import,
                         data.process.simplify != SIMPLIFY_NONE,
                         data.process.simplify == SIMPLIFY_ALL);
             });
diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 9783823..eff1bcf 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -66,6 +66,13 @@ namespace map_matching_2::geometry::network {
         constexpr ~network_import() = default;
 
         void simplify(const bool simplify_network_complete = true) {
+            simplify(simplify_network_complete, [](const vertex_descriptor &) {
+                return true;
+            });
+        }
+
+        template<typename IsSelected>
+        void simplify(const bool simplify_network_complete, const IsSelected &is_selected) {
             bool was_running = _simplify_running;
             _simplify_running = true;
 
@@ -91,7 +98,7 @@ namespace map_matching_2::geometry::network {
                     }
                 }
 
-                if (_is_mergeable(vertex_desc, adjacent_edges)) {
+                if (is_selected(vertex_desc) and _is_mergeable(vertex_desc, adjacent_edges)) {
                     _populate_merges(vertex_desc, merge_edges, simplify_network_complete);
 
                     if (not merge_edges.empty()) {
@@ -184,10 +191,6 @@ namespace map_matching_2::geometry::network {
             using in_edge_descriptor = typename graph_type::in_edge_descriptor;
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
-            boost::unordered_flat_set<point_type> simplify_points;
-
-            std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
-            std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
 
             graph_type &graph = this->graph();
             auto vertices_v = graph.vertices_view();
@@ -217,7 +220,8 @@ namespace map_matching_2::geometry::network {
                         edge_data_type &edge = edges_v[in_edge].get();
                         const vertex_descriptor source_vertex = graph.source(in_edge);
 
-                        graph.add_edge(source_vertex, existing_vertex_desc, std::move(edge));
+                        const edge_descriptor new_edge = _add_empty_edge(source_vertex, existing_vertex_desc, edge.id);
+                        graph.get_edge_data(new_edge) = std::move(edge);
                         graph.remove_edge(in_edge);
                     }
 
@@ -233,7 +237,8 @@ namespace map_matching_2::geometry::network {
                         edge_data_type &edge = edges_v[out_edge].get();
                         const vertex_descriptor target_vertex = graph.target(out_edge);
 
-                        graph.add_edge(existing_vertex_desc, target_vertex, std::move(edge));
+                        const edge_descriptor new_edge = _add_empty_edge(existing_vertex_desc, target_vertex, edge.id);
+                        graph.get_edge_data(new_edge) = std::move(edge);
                         graph.remove_edge(out_edge);
                     }
 
@@ -242,31 +247,19 @@ namespace map_matching_2::geometry::network {
 
                     if (simplify) {
                         // check later if node can be omitted, further duplicates still need to find it until then
-                        simplify_points.emplace(it->first);
+                        _simplify_points.emplace(it->first);
                     }
                 } else {
                     node_map.emplace(point, vertex_desc);
                 }
             }
 
-            vertex_desc = vertices_v.begin();
-            for (vertex_val = vertex_desc; vertex_desc != vertices_v.end(); vertex_desc = vertex_val) {
-                vertex_val = vertices_v.next(vertex_val);
-
-                if (simplify_points.contains(vertices_v[vertex_desc].get().point) and
-                    _is_mergeable(vertex_desc, adjacent_edges)) {
-                    // node can be omitted
-                    _populate_merges(vertex_desc, merge_edges, simplify_network_complete);
-
-                    for (const auto &merge_edge : merge_edges) {
-                        _merge(merge_edge.first, merge_edge.second);
-                    }
-
-                    merge_edges.clear();
-                }
-            }
+            // nodes can be omitted
+            this->simplify(simplify_network_complete, [&](const vertex_descriptor &vertex) {
+                return _simplify_points.contains(vertices_v[vertex].get().point);
+            });
 
-            graph.reindex();
+            _simplify_points.clear();
         }
 
         void remove_duplicate_edges() {
@@ -300,6 +293,20 @@ namespace map_matching_2::geometry::network {
     private:
         bool _simplify_running{false}, _simplify_vertex_set{false};
         vertex_size_type _simplify_vertex{};
+        // points of duplicate nodes, kept for when an error needs a restart
+        boost::unordered_flat_set<point_type> _simplify_points{};
+
+        [[nodiscard]] edge_descriptor _add_empty_edge(const vertex_descriptor &source_vertex,
+                const vertex_descriptor &target_vertex, const std::uint64_t id) {
+            if constexpr (io::helper::is_mmap_graph_helper<graph_helper_type>) {
+                return this->graph().add_edge(source_vertex, target_vertex,
+                        edge_data_type{id, rich_line_type{
+                                typename rich_line_type::memory_line_type{}, this->graph_helper().allocator()
+                        }});
+            } else {
+                return this->graph().add_edge(source_vertex, target_vertex, edge_data_type{id, rich_line_type{}});
+            }
+        }
 
         void _merge(const edge_descriptor &in_edge, const edge_descriptor &out_edge) {
             graph_type &graph = this->graph();
@@ -313,15 +320,21 @@ namespace map_matching_2::geometry::network {
 
             // merge the edges
             this->tag_helper().merge_edge_tags(source_edge.id, target_edge.id);
-            edge_data_type new_edge = edge_data_type::merge(std::move(source_edge), std::move(target_edge));
+
+            // add new edge in place of the original edges, when memory is exhausted the original edges need to remain
+            const edge_descriptor new_edge = _add_empty_edge(source_vertex_in, target_vertex_out, source_edge.id);
+            try {
+                graph.get_edge_data(new_edge) =
+                        edge_data_type::merge(std::move(source_edge), std::move(target_edge));
+            } catch (...) {
+                graph.remove_edge(new_edge);
+                throw;
+            }
 
             // remove the original edges
             graph.remove_edge(in_edge);
             graph.remove_edge(out_edge);
 
-            // add newly merged edge in place of the original edges
-            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
-
             if (graph.degree(target_vertex_in) == 0) {
                 // only remove vertex if all edges were previously removed
                 graph.remove_vertex(target_vertex_in);
diff --git a/src/library/include/io/helper/graph_helper.hpp b/src/library/include/io/helper/graph_helper.hpp
index b1fb14e..1cd9cd6 100644
--- a/src/library/include/io/helper/graph_helper.hpp
+++ b/src/library/include/io/helper/graph_helper.hpp
@@ -174,7 +174,7 @@ namespace map_matching_2::io::helper {
                             network.simplify(simplify_network_complete);
                         }, [&](auto &ex) {
                             handle_bad_alloc(ex);
-                        });
+                        }, graph_storage().max_retries());
             } else if constexpr (is_memory_graph_helper<graph_helper>) {
                 network.simplify(simplify_network_complete);
             } else {
@@ -183,6 +183,28 @@ namespace map_matching_2::io::helper {
             }
         }
 
+        template<typename Network>
+        void remove_duplicate_nodes(Network &network, bool simplify = true, bool simplify_network_complete = true) requires
+            (graph::is_adjacency_list<graph_type> and std::same_as<graph_helper, typename Network::graph_helper_type>) {
+            if (this != &network.graph_helper()) {
+                throw std::runtime_error(
+                        "remove_duplicate_nodes needs the network that contains the graph_helper it is called on");
+            }
+
+            if constexpr (is_mmap_graph_helper<graph_helper>) {
+                io::memory_mapped::retry_alloc([&]() {
+                            network.remove_duplicate_nodes(simplify, simplify_network_complete);
+                        }, [&](auto &ex) {
+                            handle_bad_alloc(ex);
+                        }, graph_storage().max_retries());
+            } else if constexpr (is_memory_graph_helper<graph_helper>) {
+                network.remove_duplicate_nodes(simplify, simplify_network_complete);
+            } else {
+                static_assert(util::dependent_false_v<graph_helper>, "graph_helper type unknown");
+                throw std::runtime_error{"graph_helper type unknown"};
+            }
+        }
+
         template<typename VertexData = vertex_data_type,
             typename TagHelperT = tag_helper_type>
         vertex_descriptor add_vertex(const VertexData &vertex_data, const TagHelperT &other) requires
-- 
2.43.0


From aaeab7ee8d83c65a2256e8b2a7d0ddb8cc0f818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 50/51] fix: the track file type can be set manually when
 comparing

---
 src/app/src/app/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/src/app/options.cpp b/src/app/src/app/options.cpp
index f3b4641..ff8dbea 100644
--- a/src/app/src/app/options.cpp
+++ b/src/app/src/app/options.cpp
@@ -233,7 +233,7 @@ namespace map_matching_2::app {
                 throw std::invalid_argument{"no tracks file specified, please see help."};
             }
 
-            if (vm["tracks-file-type"].empty() and vm["match-file-type"].empty() and vm["compare-file-type"].empty()) {
+            if (file_extension.empty()) {
                 std::string _file_extension{};
                 for (const auto &file : files) {
                     file_extension = std::filesystem::path(file).extension().string();
-- 
2.43.0


From cf77ff49e49fb5d3bb6460fc08da5594e7735854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:04 +0000
Subject: [PATCH 51/51] fix: unknown types of spatial reference systems are
 refused

---
 src/library/src/geometry/srs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index fec7b32..5009470 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -14,6 +14,7 @@
 // along with this program. If not, see https://www.gnu.org/licenses/.
 
 #include <format>
+#include <stdexcept>
 
 #include <boost/geometry/srs/epsg.hpp>
 
@@ -32,6 +33,8 @@ namespace map_matching_2::geometry {
             return SRS::CS_SPHERICAL_EQUATORIAL;
         } else if (srs_type == CS_CARTESIAN_STRING) {
             return SRS::CS_CARTESIAN;
+        } else if (not srs_type.empty()) {
+            throw std::invalid_argument{std::format("invalid srs type: {}", srs_type)};
         } else {
             return SRS::CS_INVALID;
         }
-- 
2.43.0

