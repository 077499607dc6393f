#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable and diffable)."""
import json, os
L = "src/library/include/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

p("G01", "The mutable graph behaves like a directed multigraph under every history",
  "After any sequence of adding, changing, clearing and removing vertices and edges (parallel edges and self loops included), reindexing and copying, the mutable graph holds exactly the vertices, edges, data, endpoints and incoming and outgoing adjacency that the sequence implies, in insertion order, with consecutive indices after a reindex. An addition that fails for lack of memory leaves the graph exactly as it was, and a vertex that still has outgoing edges cannot be removed.",
  ["histories", "fault_sequences"], "all operation histories on directional, bidirectional and undirected graphs, with allocation failures at any point",
  "graph_tests.cpp performs a handful of fixed constructions and removals and never lets an allocation fail in the middle of an insertion",
  [L+"graph/adjacency_list.hpp", L+"graph/container_view.hpp"],
  [("insertion with rollback", L+"graph/adjacency_list.hpp try_add/_add_edge"), ("removal keeps both ends consistent", L+"graph/adjacency_list.hpp clear_vertex/remove_edge"), ("reindex", L+"graph/adjacency_list.hpp reindex")],
  ["vertices_view/edges_view/out_edges_view/in_edges_view of the graph"])

p("G02", "Compressing a graph preserves it exactly",
  "Converting any reindexed mutable graph into the compressed form yields the same vertices in the same order with the same data, and for every vertex exactly the same outgoing edges in the same order with the same targets and data. Per-vertex edge ranges and degrees agree, reading a view forwards, backwards or by position gives the same elements, and copying or saving and loading the compressed graph changes nothing.",
  ["inputs", "histories"], "all graphs a history of insertions and removals can leave behind, including isolated vertices, self loops, parallel edges and trailing vertices without edges",
  "tests convert a few hand-made graphs; off-by-one mistakes at vertices without edges or after removals depend on the shape",
  [L+"graph/compressed_sparse_row.hpp", L+"graph/container_subview.hpp"],
  [("row start offsets", L+"graph/compressed_sparse_row.hpp from_adjacency_list"), ("edge ranges", L+"graph/compressed_sparse_row.hpp _out_edges_start_end")])

p("G03", "Graph searches visit exactly what is reachable and shortest paths are optimal",
  "From any start vertex, breadth-first and depth-first search visit exactly the reachable vertices once each, breadth-first in order of hop distance. Dijkstra's search yields for every reachable vertex its least total weight together with predecessors that realise it, and A* with a consistent lower-bound heuristic yields the least weight to its goal; results are the same on the mutable and on the compressed form of the graph.",
  ["inputs"], "all directed multigraphs with non-negative weights, including zero weights, self loops, parallel edges and unreachable parts, and all consistent heuristics",
  "graph_algorithm_tests.cpp uses one tree and one ten-vertex graph with one start and goal",
  [L+"graph/algorithm/"],
  [("relaxation and settling", L+"graph/algorithm/dijkstra_shortest_path.hpp"), ("heuristic ordering", L+"graph/algorithm/a_star_shortest_path.hpp"), ("priority order", L+"graph/algorithm/priority_type_comparator.hpp")])

p("N01", "Network routing finds the shortest route within the bounds, or none",
  "For any network, start node and set of goal nodes, multi-goal routing returns, for each goal, the connected chain of directed roads from the start of least total length when that length is within the given bounds (a maximum distance, or a multiple of the straight-line distance), and reports no route for a goal that cannot be reached. Searching for a single goal with the goal-directed method gives a route of the same least length, and none when there is none; a route to the start itself is empty.",
  ["inputs", "configurations"], "all road networks, starts, goal sets, distance bounds and factors",
  "network tests route over one grid; whether a bound cuts off a legitimate route depends on network shape and search order",
  [L+"geometry/network/network.hpp"],
  [("bounded search", L+"geometry/network/network.hpp dijkstra_shortest_paths"), ("goal-directed search", L+"geometry/network/network.hpp a_star_shortest_paths"), ("path reconstruction", L+"geometry/network/network.hpp extract path/route")])

p("N02", "Spatial queries return exactly the roads and nodes an exhaustive scan would",
  "For every network, the lookups of nodes at a point, roads through a point, the best fitting road for a line, the roads nearest to or within a distance of a point, and the network's total bounds agree with an exhaustive scan over all nodes and road segments. This holds however the spatial indices were built.",
  ["inputs"], "all networks, query points, distances and result counts",
  "tests query a few points on one fixture; index bugs show for particular distributions of roads",
  [L+"geometry/network/network.hpp", L+"io/helper/index_helper.hpp"],
  [("index construction", L+"io/helper/index_helper.hpp build_indices"), ("queries", L+"geometry/network/network.hpp query_*")])

p("N03", "Simplifying a network preserves what can be driven",
  "Simplification only removes nodes that merely connect two consecutive roads and joins those roads: between any two remaining nodes the same places are reachable over the same least distance, the total directed road geometry is unchanged, every crossing and dead end remains, and in the tag-aware mode roads with different attributes are never joined. Joined roads keep the attributes of their parts and the result is consistently indexed; simplifying again changes nothing.",
  ["inputs", "configurations"], "all directed road networks with one-way and two-way roads, loops and parallel roads, and attribute assignments, in both modes",
  "network_tests.cpp simplifies one fixed network and checks counts",
  [L+"geometry/network/network_import.hpp", L+"io/helper/graph_helper.hpp"],
  [("joining at pass-through nodes", L+"geometry/network/network_import.hpp simplify*"), ("attribute merging", L+"io/helper/tag_helper.hpp")])

p("N04", "Network cleaning keeps the routable network",
  "Removing unconnected parts keeps exactly the largest connected part with all its roads; merging duplicate nodes unites exactly the nodes at the same position and re-attaches every road; removing duplicate roads keeps exactly one of each set of roads with equal ends and geometry. Each leaves reachability and least distances between the kept positions unchanged (or improved by merged nodes), and the network consistently indexed.",
  ["inputs"], "all directed networks with coincident nodes, duplicate roads, loops and several components",
  "no test covers self loops, several coincident nodes or ties between components",
  [L+"geometry/network/network_import.hpp"],
  [("component search", L+"geometry/network/network_import.hpp remove_unconnected_components"), ("node merging", L+"geometry/network/network_import.hpp remove_duplicate_nodes"), ("edge deduplication", L+"geometry/network/network_import.hpp remove_duplicate_edges")])

p("I01", "OpenStreetMap import builds exactly the network the rules select",
  "For any OpenStreetMap extract and rule set, the imported network contains precisely the ways that match some query rule and pass every filter rule, split into one directed road per node pair, in both directions unless the way is one-way and only backwards for ways matched by a reversal rule, with the nodes at their coordinates and the attributes of ways and nodes attached. Rule strings in the documented syntax mean what the documentation says (the first rule that matches a tag decides), and the result does not depend on other, unselected or deleted objects or on how the ways are spread over files.",
  ["inputs", "configurations"], "all extracts (ways, nodes, attributes, one-way tagging) and all rule strings",
  "no existing test runs the importer",
  [L+"io/network/osm_handler.hpp", L+"io/network/osm_importer.hpp", L+"io/network/osm_manual_importer.hpp", L+"io/network/osm_car_importer.hpp", L+"io/helper/osm_handler_helper.hpp"],
  [("rule evaluation", L+"io/network/osm_handler.hpp keep"), ("one-way detection", L+"io/network/osm_handler.hpp detect_oneway"), ("rule syntax", L+"io/network/osm_manual_importer.hpp")])

p("I02", "Exporting to OpenStreetMap and importing again gives the same network",
  "Writing a network as an OpenStreetMap file (XML, PBF or OPL) and reading it back with the same rules yields the same directed road geometry with the same attributes (apart from the one-way attribute, which is written as needed) and the same attributes of nodes on roads, with no additional or lost direction of travel. This holds for one-way roads, two-way roads, loops, parallel roads, roads of opposite ways with different attributes and simplified roads with many points.",
  ["inputs"], "all networks with attributed roads the program can hold, up to the resolution of OpenStreetMap coordinates",
  "no existing test runs the exporter",
  [L+"io/network/osm_exporter.hpp", L+"io/network/osm_handler.hpp"],
  [("pairing of opposite roads", L+"io/network/osm_exporter.hpp"), ("one-way attribute", L+"io/network/osm_exporter.hpp")])

p("I03", "The other network formats import every node and road they describe",
  "Reading a network in the arc/node, Seattle, Melbourne or GIS Cup format yields exactly the described nodes and directed roads with their given geometry and identifiers, in both directions where the format says so. When a target reference system is requested, node positions and road geometry are all transformed alike, so that roads begin and end at their nodes.",
  ["inputs", "configurations"], "all well-formed files of these formats and all reference system choices",
  "no existing test reads any of these formats",
  [L+"io/network/arc_node_importer.hpp", L+"io/network/seattle_importer.hpp", L+"io/network/melbourne_importer.hpp", L+"io/network/giscup_importer.hpp"],
  [("parsers", L+"io/network/*_importer.hpp"), ("reprojection", L+"geometry/algorithm/reproject.hpp")])

p("T01", "The attribute store keeps every attribute exactly and shares equal ones",
  "Every key/value pair gets one stable identifier that is the same for equal pairs and different for different ones, and reads back as the same strings. The attributes of a node or road are exactly those first set, copied or cloned onto it (later ones for the same object and empty ones change nothing), extended by those merged into it (a merge is the union), independent of what happens to other objects and of whether the strings and lists came from another store; a finalized store keeps all of it and refuses new pairs. This holds for the in-memory and, while it stays mapped, the file-backed store alike.",
  ["histories"], "all histories of registering, setting, cloning, copying and merging attributes, including empty and very long strings",
  "tests register a few attributes once",
  [L+"io/helper/tag_helper.hpp", L+"io/memory_mapped/storage/tag_storage.hpp"],
  [("interning", L+"io/helper/tag_helper.hpp id"), ("merging", L+"io/helper/tag_helper.hpp merge_edge_tags")])

p("S01", "A saved network loads back identical",
  "Saving a prepared network (roads, attributes and spatial indices) and loading it again yields a network with the same nodes, roads, derived lengths and directions, attributes, and the same answers to every spatial and routing query. Loading into a fresh program state does not depend on the order in which the parts are read.",
  ["inputs"], "all networks in all coordinate systems",
  "serialization_tests.cpp saves one network of a few points and compares sizes",
  [L+"io/serialization/", L+"io/helper/graph_helper.hpp", L+"io/helper/tag_helper.hpp", L+"io/helper/index_helper.hpp"],
  [("archives", L+"io/serialization/"), ("graph serialisation", L+"graph/compressed_sparse_row.hpp serialize")])

p("S02", "File-backed storage behaves like memory across growth, shrinking and reopening",
  "A network part kept in a file-backed store (graph, attributes, indices, import buffers) holds exactly the same content as one kept in memory after any history of insertions, however often the file had to grow in between, and after closing, shrinking and reopening it for matching, by one reader or several. Growth in the middle of an operation (importing, removing nodes, duplicates and unconnected parts, compressing, building indices) neither loses nor duplicates anything.",
  ["histories", "fault_sequences"], "all histories of insertions with storage exhaustion at any allocation, followed by opening",
  "memory_mapped tests fill one storage with fixed data and default sizes",
  [L+"io/memory_mapped/storage/", L+"io/memory_mapped/utils.hpp", L+"io/helper/graph_helper.hpp"],
  [("retry with growth", L+"io/memory_mapped/utils.hpp retry_alloc"), ("grow/remap", L+"io/memory_mapped/storage/base_storage.hpp"), ("open modes", L+"io/memory_mapped/storage/base_storage.hpp")])

p("K01", "CSV tracks import every measurement under the right track in time order",
  "Reading track files in delimited form yields, for each selected identifier, one track whose points are exactly the measurements given for that identifier, ordered by time (read to the second) with equal times kept in file order, for every documented way of naming columns, composing identifiers and times, grouping, header handling and geometry notation; rows holding whole lines yield a track each with one part per line. Coordinates are transformed to the requested reference system and no measurement is lost, duplicated or attached to another track.",
  ["inputs", "configurations"], "all well-formed track files and all documented reader settings",
  "no existing test reads CSV tracks beyond what the csv library is linked for; the ordering depends on number of rows and ties",
  [L+"io/track/csv_track_importer.hpp", "src/library/src/io/importer.cpp", "src/library/src/io/csv_importer.cpp"],
  [("row assembly", L+"io/track/csv_track_importer.hpp process_row"), ("ordering", L+"io/track/csv_track_importer.hpp finish_import"), ("time parsing", "src/library/src/io/importer.cpp parse_time")])

p("K02", "GPX, text and road-list tracks import exactly what they describe",
  "A GPX file yields one track per recorded track with one part per segment, its points in time order with equal times kept in file order, named by track, document or number; text geometries read from standard input yield tracks with exactly their points; a list of road identifiers yields the connected drive over exactly those roads in that order when one exists and otherwise a new part wherever the roads do not connect. Broken documents, unreadable texts and lists with unknown roads are skipped without affecting the others.",
  ["inputs"], "all GPX documents, geometry texts and road lists, including multiple parts, repeated roads and parallel roads",
  "no existing test covers these importers",
  [L+"io/track/gpx_track_importer.hpp", L+"io/track/input_importer.hpp", L+"io/track/edges_list_importer.hpp", L+"io/track/seattle_ground_truth_importer.hpp"],
  [("gpx", L+"io/track/gpx_track_importer.hpp"), ("text", L+"io/track/input_importer.hpp"), ("road list", L+"io/track/edges_list_importer.hpp")])

p("R01", "Derived measures of lines always equal recomputation from their points",
  "For every segment, line and multi-line, in the immediate and in the on-demand variant and after any history of copying, assigning, merging and taking parts, the reported lengths, azimuths, directions and turn totals equal those recomputed directly from the current points, and the points are exactly those the history implies. Immediate and on-demand variants agree with each other.",
  ["histories", "inputs"], "all point sequences (repeated points, single points, empty lines) and all histories of supported operations in all coordinate systems",
  "model_tests.cpp checks fixed lines; stale cached values need a particular sequence of reads and edits",
  [L+"geometry/rich_type/"],
  [("on-demand caches", L+"geometry/rich_type/lazy_rich_line.hpp, lazy_rich_segment.hpp"), ("immediate data", L+"geometry/rich_type/rich_line_data.hpp")])

p("R02", "Route operations keep exactly the travelled geometry",
  "Joining, merging and trimming routes, cutting out parts of a route, and converting a route to one line or to several connected lines preserve the travelled sequence of points exactly: nothing is lost, duplicated or reordered except the deliberately trimmed way back and forth and, when two routes are joined, their meeting point. Length, directions and connectedness reported for the result equal those computed from its points, whether or not they were asked for before the operation.",
  ["histories", "inputs"], "all sequences of connected or unconnected lines and all histories of route operations",
  "route_tests.cpp checks a list of fixed examples",
  [L+"geometry/network/route/route.hpp", L+"geometry/network/route/route_data.hpp", L+"geometry/network/route/lazy_route.hpp", L+"geometry/network/route/eager_route.hpp"],
  [("join/merge", L+"geometry/network/route/route.hpp"), ("trim_merge", L+"geometry/network/route/route.hpp"), ("cached data", L+"geometry/network/route/route_data.hpp")])

p("R03", "Cutting a line yields the parts between the given positions",
  "Cutting a part out of a line between two positions on it yields a line that starts and ends at these positions, contains exactly the original points in between in order, and has the length of the part; the parts before and after a position together give the whole line again.",
  ["inputs"], "all lines (repeated and self-crossing points included) and all positions on their segments",
  "model_algorithm_tests.cpp cuts a few fixed lines",
  [L+"geometry/algorithm/substring.hpp"],
  [("substring", L+"geometry/algorithm/substring.hpp")])

p("R04", "Line simplification stays within its tolerance",
  "Simplifying a track keeps its first and last point, returns a subsequence of its points, and leaves every removed point within the tolerance of the simplified line; a tolerance below every deviation changes nothing, a track whose inner points are all within the tolerance of the line between its ends becomes that line, places of turning back stay when they are to be retained, and lengths belong to the points that are left.",
  ["inputs", "configurations"], "all tracks and tolerances in all coordinate systems",
  "tests simplify one line with one tolerance",
  [L+"geometry/algorithm/simplify.hpp"], [("simplify", L+"geometry/algorithm/simplify.hpp")])

p("R05", "Median merging only fuses points that are close together in track order",
  "Merging nearby track points keeps the order of the track, replaces each fused group by a point that is their median, leaves points that have no near successor untouched, and never returns more points than given; with a tolerance of zero nothing but equal neighbours changes.",
  ["inputs", "configurations"], "all tracks, tolerances and adaptive settings",
  "tests merge fixed tracks",
  [L+"geometry/algorithm/median_merge.hpp", L+"geometry/algorithm/median.hpp"],
  [("median merge", L+"geometry/algorithm/median_merge.hpp"), ("median", L+"geometry/algorithm/median.hpp")])

p("R06", "Distances, directions and lengths obey geometry and do not depend on caching",
  "Distance is symmetric, zero exactly for equal points, and agrees with an independent computation in every coordinate system; azimuths and turn directions agree with an independent computation and lie in their documented ranges; the length of a line is the sum of its segment distances in the same unit. Repeating, reordering, resetting or parallelising the queries never changes any answer.",
  ["inputs", "histories", "schedules"], "all points in all coordinate systems and all histories of queries over several threads",
  "tests compute a few fixed values; cache mistakes need collisions or particular histories",
  [L+"geometry/algorithm/distance.hpp", L+"geometry/algorithm/azimuth.hpp", L+"geometry/algorithm/direction.hpp", L+"geometry/algorithm/length.hpp", L+"geometry/cache.hpp"],
  [("thread-local caches", L+"geometry/cache.hpp"), ("measures", L+"geometry/algorithm/")])

p("R07", "Transforming coordinates between reference systems loses nothing",
  "Transforming any point, line or multi-line to another supported reference system keeps its structure (number and order of points and parts), agrees with an independent transformation of the same coordinates, and transforming back returns the original coordinates within rounding. Requests that need no transformation return the input unchanged, and every combination of given codes and descriptions selects the documented kind of transformation.",
  ["inputs", "configurations"], "all points in the area of use and all combinations of source and target systems",
  "no existing test reprojects",
  [L+"geometry/algorithm/reproject.hpp", L+"geometry/srs.hpp", "src/library/src/geometry/srs.cpp", L+"types/geometry/reprojector.hpp"],
  [("transformation choice", "src/library/src/geometry/srs.cpp"), ("application", L+"geometry/algorithm/reproject.hpp")])

p("C01", "Comparing routes splits both exactly into common and differing parts",
  "Comparing a matched route with a ground truth partitions each of them into common and differing stretches whose lengths add up to the whole, also when stretches are driven repeatedly, turned back on or interrupted by gaps: a stretch is common exactly as often as both drive it in this direction, where positions and roads of the two either agree within the tolerances or are farther apart than them (turning back beside the way there within the simplification tolerance is not judged). Identical routes are fully correct, disjoint ones fully wrong, and swapping the two swaps missing and superfluous stretches. Fractions and, for files of routes compared with any number of threads, one row per ground truth with a counterpart (or, unless ignored, without) and the printed totals follow from these lengths.",
  ["inputs"], "all pairs of routes and multi-part routes",
  "compare_tests.cpp compares a few fixed pairs",
  [L+"geometry/algorithm/compare.hpp", L+"compare/comparator.hpp"],
  [("segment pairing", L+"geometry/algorithm/compare.hpp"), ("fractions", L+"geometry/algorithm/compare/comparison.hpp")])

p("M01", "Candidate search finds exactly the roads the settings allow",
  "For every track point the candidates are exactly the roads an exhaustive scan selects under the chosen search mode and limits (with the radius enlarged only when nothing is found), each with the nearest position on the road, its distance, and the parts of the road before and after it. Both directions of a two-way road are offered, adopted candidates of neighbouring points are consistent with their origin, and every track point keeps its place.",
  ["inputs", "configurations"], "all networks, tracks and search settings (circle, nearest, combined, growing limits, adoption on and off)",
  "matcher_tests.cpp checks counts on one grid",
  [L+"matching/algorithm/candidate_search.hpp"],
  [("search modes", L+"matching/algorithm/candidate_search.hpp"), ("projection and split", L+"matching/algorithm/candidate_search.hpp"), ("adoption", L+"matching/algorithm/candidate_search.hpp")])

p("M02", "Routes between candidates are connected, shortest, and independent of caching",
  "The route between two candidates starts at the position of the first, ends at that of the second, is a connected drive over roads in their direction, and is as short as any such drive along the first road, over whole roads and along the last road; when there is none the route is reported invalid. With turning within roads enabled the drive only leaves out ways back and forth. Asking again, in any order, with cached or freshly computed routes, gives the same answer. When the search is bounded, the answer is the shortest drive or none, and it is found when it is within the smallest bound asked for between the same two nodes.",
  ["inputs", "histories"], "all networks, candidate pairs and query orders",
  "matcher_tests.cpp asks for a dozen fixed pairs on one grid",
  [L+"matching/algorithm/route.hpp", L+"geometry/network/network.hpp"],
  [("candidate route assembly", L+"matching/algorithm/route.hpp candidate_route"), ("route cache", L+"matching/algorithm/route.hpp")])

p("M03", "Removing defects from a track removes exactly the defects",
  "Preparing a track for matching removes exactly the points flagged as duplicates of their predecessor when that filter is on, keeps all others in order, and changes nothing when it is off; the matching then works on the prepared track.",
  ["inputs", "configurations"], "all tracks with repeated points anywhere and all filter settings",
  "no existing test has repeated points",
  [L+"matching/algorithm/detect.hpp", L+"environment/environments/single.hpp", L+"environment/environments/hmm.hpp"],
  [("detection", L+"matching/algorithm/detect.hpp detect"), ("removal", L+"matching/algorithm/detect.hpp remove_defects")])

p("L01", "The learning algorithms return an optimal policy",
  "On any finite decision process of the shape map matching uses, value iteration and policy iteration end with a policy whose value equals the optimum found by exhaustive evaluation (up to the set accuracy), and the Viterbi algorithm ends with a sequence of candidates of maximal total likelihood among all sequences. The policy names one valid candidate per track position.",
  ["inputs", "configurations"], "all layered decision processes with arbitrary rewards, probabilities, dead ends and ties",
  "existing tests match one or two tracks and never compare with the optimum",
  [L+"learning/algorithms/value_iteration.hpp", L+"learning/algorithms/policy_iteration.hpp", L+"learning/algorithms/viterbi.hpp", L+"learning/algorithms/q_learning.hpp"],
  [("value iteration", L+"learning/algorithms/value_iteration.hpp"), ("policy iteration", L+"learning/algorithms/policy_iteration.hpp"), ("viterbi", L+"learning/algorithms/viterbi.hpp")])

p("M04", "A matched route is a drive on the network that fits the track",
  "Whatever the track, network, settings, model and solver, the matched result is what the chosen candidates say: the drives between consecutive chosen candidates in track order, interrupted only where positions were left out or no way exists; it lies on roads of the network in their direction of travel and changes roads only at nodes, turns and candidates. Joining (join-merges) leaves out only positions at which the drive goes straight on. Viterbi chooses candidates connected throughout whenever there are such. A drive on the network recorded exactly at every bend is found again, and beside equal parallel roads the nearest one is driven. Tracks without any nearby road give an empty result instead of a failure.",
  ["inputs", "configurations"], "all networks, tracks (noisy, sparse, far away, single point, repeated points) and all models and solvers",
  "matcher_tests.cpp matches single fixed tracks",
  [L+"matching/matcher.hpp", L+"environment/environments/single.hpp", L+"environment/environments/hmm.hpp", L+"matching/algorithm/route.hpp"],
  [("environment", L+"environment/environments/single.hpp"), ("route assembly", L+"matching/algorithm/route.hpp candidates_route")])

p("M05", "Parallel processing handles every track once with the same result",
  "However many worker threads are used and however they interleave, every submitted track is processed exactly once, its result equals that of processing it alone, and the program finishes after all are done. Failures of one task do not lose other tasks.",
  ["schedules", "inputs"], "all thread counts, batch sizes and task durations",
  "tests run one matcher with default settings and compare nothing between runs",
  [L+"util/coordinator.hpp", L+"matching/matcher.hpp", L+"compare/comparator.hpp"],
  [("bounded task pool", L+"util/coordinator.hpp")])

p("E01", "Exported results read back as what was matched",
  "The result, candidate, comparison and edge exports contain one row per processed track with exactly the matched geometry, identifiers and measures, in a form the program's own readers accept; network exports list every node and road once.",
  ["inputs"], "all matched tracks including empty results, several parts and identifiers with special characters",
  "no existing test reads an export back",
  [L+"io/results/", L+"geometry/network/network_base.hpp"],
  [("exporters", L+"io/results/")])

p("A01", "Command line and configuration files set exactly what they name",
  "Every documented option of the prepare, match and compare modes given on the command line, in a configuration file or left at its default results in exactly the documented setting, with the command line taking precedence, and only the documented dependencies change others (memory mapping, track file type, radius limits, next search, turns within roads, quiet). Exactly the requested mode starts. Unknown options, values that cannot be read or are not among the documented ones, missing required options and excluded combinations are refused. Settings an option does not name are unaffected.",
  ["configurations"], "all combinations of documented options and values",
  "no existing test parses options",
  ["src/app/src/app/options.cpp", "src/app/include/app/options.hpp", "src/app/src/app/settings.cpp"],
  [("option tables", "src/app/src/app/options.cpp"), ("settings conversion", "src/app/src/app/settings.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
