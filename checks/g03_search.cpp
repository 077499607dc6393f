// G03: graph searches visit exactly what is reachable and shortest paths are optimal.
#include <limits>
#include <boost/unordered/unordered_flat_set.hpp>
#include "graph/algorithm/a_star_shortest_path.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "graphgen.hpp"
using namespace pbt;
using namespace gg;

static constexpr double INF = std::numeric_limits<double>::infinity();

struct Trace : mm::graph::visitor {
    std::vector<std::size_t> discovered, examined, finished;
    std::size_t edges{0};
    std::size_t stop_at{~std::size_t{0}};
    template<typename G>
    void discover_vertex(const G &g, const typename G::vertex_descriptor &v) { discovered.push_back(g.vertex_index(v)); }
    template<typename G>
    void examine_vertex(const G &g, const typename G::vertex_descriptor &v) {
        examined.push_back(g.vertex_index(v));
        if (examined.back() == stop_at) this->stop();
    }
    template<typename G>
    void examine_edge(const G &, const typename G::edge_descriptor &) { edges++; }
    template<typename G>
    void finish_vertex(const G &g, const typename G::vertex_descriptor &v) { finished.push_back(g.vertex_index(v)); }
};

static std::vector<double> reference(const Model &m, int start, bool hops, bool reverse = false) {
    std::vector<double> d(m.n, INF);
    d[start] = 0;
    for (int i = 0; i < m.n; ++i)
        for (auto &e : m.edges) {
            const int a = reverse ? e.t : e.s, b = reverse ? e.s : e.t;
            d[b] = std::min(d[b], d[a] + (hops ? 1.0 : e.w));
        }
    return d;
}

template<typename Graph, typename VD>
static void check_all(Ctx &c, const Graph &g, const std::vector<VD> &vd, const Model &m, int start, int goal,
        const std::vector<double> &h, const char *kind) {
    const auto hop = reference(m, start, true), dist = reference(m, start, false);
    std::size_t reach = 0, reach_edges = 0;
    for (int v = 0; v < m.n; ++v) if (hop[v] < INF) reach++;
    for (auto &e : m.edges) if (hop[e.s] < INF) reach_edges++;
    {
        boost::unordered_flat_set<std::size_t> visited;
        mm::graph::queue_type<VD> queue;
        Trace t;
        mm::graph::breadth_first_search(g, vd[start], visited, queue, t);
        require_eq(visited.size(), reach, kind, " bfs: visited");
        for (auto v : visited) require(hop[v] < INF, kind, " bfs: visited an unreachable vertex ", v);
        require_eq(t.discovered.size(), reach, kind, " bfs: discoveries");
        require(t.examined == t.discovered and t.finished == t.examined, kind, " bfs: order of events");
        require_eq(t.edges, reach_edges, kind, " bfs: examined edges");
        std::set<std::size_t> once(t.discovered.begin(), t.discovered.end());
        require_eq(once.size(), reach, kind, " bfs: each vertex once");
        for (std::size_t i = 1; i < t.discovered.size(); ++i)
            require(hop[t.discovered[i - 1]] <= hop[t.discovered[i]], kind, " bfs: hop order");
    }
    {
        boost::unordered_flat_set<std::size_t> visited;
        mm::graph::stack_type<VD> stack;
        Trace t;
        mm::graph::depth_first_search(g, vd[start], visited, stack, t);
        require_eq(visited.size(), reach, kind, " dfs: visited");
        for (auto v : visited) require(hop[v] < INF, kind, " dfs: visited an unreachable vertex ", v);
        std::set<std::size_t> once(t.examined.begin(), t.examined.end());
        require_eq(t.examined.size(), reach, kind, " dfs: examinations");
        require_eq(once.size(), reach, kind, " dfs: each vertex once");
        require_eq(t.discovered.size(), reach, kind, " dfs: discoveries");
        require_eq(t.edges, reach_edges, kind, " dfs: examined edges");
        require_eq(t.examined.front(), static_cast<std::size_t>(start), kind, " dfs: starts at the start");
    }
    const auto weight = [](const Weighted &w) { return w.weight; };
    auto check_path = [&](auto &pred, auto &d, int v, const char *what) {
        int at = v, steps = 0;
        double w = 0;
        while (at != start) {
            require(pred.contains(at), what, ": predecessor of ", at);
            const int p = static_cast<int>(pred[at]);
            double best = INF;
            for (auto &e : m.edges) if (e.s == p and e.t == at) best = std::min(best, e.w);
            require(best < INF, what, ": predecessors ", p, " and ", at, " are not adjacent");
            w += best;
            at = p;
            require(++steps <= m.n, what, ": predecessors of ", v, " do not lead to the start");
        }
        require_eq(w, dist[v], what, ": length of the path to ", v);
        require(d.contains(v), what, ": distance of ", v);
        require_eq(d[v], dist[v], what, ": distance of ", v);
    };
    {
        mm::graph::predecessors_type pred;
        mm::graph::distances_type<double> d;
        mm::graph::colors_type colors;
        mm::graph::priority_queue_type<mm::graph::priority_type<double, VD>> queue;
        Trace t;
        mm::graph::dijkstra_shortest_path(g, vd[start], pred, d, colors, queue, t, weight);
        for (int v = 0; v < m.n; ++v) {
            if (dist[v] < INF) {
                check_path(pred, d, v, kind);
                require(colors[v] == mm::graph::color::BLACK, kind, " dijkstra: vertex ", v, " is settled");
            } else require(not d.contains(v) and not pred.contains(v), kind, " dijkstra: unreachable vertex ", v, " has a distance");
        }
        require_eq(pred[start], static_cast<std::size_t>(start), kind, " dijkstra: predecessor of the start");
        double last = 0;
        std::set<std::size_t> seen;
        for (auto v : t.examined) {
            if (not seen.insert(v).second) continue;
            require(dist[v] >= last, kind, " dijkstra: vertices are settled in order of distance");
            last = dist[v];
        }
    }
    {
        // stopping as soon as the goal is examined gives its final distance
        mm::graph::predecessors_type pred;
        mm::graph::distances_type<double> d;
        mm::graph::colors_type colors;
        mm::graph::priority_queue_type<mm::graph::priority_type<double, VD>> queue;
        Trace t;
        t.stop_at = goal;
        mm::graph::dijkstra_shortest_path(g, vd[start], pred, d, colors, queue, t, weight);
        if (dist[goal] < INF) check_path(pred, d, goal, "dijkstra stopped at the goal");
        else require(not d.contains(goal), kind, " dijkstra: unreachable goal");
    }
    for (bool stop : {true, false}) {
        mm::graph::predecessors_type pred;
        mm::graph::distances_type<double> d;
        mm::graph::colors_type colors;
        mm::graph::priority_queue_type<mm::graph::priority_type<double, VD>> queue;
        Trace t;
        if (stop) t.stop_at = goal;
        mm::graph::a_star_shortest_path(g, vd[start], vd[goal], pred, d, colors, queue, t, weight,
                [&](const VD &v, const VD &) { return h[g.vertex_index(v)]; });
        if (dist[goal] < INF) check_path(pred, d, goal, "a star");
        else require(not d.contains(goal), kind, " a star: unreachable goal");
        if (not stop)
            for (int v = 0; v < m.n; ++v) require_eq(d.contains(v), dist[v] < INF, kind, " a star: reached vertex ", v);
        if (stop and dist[goal] < INF and goal != start) {
            // what it settles cannot lie beyond the goal
            for (auto v : t.finished)
                require(dist[v] + h[v] <= dist[goal] + 1e-9, kind, " a star: settled vertex ", v, " beyond the goal");
        }
    }
    (void) c;
}

template<typename Direction>
static void search(Ctx &c) {
    list_graph<Direction> g;
    const bool big = c.s.chance(10);
    const Model m = build(c, g, big ? 60 : 12, big ? 200 : 36, true);
    if (m.n == 0) throw Discard{};
    const int start = static_cast<int>(c.s.below(m.n)), goal = static_cast<int>(c.s.below(m.n));
    // a consistent lower bound: capped and scaled distance to the goal (integers and halves, hence exact)
    auto to_goal = reference(m, goal, false, true);
    const double cap = static_cast<double>(c.s.range(0, 40));
    const double scale = c.s.pick({0.0, 0.5, 1.0});
    std::vector<double> h(m.n);
    for (int v = 0; v < m.n; ++v) h[v] = scale * std::min(cap, to_goal[v]);
    c.note(" start=", start, " goal=", goal, " cap=", cap, " scale=", scale);
    using VD = typename list_graph<Direction>::vertex_descriptor;
    std::vector<VD> vd;
    auto vv = g.vertices_view();
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) vd.push_back(it);
    const auto &cg = g;
    check_all(c, cg, vd, m, start, goal, h, "mutable");
    csr_graph csr;
    csr.from_adjacency_list(g);
    std::vector<std::size_t> cv;
    for (int i = 0; i < m.n; ++i) cv.push_back(i);
    check_all(c, csr, cv, m, start, goal, h, "compressed");
    const auto dist = reference(m, start, false), hop = reference(m, start, true);
    int reach = 0;
    bool detour = false;
    for (int v = 0; v < m.n; ++v) {
        if (hop[v] < INF) reach++;
        double direct = INF;
        for (auto &e : m.edges) if (e.s == start and e.t == v) direct = std::min(direct, e.w);
        if (v != start and direct < INF and dist[v] < direct) detour = true;
    }
    if (detour) c.label("a detour is shorter than a direct edge");
    if (dist[goal] == INF) c.label("unreachable goal");
    if (reach < m.n) c.label("unreachable part");
    c.nontrivial(reach >= 4);
}

void pbt::define(Suite &s) {
    s.property = "G03";
    s.assumptions = {"weights are non-negative and heuristics are consistent, as every caller guarantees"};
    s.add("directional", "directed multigraphs (up to 60 vertices, 200 edges) with small integer weights, zero weights, "
          "loops and parallel edges; searches on both graph forms are compared with relaxation to a fixed point; "
          "non-trivial: at least 4 reachable vertices", 900000, 20000000, search<mm::graph::directional>);
    s.add("bidirectional", "same on bidirectional graphs", 600000, 14000000, search<mm::graph::bidirectional>);
}
