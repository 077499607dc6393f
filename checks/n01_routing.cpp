// N01: routing in a network gives the least-length route within the bounds, or none.
#include "netgen.hpp"
#include <list>
using namespace pbt;
using namespace ng;

template<typename S>
static void routing(Ctx &c) {
    using network_type = typename S::network;
    using length_type = typename network_type::length_type;
    using vertex = typename network_type::vertex_descriptor;
    Opt o;
    o.grid = static_cast<int>(c.s.range(3, 12));
    o.max_nodes = c.s.chance(25) ? 60 : 16;
    o.max_ways = o.max_nodes > 16 ? 25 : 8;
    o.max_extra = o.max_nodes > 16 ? 20 : 6;
    o.coincident = c.s.chance(35); // roads of no length
    o.repeated = c.s.flip();
    o.tags = false;
    const Model m = generate<S>(c, o);
    describe(c, m);
    auto import = imported<S>(m);
    if (o.coincident) c.label("roads of no length possible");
    auto held = prepared<S>(*import);
    network_type &net = *held;
    const std::size_t n = m.nodes.size();
    const Matrix d = distances<S>(m);
    double longest = 0;
    for (auto &row : d) for (double x : row) if (x < inf) longest = std::max(longest, x);

    mm::graph::predecessors_type predecessors;
    mm::graph::distances_type<length_type> dist;
    mm::graph::colors_type colors;
    mm::graph::priority_queue_type<mm::graph::priority_type<length_type, vertex>> queue;
    auto clean = [&](const char *what) {
        require(predecessors.empty() and dist.empty() and colors.empty() and queue.empty(), what, " leaves state behind");
    };
    // checks a chain of nodes and the route it stands for
    auto verify = [&](const std::list<vertex> &path, std::size_t start, std::size_t goal, const char *what) {
        require(not path.empty() and path.front() == start and path.back() == goal, what, ": chain from ",
                m.nodes[start].id, " to ", m.nodes[goal].id, " has other ends");
        double total = 0;
        for (auto it = path.begin(); std::next(it) != path.end(); ++it) {
            double least = inf;
            for (auto &r : m.roads) if (static_cast<vertex>(r.s) == *it and static_cast<vertex>(r.t) == *std::next(it)) least = std::min(least, length<S>(r.pts));
            require(least < inf, what, ": no road from ", m.nodes[*it].id, " to ", m.nodes[*std::next(it)].id);
            total += least;
        }
        require_close(total, d[start][goal], 1e-9, what, ": length of the route from ", m.nodes[start].id, " to ", m.nodes[goal].id);
        const auto route = net.extract_route(path);
        require(not route.is_invalid(), what, ": the route is invalid");
        if (start == goal) require(route.rich_lines().empty(), what, ": the route to the start is not empty");
        double drawn = 0;
        auto it = path.begin();
        for (const auto &variant : route.rich_lines()) {
            std::vector<P> pts;
            std::visit([&](const auto &ref) { for (const auto &p : ref.get().line()) pts.push_back(to_p(p)); }, variant);
            require(std::next(it) != path.end(), what, ": more roads than the chain");
            bool is_road = false;
            for (auto &r : m.roads) if (static_cast<vertex>(r.s) == *it and static_cast<vertex>(r.t) == *std::next(it) and r.pts == pts) is_road = true;
            require(is_road, what, ": the route uses something that is no road between ", m.nodes[*it].id, " and ", m.nodes[*std::next(it)].id);
            drawn += length<S>(pts);
            ++it;
        }
        require(std::next(it) == path.end(), what, ": fewer roads than the chain");
        require_close(drawn, d[start][goal], 1e-9, what, ": length of the drawn route from ", m.nodes[start].id, " to ", m.nodes[goal].id);
    };

    const std::size_t queries = c.s.size(1, 6);
    for (std::size_t q = 0; q < queries; ++q) {
        const std::size_t start = c.s.below(n);
        boost::unordered_flat_set<vertex> goals;
        for (std::size_t k = c.s.size(0, 6); k > 0; --k) goals.insert(c.s.below(n));
        if (c.s.chance(30)) goals.insert(start);
        double factor = -1, max_distance = 0;
        if (c.s.chance(75)) {
            factor = c.s.pick({1.0, 5.0, 0.5, 0.0, 10.0, 1.25});
            if (not goals.empty() and c.s.chance(60)) {
                // the way the matching derives it: straight-line distance
                std::size_t far = *goals.begin();
                for (auto g : goals) far = std::max(far, static_cast<std::size_t>(g));
                max_distance = S::dist(m.nodes[start].p, m.nodes[far].p);
            } else {
                max_distance = longest * 1.1 * c.s.unit();
            }
        }
        const double bound = factor < 0 ? inf : factor * max_distance;
        c.note(" | from ", m.nodes[start].id, " to");
        for (auto g : goals) c.note(" ", m.nodes[g].id);
        c.note(" within ", bound);
        const auto paths = net.dijkstra_shortest_paths(start, goals, max_distance, factor, predecessors, dist, colors, queue);
        clean("the multi-goal search");
        std::map<std::size_t, int> found;
        for (const auto &path : paths) {
            require(not path.empty(), "an empty chain");
            const auto goal = path.back();
            require(goals.contains(goal), "a route to a node that was not asked for");
            require(found[goal]++ == 0, "two routes to one goal");
            verify(path, start, goal, "multi-goal");
        }
        for (auto g : goals) {
            const double l = d[start][g];
            if (near(l, bound, 1e-9) and l > 0) { c.count("length equals bound"); continue; }
            require_eq(found.count(g) == 1, l <= bound and l < inf, "route from ", m.nodes[start].id, " to ", m.nodes[g].id,
                    " of length ", l, " within ", bound);
            if (l < inf and l > bound) c.count("cut off by the bound");
            if (l == inf) c.count("unreachable");
            const auto path = net.a_star_shortest_paths(start, g, max_distance, factor, predecessors, dist, colors, queue);
            clean("the goal-directed search");
            require_eq(not path.empty(), l <= bound and l < inf, "goal-directed route from ", m.nodes[start].id, " to ",
                    m.nodes[g].id, " of length ", l, " within ", bound);
            if (not path.empty()) {
                verify(path, start, g, "goal-directed");
                if (path.size() > 3) c.nontrivial(), c.count("routes over three roads or more");
            } else {
                require(net.extract_route(path).is_invalid(), "the route of no chain is valid");
            }
        }
    }
}

void pbt::define(Suite &s) {
    s.property = "N01";
    s.add("cartesian", "networks of up to 60 nodes, one-way roads, parallel roads, loops, roads of no length; up to 6 queries with "
          "up to 7 goals each and bounds around the lengths; non-trivial: a route over three roads or more", 150000, 3000000, routing<Cartesian>);
    s.add("geographic", "same in geographic coordinates", 40000, 800000, routing<Geographic>);
    s.add("spherical", "same in spherical coordinates", 60000, 1200000, routing<Spherical>);
    s.assumptions = {"A route whose length equals the bound up to rounding may be reported or not."};
}
