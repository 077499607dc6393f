// M02: routes between candidates are connected drives of least length, in whatever order they are asked for.
#include "matchgen.hpp"
using namespace pbt;
using namespace mg;

using Line = std::vector<P>;

template<typename S, typename Route>
static std::vector<Line> parts(const Route &route) {
    std::vector<Line> all;
    for (const auto &variant : route.rich_lines()) {
        all.emplace_back();
        std::visit([&](const auto &ref) { for (const auto &p : ref.get().line()) all.back().push_back(to_p(p)); }, variant);
    }
    return all;
}

static Line joined(const std::vector<Line> &lines) {
    Line l;
    for (auto &x : lines) for (auto &p : x) if (l.empty() or l.back() != p) l.push_back(p);
    return l;
}

static std::string show(const Line &l) {
    std::ostringstream o;
    o.precision(10);
    for (auto &p : l) o << " (" << p[0] << "," << p[1] << ")";
    return o.str();
}

template<typename S>
static void routes(Ctx &c) {
    constexpr bool planar = std::is_same_v<S, Cartesian>;
    using network_type = typename S::network;
    const double eps = planar ? 1e-6 : 0.25;
    Opt o;
    o.grid = static_cast<int>(c.s.pick({3, 8}));
    o.max_nodes = 12;
    o.max_ways = 6;
    o.coincident = c.s.chance(20);
    o.tags = false;
    const Model m = generate<S>(c, o);
    describe(c, m);
    typename S::import import;
    fill(import, m);
    network_type net;
    prepare(net, import);
    const Model r = read(net, "prepared");
    const Matrix d = distances<S>(r);
    const double unit = S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0});
    auto pts = random_track<S>(c, m, o, 2, 4);
    describe(c, pts);
    settings st;
    st.candidate_search = c.s.pick({settings::CIRCLE, settings::NEAREST, settings::NEXT});
    st.k_nearest = st.candidate_search == settings::NEXT ? 1 : 4;
    st.radius = unit * c.s.pick({1.0, 3.0});
    st.candidate_adoption_siblings = c.s.flip();
    st.candidate_adoption_nearby = c.s.flip();
    st.candidate_adoption_reverse = c.s.flip();
    mm::util::time_helper time;
    mm::matching::candidate_searcher<network_type> searcher{net, time};
    const auto track = make_track<S>(pts);
    const auto candidates = searcher.candidate_search(track, st);
    std::vector<std::size_t> usable;
    for (std::size_t i = 0; i < candidates.size(); ++i) if (not candidates[i].edges.empty()) usable.push_back(i);
    if (usable.empty()) throw Discard{};

    // roads by their directed segments
    std::vector<std::pair<P, P>> segs;
    for (auto &x : r.roads) for (std::size_t k = 1; k < x.pts.size(); ++k) if (x.pts[k - 1] != x.pts[k]) segs.push_back({x.pts[k - 1], x.pts[k]});
    // turns within roads are taken between segments in opposite directions up to 1.8 degrees
    double lax = 0;
    for (auto &[x, y] : segs) for (auto &[v, w] : segs) if (y == v and w != x) {
        const double ax = x[0] - y[0], ay = x[1] - y[1], bx = w[0] - v[0], by = w[1] - v[1];
        if (std::abs(std::atan2(ax * by - ay * bx, ax * bx + ay * by)) < (planar ? 0.032 : 0.06)) lax = std::max({lax, S::dist(x, y), S::dist(v, w)});
    }
    auto on_road = [&](const P &a, const P &b, bool turn = false) {
        const double l = S::dist(a, b), base = (planar ? 1e-6 : 0.25) + (turn ? 0.064 * lax : 0);
        for (auto &[x, y] : segs) {
            // positions next to a road come with a relative error of a thousandth in geographic coordinates
            const double eps = base + (planar ? 0 : 1e-2 * S::dist(x, y));
            // both between the ends, in this order
            if (S::dist(x, a) + S::dist(a, y) <= S::dist(x, y) + eps and S::dist(x, b) + S::dist(b, y) <= S::dist(x, y) + eps and
                S::dist(x, a) + l <= S::dist(x, b) + eps) return true;
        }
        return l <= base;
    };

    mm::matching::router<network_type> shared{net, time};
    const bool bounded = c.s.chance(30);
    std::map<std::pair<std::size_t, std::size_t>, std::pair<double, double>> bounds; // least asked, greatest possible
    const std::size_t queries = c.s.size(1, 16);
    std::size_t interesting = 0;
    for (std::size_t q = 0; q < queries; ++q) {
        const std::size_t from = usable[c.s.below(usable.size())], to = usable[c.s.below(usable.size())];
        const std::size_t source = c.s.below(candidates[from].edges.size()), target = c.s.below(candidates[to].edges.size());
        const bool turns = c.s.chance(40), a_star = c.s.flip();
        const double factor = bounded ? c.s.pick({-1.0, 1.0, 2.0, 10.0}) : -1.0;
        const auto &a = candidates[from].edges[source];
        const auto &b = candidates[to].edges[target];
        const auto &ra = r.roads[a.edge_desc], &rb = r.roads[b.edge_desc];
        c.note(" | from ", from, "/", source, " road ", a.edge_desc, " to ", to, "/", target, " road ", b.edge_desc, turns ? " with turns" : "",
                a_star ? " directed" : "", " factor ", factor);
        auto line = [&](const auto &x) { Line l; if (x.has_length()) for (const auto &p : x.line()) l.push_back(to_p(p)); return l; };
        const Line a_from = line(*a.from), a_to = line(*a.to), b_from = line(*b.from), b_to = line(*b.to);
        const P pa = to_p(a.projection_point), pb = to_p(b.projection_point);

        // bounds of this query
        const std::size_t u = static_cast<std::size_t>(ra.t), v = static_cast<std::size_t>(rb.s);
        double bound = inf;
        if (factor >= 0) {
            double far = 0;
            if (a_star) far = S::dist(r.nodes[u].p, r.nodes[v].p);
            else for (auto &n : candidates[to].nodes) far = std::max(far, S::dist(r.nodes[u].p, r.nodes[n.vertex_desc].p));
            bound = far * factor;
        }

        const auto route = shared.candidate_route(candidates, from, source, to, target, turns, a_star, factor);
        const auto again = shared.candidate_route(candidates, from, source, to, target, turns, a_star, factor);
        require_eq(again.is_invalid(), route.is_invalid(), "validity of the same route asked again");
        require(parts<S>(again) == parts<S>(route), "asking again gives another route:", show(joined(parts<S>(route))), ", then", show(joined(parts<S>(again))));

        if (pa == pb) {
            require(not route.is_invalid() and route.rich_lines().empty(), "the route between equal positions is not empty");
            continue;
        }
        // driving on along the same road
        const bool same = a.edge_desc == b.edge_desc;
        const double ahead = length<S>(b_from) - length<S>(a_from);
        if (not same or ahead <= 4 * eps) {
            auto [it, fresh] = bounds.try_emplace({u, v}, inf, 0);
            it->second.first = std::min(it->second.first, bound);
            if (a_star) it->second.second = std::max(it->second.second, bound);
            else for (auto &n : candidates[to].nodes) {
                auto [x, y] = bounds.try_emplace({u, n.vertex_desc}, inf, 0);
                x->second.second = std::max(x->second.second, bound);
            }
        }
        if (same and std::abs(ahead) <= 4 * eps) { c.count("undecided order on a road"); continue; }
        // positions on a road it passes several times are not unique
        if (same and (std::abs(length<S>(a_from) + length<S>(a_to) - length<S>(ra.pts)) > 4 * eps or std::abs(length<S>(b_from) + length<S>(b_to) - length<S>(rb.pts)) > 4 * eps)) {
            c.count("positions passed several times");
            continue;
        }
        const bool straight = same and ahead > 0;
        double expected = straight ? ahead : length<S>(a_to) + d[u][v] + length<S>(b_from);

        if (not straight) {
            const auto [least, most] = bounds[{u, v}];
            if (d[u][v] < inf and bounded) {
                if (route.is_invalid()) {
                    require(d[u][v] >= least * (1 - 1e-6) - eps, "no route although its length ", d[u][v], " is within the bound ", least);
                    c.count("cut off by a bound");
                    continue;
                }
                require(d[u][v] <= most * (1 + 1e-6) + eps, "a route of length ", d[u][v], " although out of every bound ", most);
            }
        }
        require_eq(route.is_invalid(), expected == inf, "whether there is no route of length ", expected);
        if (route.is_invalid()) { c.count("no route"); continue; }
        const auto lines = parts<S>(route);
        const Line drive = joined(lines);
        require(not drive.empty(), "the route between different positions is empty");
        require(near(drive.front()[0], pa[0], 1e-9) and near(drive.front()[1], pa[1], 1e-9) and near(drive.back()[0], pb[0], 1e-9) and
                near(drive.back()[1], pb[1], 1e-9), "the route does not lead from one position to the other:", show(drive));
        require(route.is_connected(), "the route is not connected");
        for (std::size_t i = 1; i < lines.size(); ++i)
            require(S::dist(lines[i - 1].back(), lines[i].front()) <= eps, "the route is interrupted:", show(drive));
        const double tolerance = eps * static_cast<double>(4 + drive.size()) + expected * 1e-6;
        require_close(static_cast<double>(route.length()), length<S>(drive), tolerance, "reported length");
        ++interesting;
        if (not turns or straight) {
            require_close(length<S>(drive), expected, tolerance, "length of the route", straight ? " along the road" : "");
            if (straight) {
                require_eq(lines.size(), 1u, "parts of a route along one road");
                c.count("along one road");
                for (std::size_t i = 1; i < drive.size(); ++i) require(on_road(drive[i - 1], drive[i]), "the route leaves the road:", show(drive));
                continue;
            }
            // the rest of the first road, whole roads, the beginning of the last road
            std::size_t i = 0, end = lines.size();
            if (not a_to.empty()) { require(lines[0] == a_to, "the route does not begin with the rest of the first road:", show(lines[0])); ++i; }
            if (not b_from.empty()) { require(end > i and lines[end - 1] == b_from, "the route does not end with the beginning of the last road"); --end; }
            // roads of no length need not be drawn
            auto reach = [&](std::set<int> x) {
                for (bool more = true; more;) {
                    more = false;
                    for (auto &y : r.roads) if (x.count(y.s) and length<S>(y.pts) == 0) more = x.insert(y.t).second or more;
                }
                return x;
            };
            std::set<int> at = reach({ra.t});
            for (; i < end; ++i) {
                std::set<int> next;
                for (auto &x : r.roads) if (at.count(x.s) and x.pts == lines[i]) next.insert(x.t);
                require(not next.empty(), "part ", i, " of the route is no road behind the part before:", show(lines[i]));
                at = reach(next);
            }
            require(at.count(rb.s), "the route does not reach the beginning of the last road");
            c.count("over roads");
        } else {
            // turning within roads leaves out ways back and forth
            require(length<S>(drive) <= expected + tolerance, "turning makes the route longer: ", length<S>(drive), " instead of ", expected);
            for (std::size_t k = 1; k < drive.size(); ++k) require(on_road(drive[k - 1], drive[k], true), "the route leaves the roads:", show(drive), " at ", k, " candidate parts", show(a_to), "/", show(b_from), " parts", lines.size());
            if (length<S>(drive) < expected - tolerance) c.count("shortened by turns");
        }
    }
    c.nontrivial(interesting >= 2);
}

void pbt::define(Suite &s) {
    s.property = "M02";
    s.add("cartesian", "networks of up to 12 nodes, candidates of tracks of up to 4 points, up to 16 routes asked for in any order, with and "
          "without turns within roads, directed search and bounds; non-trivial: two routes", 100000, 2000000, routes<Cartesian>);
    s.add("geographic", "same in geographic coordinates", 20000, 400000, routes<Geographic>);
    s.assumptions = {"Which of two positions on a road is first is not judged when they are closer than the tolerance.",
                     "With a bound on the search, a route within the bound of every query for the same two nodes has to be found."};
}
