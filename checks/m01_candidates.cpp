// M01: candidate search finds exactly the roads the settings allow, with their nearest positions and parts.
#include "matchgen.hpp"
using namespace pbt;
using namespace mg;

template<typename S>
static void candidates(Ctx &c) {
    constexpr bool planar = std::is_same_v<S, Cartesian>;
    using network_type = typename S::network;
    using point = typename network_type::point_type;
    // Snapping to road points moves a position by up to 1e-4; on the spheroid, distances to lines are approximate and the
    // surrounding box differs from the circle, on the sphere it is that of the spheroid.
    const double eps = planar ? 2e-4 : 0.15; // 0.0952 m is what the inverse cosine of a double resolves on the spheroid
    Opt o;
    o.grid = static_cast<int>(c.s.pick({3, 8, 15}));
    const bool big = c.s.chance(20);
    o.max_nodes = big ? 60 : 10;
    o.max_ways = big ? 30 : 5;
    o.coincident = c.s.chance(25);
    o.tags = false;
    if (c.s.chance(30)) o.max_shape = 30; // roads with many points take another way through the search
    const Model m = generate<S>(c, o);
    describe(c, m);
    typename S::import import;
    fill(import, m);
    network_type net;
    prepare(net, import);
    const Model r = read(net, "prepared");
    auto dist = [&](const P &p, const std::vector<P> &line) -> double {
        if constexpr (planar) return nearest(p, line).distance;
        else {
            typename network_type::line_type l;
            for (auto &x : line) l.push_back({x[0], x[1]});
            return mm::geometry::distance(point{p[0], p[1]}, l);
        }
    };

    const double unit = S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0});
    const auto pts = random_track<S>(c, m, o, 1, 6);
    describe(c, pts);
    settings st;
    st.candidate_search = c.s.pick({settings::CIRCLE, settings::COMBINED, settings::NEAREST, settings::NEXT});
    st.k_nearest = st.candidate_search == settings::NEXT ? c.s.pick({1u, 1u, 2u}) : c.s.pick({1u, 2u, 4u, 8u, 16u});
    st.radius = unit * c.s.pick({0.3, 1.0, 2.5, 6.0, 0.05});
    st.adaptive_radius = c.s.flip();
    st.radius_lower_limit = unit * c.s.pick({0.2, 1.0, 4.0});
    st.radius_upper_limit = unit * c.s.pick({20.0, 3.0, 1.0, 200.0});
    const int adoption = static_cast<int>(c.s.below(4));
    st.candidate_adoption_siblings = adoption & 1;
    st.candidate_adoption_nearby = adoption & 2;
    st.candidate_adoption_reverse = c.s.flip();
    c.note(" | mode ", st.candidate_search, " k ", st.k_nearest, " radius ", st.radius, " adaptive ", st.adaptive_radius, " limits ",
            st.radius_lower_limit, " ", st.radius_upper_limit, " siblings ", st.candidate_adoption_siblings, " nearby ", st.candidate_adoption_nearby,
            " reverse ", st.candidate_adoption_reverse);

    mm::util::time_helper time;
    mm::matching::candidate_searcher<network_type> searcher{net, time};
    const auto track = make_track<S>(pts);
    const auto got = searcher.candidate_search(track, st);
    require_eq(got.size(), pts.size(), "number of track points with candidates");

    const double gap = 1e-3; // positions closer than this are not told apart
    // per road: searched for at this point, or adopted
    struct Position { std::size_t edge; P p; std::vector<P> from{}, to{}; };
    std::vector<std::vector<Position>> own(pts.size());
    bool ambiguous = false, grown = false;
    for (std::size_t i = 0; i < pts.size(); ++i) {
        const P &p = pts[i];
        require_eq(got[i].index, i, "place of the track point");
        require(got[i].track == &track, "track of the candidate");
        require_eq(got[i].next_equal, i + 1 < pts.size() and pts[i + 1] == p, "whether the next point is equal");
        // which roads
        std::vector<double> d(r.roads.size()), segment;
        for (std::size_t e = 0; e < r.roads.size(); ++e) {
            d[e] = dist(p, r.roads[e].pts);
            for (std::size_t k = 1; k < r.roads[e].pts.size(); ++k) segment.push_back(dist(p, {r.roads[e].pts[k - 1], r.roads[e].pts[k]}));
        }
        std::sort(segment.begin(), segment.end());
        const double kth = segment.size() > st.k_nearest ? segment[st.k_nearest - 1] : inf;
        double radius = st.radius;
        auto within = [&](double x, double limit, bool &sure) { if (std::abs(x - limit) <= eps + (planar ? 0 : 0.006 * limit)) sure = false; return x <= limit; };
        std::vector<int> expect(r.roads.size()); // 0 no, 1 yes, 2 either
        bool unsure_radius = false;
        if (st.candidate_search == settings::CIRCLE or st.candidate_search == settings::COMBINED) {
            bool adaptive = st.adaptive_radius;
            for (int round = 0;; ++round) {
                if (adaptive) {
                    // no length between equal points, so they do not limit the radius
                    if (i > 0 and pts[i - 1] != p) radius = std::min(radius, S::dist(pts[i - 1], p));
                    if (i + 1 < pts.size() and pts[i + 1] != p) radius = std::min(radius, S::dist(p, pts[i + 1]));
                    radius = std::max(radius, st.radius_lower_limit);
                }
                radius = std::min(radius, st.radius_upper_limit);
                bool any = false;
                for (std::size_t e = 0; e < r.roads.size(); ++e) {
                    bool sure = true;
                    bool in = within(d[e], radius, sure);
                    expect[e] = sure ? in : 2;
                    if (st.candidate_search == settings::COMBINED and kth < inf) {
                        bool near_enough = within(d[e], kth, sure);
                        // ties at the k-th place
                        if (not near_enough and std::abs(d[e] - kth) > eps) expect[e] = 0;
                        else if (std::abs(d[e] - kth) <= eps and expect[e]) expect[e] = 2;
                    }
                    if (expect[e] == 2) unsure_radius = true;
                    any = any or expect[e] == 1;
                }
                if (any or radius >= st.radius_upper_limit) break;
                if (unsure_radius) break;
                radius *= 2;
                adaptive = false;
                grown = true;
            }
            // whether the radius grows depends on a road on the edge of the circle
            bool any = false;
            for (auto x : expect) any = any or x == 1;
            if (unsure_radius and not any) { ambiguous = true; c.count("undecidable radius"); }
        } else {
            for (std::size_t e = 0; e < r.roads.size(); ++e) expect[e] = kth == inf ? 1 : std::abs(d[e] - kth) <= eps ? 2 : d[e] < kth;
            // a road within the k nearest through one of its segments only is still among them
            if (st.candidate_search == settings::NEXT) {
                auto out = [&](int v, auto &&f) { for (std::size_t x = 0; x < r.roads.size(); ++x) if (r.roads[x].s == v) f(x); };
                auto more = expect;
                for (std::size_t e = 0; e < r.roads.size(); ++e) {
                    if (not expect[e]) continue;
                    for (int v : {r.roads[e].s, r.roads[e].t}) {
                        out(v, [&](std::size_t x) {
                            int y = std::abs(d[x] - d[e]) <= eps ? 2 : d[x] < d[e];
                            if (y == 1 and expect[e] == 2) y = 2;
                            // exactly on the shared node both distances are zero
                            if (planar and expect[e] == 1 and d[x] == 0 and d[e] == 0) y = 1;
                            more[x] = more[x] == 1 or y == 1 ? 1 : std::max(more[x], y);
                        });
                    }
                }
                expect = more;
                for (std::size_t e = 0; e < r.roads.size(); ++e) {
                    if (not expect[e]) continue;
                    out(r.roads[e].t, [&](std::size_t x) {
                        if (r.roads[x].t == r.roads[e].s) more[x] = more[x] == 1 or expect[e] == 1 ? 1 : 2;
                    });
                }
                expect = more;
            }
        }
        // candidates found for this point
        std::map<std::size_t, int> seen;
        double last = -1;
        for (const auto &e : got[i].edges) {
            const std::size_t x = e.edge_desc;
            require(x < r.roads.size(), "a candidate on no road");
            const auto &road = r.roads[x];
            const P pos = to_p(e.projection_point);
            require(e.distance >= last, "the candidates of point ", i, " are not ordered by distance");
            last = e.distance;
            // the library's projection on the spheroid is approximate, too
            const double on_road = planar ? eps : eps + 4e-3 * S::dist(p, pos);
            require_close(static_cast<double>(e.distance), S::dist(p, pos), eps, "distance of the candidate on road ", road.id, " at point ", i);
            require(e.adopted or dist(pos, road.pts) <= on_road, "the position (", pos[0], ",", pos[1], ") is not on road ", road.id, " but ", dist(pos, road.pts), " away");
            // the parts before and behind
            std::vector<P> from, to;
            if (not e.from->empty()) for (const auto &q : e.from->line()) from.push_back(to_p(q));
            if (not e.to->empty()) for (const auto &q : e.to->line()) to.push_back(to_p(q));
            require(not from.empty() or not to.empty(), "candidate without parts");
            require(from.size() != 1 and to.size() != 1, "a part of one point");
            if (not from.empty()) require(from.front() == road.pts.front() and from.back() == pos, "the part before the position does not lead to it");
            if (not to.empty()) require(to.back() == road.pts.back() and to.front() == pos, "the part behind the position does not start there");
            if (not from.empty() and length<S>(from) > eps and not to.empty() and length<S>(to) > eps) c.count("split roads");
            if (from.empty()) require(to == road.pts, "without a part before the position the whole road is behind");
            if (to.empty()) require(from == road.pts, "without a part behind the position the whole road is before");
            auto whole = from;
            // a road that passes the position several times may be cut at different visits
            double first_visit = inf, last_visit = -inf, along = 0;
            for (std::size_t k = 1; k < road.pts.size(); ++k) {
                if (dist(pos, {road.pts[k - 1], road.pts[k]}) <= on_road) {
                    first_visit = std::min(first_visit, along + S::dist(road.pts[k - 1], pos));
                    last_visit = std::max(last_visit, along + S::dist(road.pts[k - 1], pos));
                }
                along += S::dist(road.pts[k - 1], road.pts[k]);
            }
            const bool several = last_visit - first_visit > eps / 4;
            if (several) c.count("positions passed several times");
            if (not e.adopted and not from.empty() and not to.empty() and not several) {
                whole.insert(whole.end(), to.begin() + 1, to.end());
                // the position is one of the points, or between two of them
                auto at = whole.begin() + static_cast<std::ptrdiff_t>(from.size()) - 1;
                // a point may be repeated at the cut or not
                // points equal up to rounding are equal, the lengths on the spheroid resolve a millimeter
                constexpr double tie = planar ? 1e-9 : 3e-8;
                auto close = [](const P &a, const P &b) { return std::abs(a[0] - b[0]) <= tie and std::abs(a[1] - b[1]) <= tie; };
                auto once = [&](std::vector<P> x) { x.erase(std::unique(x.begin(), x.end(), close), x.end()); return x; };
                auto equal = [&](const std::vector<P> &a, const std::vector<P> &b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), close); };
                const auto expected = once(road.pts);
                if (not equal(once(whole), expected)) whole.erase(at);
                std::string shown;
                for (auto &q : from) shown += " (" + std::to_string(q[0]) + "," + std::to_string(q[1]) + ")";
                shown += " |";
                for (auto &q : to) shown += " (" + std::to_string(q[0]) + "," + std::to_string(q[1]) + ")";
                require(equal(once(whole), expected), "the parts do not make up road ", road.id, " at point ", i, ":", shown);
                require_close(static_cast<double>(e.from->length() + e.to->length()), length<S>(road.pts), on_road + length<S>(road.pts) * 1e-6, "length of the parts of road ", road.id);
            }
            if (not e.adopted) {
                require(seen[x]++ == 0, "road ", road.id, " twice for point ", i);
                require_close(static_cast<double>(e.distance), d[x], eps, "the candidate on road ", road.id, " is not the nearest position");
                own[i].push_back({x, pos, from, to});
                if (not ambiguous) require(expect[x] != 0, "road ", road.id, " (", x, ") in distance ", d[x], " should not be a candidate of point ", i);
            }
        }
        if (not ambiguous) for (std::size_t e = 0; e < r.roads.size(); ++e)
            if (expect[e] == 1 and length<S>(r.roads[e].pts) > 0)
                require(seen.count(e), "road ", r.roads[e].id, " (", e, ") in distance ", d[e], " should be a candidate of point ", i);
        // nodes of the candidates
        std::map<std::size_t, int> nodes;
        last = -1;
        for (const auto &n : got[i].nodes) {
            require(nodes[n.vertex_desc]++ == 0, "a node twice");
            require_close(static_cast<double>(n.distance), S::dist(p, r.nodes[n.vertex_desc].p), eps, "distance of a node");
            require(n.distance >= last, "the nodes are not ordered by distance");
            last = n.distance;
        }
        std::set<std::size_t> ends;
        for (const auto &e : got[i].edges) for (int v : {r.roads[e.edge_desc].s, r.roads[e.edge_desc].t}) ends.insert(static_cast<std::size_t>(v));
        require_eq(nodes.size(), ends.size(), "nodes of the candidates of point ", i);
        for (auto v : ends) require(nodes.count(v), "a node of a candidate is missing");
    }
    if (grown) c.label("grown radius");
    // adoption: positions found for other points, by the rules of the settings
    auto same = [&](const Position &a, const Position &b) { return a.edge == b.edge and a.p == b.p; };
    std::vector<std::vector<Position>> all = own;
    bool unsure = false;
    auto adopt = [&](std::size_t i, const Position &x) {
        for (auto &y : all[i]) if (same(x, y)) return;
        all[i].push_back(x);
    };
    if (st.candidate_adoption_nearby) {
        for (std::size_t i = 0; i < pts.size(); ++i) {
            if (all[i].empty()) continue;
            double longest = 0;
            for (auto &x : all[i]) longest = std::max(longest, S::dist(pts[i], x.p));
            if (longest == 0) continue;
            for (std::size_t j = 0; j < pts.size(); ++j) {
                if (i == j) continue;
                for (auto &x : own[j]) {
                    const double d = dist(pts[i], {pts[j], x.p});
                    if (std::abs(d - longest) <= eps + (planar ? 0 : 0.006 * longest)) unsure = true;
                    if (d > longest) continue;
                    adopt(i, x);
                    if (st.candidate_adoption_reverse) for (auto &y : own[i]) adopt(j, y);
                }
            }
        }
    }
    if (st.candidate_adoption_siblings) {
        for (std::size_t i = 0; i < pts.size(); ++i) {
            if (i > 0) for (auto &x : own[i - 1]) adopt(i, x);
            if (i + 1 < pts.size()) for (auto &x : own[i + 1]) adopt(i, x);
        }
    }
    std::size_t adopted = 0;
    for (std::size_t i = 0; i < pts.size(); ++i) {
        for (const auto &e : got[i].edges) {
            const Position x{e.edge_desc, to_p(e.projection_point)};
            std::size_t n = 0;
            for (const auto &f : got[i].edges) if (same(x, {f.edge_desc, to_p(f.projection_point)})) ++n;
            require_eq(n, 1, "how often point ", i, " has the same position");
            if (not e.adopted) continue;
            ++adopted;
            require(st.candidate_adoption_siblings or st.candidate_adoption_nearby, "an adopted candidate without adoption");
            bool origin = false, found = false;
            for (std::size_t j = 0; j < pts.size(); ++j) if (j != i) for (auto &y : own[j]) if (same(x, y)) {
                std::vector<P> from, to;
                for (const auto &q : e.from->line()) from.push_back(to_p(q));
                for (const auto &q : e.to->line()) to.push_back(to_p(q));
                origin = origin or (from == y.from and to == y.to);
            }
            require(origin, "a position of point ", i, " is adopted from no other point");
            for (auto &y : all[i]) found = found or same(x, y);
            if (not unsure) require(found, "point ", i, " adopted a position it should not");
        }
        if (not unsure) require_eq(got[i].edges.size(), all[i].size(), "number of candidates of point ", i);
    }
    if (unsure) c.count("undecidable adoption");
    c.count("candidates", adopted);
    std::size_t own_count = 0;
    for (auto &x : own) own_count += x.size();
    c.nontrivial(pts.size() >= 2 and own_count >= 3 and own_count < r.roads.size() * pts.size());
    (void) gap;
}

void pbt::define(Suite &s) {
    s.property = "M01";
    s.add("cartesian", "networks of up to 60 nodes, roads of up to 32 points, tracks of up to 12 points on, beside and away from the "
          "roads, all search modes, limits and adoptions; non-trivial: two points with three candidates, not all roads", 300000, 5000000, candidates<Cartesian>);
    s.add("geographic", "same in geographic coordinates", 30000, 400000, candidates<Geographic>);
    s.assumptions = {"Roads and positions within the snapping distance of the limit may be chosen or not.",
                     "On the spheroid, the limits are decided up to 0.6 percent, as the surrounding box is approximate."};
}
