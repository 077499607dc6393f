// N02: spatial queries agree with an exhaustive scan.
#include "netgen.hpp"
#include <boost/range/adaptor/transformed.hpp>
using namespace pbt;
using namespace ng;
namespace bgi = boost::geometry::index;

template<typename S> static constexpr bool planar = std::is_same_v<S, Cartesian>;

static double cross(const P &a, const P &b, const P &c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static double planar_distance(const P &p, const P &a, const P &b) {
    const double dx = b[0] - a[0], dy = b[1] - a[1], q = dx * dx + dy * dy;
    const double t = q == 0 ? 0 : std::clamp(((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / q, 0.0, 1.0);
    return std::hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy);
}
static bool within(const P &p, const P &a, const P &b) {
    return cross(a, b, p) == 0 and p[0] >= std::min(a[0], b[0]) and p[0] <= std::max(a[0], b[0]) and
            p[1] >= std::min(a[1], b[1]) and p[1] <= std::max(a[1], b[1]);
}
static int sgn(double x) { return (x > 0) - (x < 0); }
// exact on the integer raster
static bool meets(const P &a, const P &b, const P &c, const P &d) {
    if (within(a, c, d) or within(b, c, d) or within(c, a, b) or within(d, a, b)) return true;
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}

template<typename S>
static void queries(Ctx &c) {
    using network_type = typename S::network;
    using point = typename network_type::point_type;
    using segment = typename network_type::segment_type;
    using box = typename network_type::rtree_points_type::bounds_type;
    Opt o;
    o.grid = static_cast<int>(c.s.pick({2, 6, 15, 40}));
    const bool big = c.s.chance(30);
    o.max_nodes = big ? 250 : 14;
    o.max_ways = big ? 120 : 7;
    o.max_extra = big ? 60 : 4;
    o.coincident = c.s.chance(30);
    o.repeated = c.s.chance(30);
    o.tags = false;
    const Model m = generate<S>(c, o);
    if (m.nodes.size() < 60) describe(c, m); else c.note(m.nodes.size(), " nodes, ", m.roads.size(), " roads");
    auto import = imported<S>(m);
    auto held = prepared<S>(*import);
    network_type &net = *held;
    const Model r = read(net, "prepared");
    struct Seg { P a, b; std::size_t edge, index; };
    std::vector<Seg> segs;
    for (std::size_t e = 0; e < r.roads.size(); ++e)
        for (std::size_t i = 1; i < r.roads[e].pts.size(); ++i) segs.push_back({r.roads[e].pts[i - 1], r.roads[e].pts[i], e, i - 1});
    c.count("segments", segs.size());
    if (segs.size() > 100) c.label("over 100 segments");

    // by identifier
    for (std::uint64_t id = 99; id < 104 + m.nodes.size() and id < 125; ++id) {
        std::vector<std::size_t> expect;
        for (std::size_t i = 0; i < r.nodes.size(); ++i) if (r.nodes[i].id == id) expect.push_back(i);
        const auto got = net.find_node(id);
        require(std::equal(got.begin(), got.end(), expect.begin(), expect.end()), "nodes with identifier ", id);
    }
    for (std::uint64_t id = 0; id < 12; ++id) {
        std::vector<std::size_t> expect;
        for (std::size_t i = 0; i < r.roads.size(); ++i) if (r.roads[i].id == id) expect.push_back(i);
        const auto got = net.find_edge(id);
        require(std::equal(got.begin(), got.end(), expect.begin(), expect.end()), "roads with identifier ", id);
    }
    // bounds
    {
        P lo{inf, inf}, hi{-inf, -inf};
        for (auto &n : r.nodes) for (int k = 0; k < 2; ++k) lo[k] = std::min(lo[k], n.p[k]), hi[k] = std::max(hi[k], n.p[k]);
        const auto b = net.bounds();
        require(to_p(b.min_corner()) == lo and to_p(b.max_corner()) == hi, "bounds of the network");
    }

    auto at = [&](double step) -> P { // a position around the raster, often on it
        return {S::x0 + S::dx * (static_cast<double>(c.s.range(-2, 2 * o.grid + 2)) * step), S::y0 + S::dy * (static_cast<double>(c.s.range(-2, 2 * o.grid + 2)) * step)};
    };
    // Distances on the sphere and spheroid are those of the library's own distance between point and segment; what is
    // decided is that the index finds the nearest, not the formula (that is R06).
    auto distance = [&](const P &p, const Seg &s) -> double {
        if constexpr (planar<S>) return planar_distance(p, s.a, s.b);
        else return mm::geometry::distance(point{p[0], p[1]}, segment{point{s.a[0], s.a[1]}, point{s.b[0], s.b[1]}});
    };
    const std::size_t rounds = c.s.size(1, 5);
    for (std::size_t q = 0; q < rounds; ++q) {
        P p = c.s.chance(40) ? r.nodes[c.s.below(r.nodes.size())].p : at(0.5);
        if (not segs.empty() and c.s.chance(20)) { const auto &s = c.s.pick(segs); p = c.s.flip() ? s.a : s.b; }
        if (not segs.empty() and c.s.chance(15)) { const auto &s = c.s.pick(segs); p = {(s.a[0] + s.b[0]) / 2, (s.a[1] + s.b[1]) / 2}; }
        const point pt{p[0], p[1]};
        c.note(" | at (", p[0], ",", p[1], ")");
        // node at a point
        {
            std::set<std::size_t> here;
            for (std::size_t i = 0; i < r.nodes.size(); ++i) if (r.nodes[i].p == p) here.insert(i);
            const auto [found, v] = net.point_in_nodes(pt);
            require_eq(found, not here.empty(), "a node at the point");
            if (found) require(here.count(v), "the node at the point is another one");
        }
        // road point at a point
        {
            bool end = false;
            for (auto &s : segs) {
                if (s.a == p or s.b == p) end = true;
            }
            const auto [found, where] = net.point_in_edges(pt);
            if (found) {
                require(where.first < r.roads.size() and where.second + 1 < r.roads[where.first].pts.size(), "position of the road point");
                const auto &pts = r.roads[where.first].pts;
                require(pts[where.second] == p or pts[where.second + 1] == p, "the road found does not have the point");
            } else require(not end, "the road point at the point was not found");
        }
        // nearest roads
        const auto k = static_cast<unsigned>(c.s.pick({1, 2, 5, 16, 40}));
        c.note(" nearest ", k);
        {
            const auto got = net.query_segments(bgi::nearest(pt, k));
            std::vector<double> all, mine;
            for (auto &s : segs) all.push_back(distance(p, s));
            std::sort(all.begin(), all.end());
            require_eq(got.size(), std::min<std::size_t>(k, segs.size()), "number of nearest road segments");
            std::set<std::pair<std::size_t, std::size_t>> seen;
            for (auto &g : got) {
                const auto &[e, i] = g.second;
                require(e < r.roads.size() and i + 1 < r.roads[e].pts.size(), "a segment of no road");
                require(to_p(g.first.first) == r.roads[e].pts[i] and to_p(g.first.second) == r.roads[e].pts[i + 1], "segment ", i, " of road ", e, " is another one");
                require(seen.insert({e, i}).second, "a segment twice");
                mine.push_back(distance(p, {r.roads[e].pts[i], r.roads[e].pts[i + 1], e, i}));
            }
            std::sort(mine.begin(), mine.end());
            for (std::size_t i = 0; i < mine.size(); ++i)
                require_close(mine[i], all[i], planar<S> ? 1e-9 : 1e-2, "distance of the ", i + 1, ". nearest segment");
            // the same as a set of roads and as points
            if (all.size() > k and near(all[k - 1], all[k], planar<S> ? 1e-9 : 1e-6)) c.count("ties"); // any choice is right
            const auto unique = net.query_segments_unique(bgi::nearest(pt, k));
            std::set<std::size_t> roads;
            for (auto &g : got) roads.insert(g.second.first);
            require(std::equal(unique.begin(), unique.end(), roads.begin(), roads.end()), "set of nearest roads");
            const auto points = net.query_segments_points(bgi::nearest(pt, k));
            std::multiset<P> a, b;
            for (auto &g : got) a.insert(to_p(g.first.first)), a.insert(to_p(g.first.second));
            for (auto &x : points) b.insert(to_p(x));
            require(a == b, "points of the nearest roads");
            // nodes
            const auto nodes = net.query_points(bgi::nearest(pt, k));
            std::vector<double> nall, nmine;
            for (auto &n : r.nodes) nall.push_back(S::dist(p, n.p));
            std::sort(nall.begin(), nall.end());
            std::set<std::size_t> ids;
            for (auto &n : nodes) {
                require(n.second < r.nodes.size() and to_p(n.first) == r.nodes[n.second].p, "a nearest node is at another position");
                require(ids.insert(n.second).second, "a node twice");
                nmine.push_back(S::dist(p, r.nodes[n.second].p));
            }
            std::sort(nmine.begin(), nmine.end());
            require_eq(nmine.size(), std::min<std::size_t>(k, nall.size()), "number of nearest nodes");
            for (std::size_t i = 0; i < nmine.size(); ++i) require_close(nmine[i], nall[i], 1e-6, "distance of the ", i + 1, ". nearest node");
        }
        // roads and nodes in a box; its sides lie between the raster lines in both systems
        {
            const double qx = c.s.pick({0.25, 0.75}), qy = c.s.pick({0.25, 0.75});
            auto x1 = c.s.range(-2, o.grid + 1), x2 = c.s.range(-2, o.grid + 1), y1 = c.s.range(-2, o.grid + 1), y2 = c.s.range(-2, o.grid + 1);
            if (x1 > x2) std::swap(x1, x2);
            if (y1 > y2) std::swap(y1, y2);
            const P lo{S::x0 + S::dx * (static_cast<double>(x1) + qx), S::y0 + S::dy * (static_cast<double>(y1) + qy)};
            const P hi{S::x0 + S::dx * (static_cast<double>(x2) + 1 + qx), S::y0 + S::dy * (static_cast<double>(y2) + 1 + qy)};
            const box b{point{lo[0], lo[1]}, point{hi[0], hi[1]}};
            c.note(" box (", lo[0], ",", lo[1], ")-(", hi[0], ",", hi[1], ")");
            auto in = [&](const P &x) { return x[0] >= lo[0] and x[0] <= hi[0] and x[1] >= lo[1] and x[1] <= hi[1]; };
            std::set<std::size_t> nodes;
            for (std::size_t i = 0; i < r.nodes.size(); ++i) if (in(r.nodes[i].p)) nodes.insert(i);
            std::set<std::size_t> got_nodes;
            for (auto &n : net.query_points(bgi::intersects(b))) require(got_nodes.insert(n.second).second, "a node twice in a box");
            require(nodes == got_nodes, "nodes in the box");
            std::set<std::pair<std::size_t, std::size_t>> certain, possible, got;
            const P c1{hi[0], lo[1]}, c2{lo[0], hi[1]};
            for (auto &s : segs) {
                bool hit = in(s.a) or in(s.b), maybe = hit;
                if (not hit) {
                    if constexpr (planar<S>) {
                        hit = maybe = meets(s.a, s.b, lo, c1) or meets(s.a, s.b, c1, hi) or meets(s.a, s.b, hi, c2) or meets(s.a, s.b, c2, lo);
                    } else {
                        // great circles bend by far less than this between neighbouring raster positions
                        const double e = S::dx * 0.05;
                        auto planar_hit = [&](double g) {
                            const P l{lo[0] - g, lo[1] - g}, h{hi[0] + g, hi[1] + g}, d1{h[0], l[1]}, d2{l[0], h[1]};
                            return meets(s.a, s.b, l, d1) or meets(s.a, s.b, d1, h) or meets(s.a, s.b, h, d2) or meets(s.a, s.b, d2, l);
                        };
                        hit = planar_hit(-e);
                        maybe = planar_hit(e) or hit or (s.a[0] >= lo[0] - e and s.a[0] <= hi[0] + e and s.a[1] >= lo[1] - e and s.a[1] <= hi[1] + e);
                    }
                }
                if (hit) certain.insert({s.edge, s.index});
                if (maybe) possible.insert({s.edge, s.index});
            }
            for (auto &g : net.query_segments(bgi::intersects(b))) require(got.insert(g.second).second, "a segment twice in a box");
            for (auto &x : certain) require(got.count(x), "segment ", x.second, " of road ", x.first, " meets the box and was not found");
            for (auto &x : got) require(possible.count(x), "segment ", x.second, " of road ", x.first, " does not meet the box and was found");
            std::set<std::size_t> roads;
            for (auto &x : got) roads.insert(x.first);
            const auto unique = net.query_segments_unique(bgi::intersects(b));
            require(std::equal(unique.begin(), unique.end(), roads.begin(), roads.end()), "set of roads in the box");
            if (got.size() >= 2 and got.size() < segs.size()) c.nontrivial();
        }
        // best fitting road
        if (not segs.empty()) {
            P a, b;
            const auto &s0 = segs[c.s.below(segs.size())];
            switch (c.s.below(3)) {
                case 0: a = s0.a, b = s0.b; break;
                case 1: a = s0.b, b = s0.a; break;
                default: a = at(1), b = at(1);
            }
            if (a == b) continue;
            c.note(" fitting (", a[0], ",", a[1], ")->(", b[0], ",", b[1], ")");
            bool flat = false, exact = false, any = false;
            for (auto &s : segs) {
                if (s.a == s.b) flat = true;
                if (s.a == a and s.b == b) exact = true;
                if (planar<S> and meets(a, b, s.a, s.b)) any = true;
                if (not planar<S> and (s.a == a or s.b == b or s.a == b or s.b == a)) any = true;
            }
            const auto [found, e] = net.fitting_edge(segment{point{a[0], a[1]}, point{b[0], b[1]}});
            if (planar<S>) require_eq(found, any, "a road meets the line");
            else require(found or not any, "a road meets the line and was not found");
            if (not found) continue;
            require(e < r.roads.size(), "the fitting road");
            double best = inf, mine = inf;
            bool same = false;
            for (auto &s : segs) {
                if (planar<S> and not meets(a, b, s.a, s.b)) continue;
                double angle = 180;
                if constexpr (planar<S>) {
                    const double ux = b[0] - a[0], uy = b[1] - a[1], vx = s.b[0] - s.a[0], vy = s.b[1] - s.a[1];
                    angle = std::abs(std::atan2(ux * vy - uy * vx, ux * vx + uy * vy)) * 180 / M_PI;
                }
                best = std::min(best, angle);
                if (s.edge == e) { mine = std::min(mine, angle); same = same or (s.a == a and s.b == b); }
            }
            if (exact) require(same, "the line is part of a road and another one was found"), c.count("exact fits");
            else if (planar<S> and not flat) {
                require(mine < inf, "the fitting road does not meet the line");
                require(mine <= best + 1e-6, "the fitting road differs by ", mine, " degrees and another by ", best);
            }
        }
    }
}

void pbt::define(Suite &s) {
    s.property = "N02";
    s.add("cartesian", "networks of up to 250 nodes and several hundred segments with coinciding nodes and repeated roads; up to 5 "
          "rounds of all queries on, beside and between roads; non-trivial: a box that some but not all roads meet",
          80000, 1600000, queries<Cartesian>);
    s.add("spherical", "same in spherical coordinates", 20000, 400000, queries<Spherical>);
    s.add("geographic", "same in geographic coordinates", 5000, 100000, queries<Geographic>);
    s.assumptions = {"Among equally near roads any choice is right.",
                     "On sphere and spheroid, roads that pass a box within a twentieth of the raster width may be reported or not.",
                     "A road point is recognised only when no other road passes through it between its points."};
}
