// Road networks for the checks: a plain model, generators, conversion to and from the library's networks.
#ifndef VERIF_NETGEN_HPP
#define VERIF_NETGEN_HPP

#include <array>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;

namespace ng {

    using P = std::array<double, 2>;
    using Tags = std::set<std::pair<std::string, std::string>>;

    struct Node { std::uint64_t id; P p; Tags tags; };
    struct Road { int s, t; std::uint64_t id; std::vector<P> pts; };
    struct Model {
        std::vector<Node> nodes;
        std::vector<Road> roads;
        std::map<std::uint64_t, Tags> tags; // of roads
    };

    struct Cartesian {
        using cs = MM2_CARTESIAN;
        using import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
        using network = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
            MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
        static constexpr double x0 = 0, y0 = 0, dx = 10, dy = 10;
        static double dist(const P &a, const P &b) { return std::hypot(a[0] - b[0], a[1] - b[1]); }
    };
    struct Geographic {
        using cs = MM2_GEOGRAPHIC;
        using import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
        using network = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
            MM2_INDEX_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
        static constexpr double x0 = 11.5, y0 = 48.25, dx = 0.001, dy = 0.001;
        static double dist(const P &a, const P &b) {
            using point = mm::geometry::point_type<cs>;
            return boost::geometry::distance(point{a[0], a[1]}, point{b[0], b[1]});
        }
    };
    struct Spherical {
        using cs = MM2_SPHERICAL_EQUATORIAL;
        using import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_SPHERICAL_EQUATORIAL, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
        using network = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_SPHERICAL_EQUATORIAL, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
            MM2_INDEX_HELPER(MM2_SPHERICAL_EQUATORIAL, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
        static constexpr double x0 = 11.5, y0 = 48.25, dx = 0.001, dy = 0.001;
        static double dist(const P &a, const P &b) {
            const double r = M_PI / 180, s1 = std::sin((b[1] - a[1]) * r / 2), s2 = std::sin((b[0] - a[0]) * r / 2);
            return 2 * 6371000.0 * std::asin(std::sqrt(s1 * s1 + std::cos(a[1] * r) * std::cos(b[1] * r) * s2 * s2));
        }
    };

    template<typename S>
    double length(const std::vector<P> &pts) {
        double l = 0;
        for (std::size_t i = 1; i < pts.size(); ++i) l += S::dist(pts[i - 1], pts[i]);
        return l;
    }

    template<typename G> using point_of = typename G::rich_line_type::line_type::value_type;

    template<typename Point>
    P to_p(const Point &p) { return {boost::geometry::get<0>(p), boost::geometry::get<1>(p)}; }

    struct Opt {
        int grid{8};            // positions on a (grid+1)^2 raster
        int max_nodes{16};
        int max_ways{8};
        int max_extra{4};
        bool coincident{false}; // several nodes at one position
        bool shapes{true};      // roads with points between their nodes
        bool loops{true};
        bool tags{true};
        bool repeated{false};   // exact duplicates of roads
        bool same_ids{true};    // roads of different ways may share an identifier
        int max_shape{3};       // points between the nodes of a shaped road
    };

    // Ways like in a map extract: chains of nodes of which the inner ones are mostly new and the ends mostly known.
    template<typename S>
    Model generate(pbt::Ctx &c, const Opt &o = {}) {
        auto &s = c.s;
        Model m;
        std::set<P> taken;
        auto position = [&]() -> P {
            return {S::x0 + S::dx * static_cast<double>(s.below(o.grid + 1)), S::y0 + S::dy * static_cast<double>(s.below(o.grid + 1))};
        };
        auto node = [&](bool fresh) -> int {
            if (not m.nodes.empty() and (not fresh or static_cast<int>(m.nodes.size()) >= o.max_nodes)) {
                return static_cast<int>(s.below(m.nodes.size()));
            }
            P p = position();
            if (o.coincident and not m.nodes.empty() and s.chance(30)) p = m.nodes[s.below(m.nodes.size())].p;
            if (not o.coincident) {
                for (int tries = 0; taken.count(p); ++tries) {
                    if (tries == 6) return static_cast<int>(s.below(m.nodes.size()));
                    p = position();
                }
            }
            taken.insert(p);
            const auto id = 100 + m.nodes.size();
            m.nodes.push_back({id, p, {}});
            return static_cast<int>(m.nodes.size()) - 1;
        };
        auto add = [&](int a, int b, std::uint64_t id, bool both, bool shaped) {
            Road r{a, b, id, {m.nodes[a].p}};
            if (shaped) for (std::size_t k = s.size(1, o.max_shape); k > 0; --k) r.pts.push_back(position());
            r.pts.push_back(m.nodes[b].p);
            m.roads.push_back(r);
            if (both) {
                std::swap(r.s, r.t);
                std::reverse(r.pts.begin(), r.pts.end());
                m.roads.push_back(r);
            }
        };
        const std::size_t ways = s.size(1, o.max_ways);
        for (std::size_t w = 0; w < ways; ++w) {
            const std::uint64_t id = o.same_ids and w > 0 and s.chance(20) ? 1 + s.below(w) : 1 + w;
            const bool both = s.flip();
            const std::size_t len = s.size(2, 6);
            int prev = node(w == 0 or s.chance(20));
            for (std::size_t k = 1; k < len; ++k) {
                int next = node(k + 1 < len ? s.chance(75) : s.chance(40));
                if (next == prev and not(o.loops and s.chance(25))) continue;
                // a road from a node to itself needs a shape to be a road at all
                add(prev, next, id, both, o.shapes and (prev == next or s.chance(15)));
                if (prev == next and not o.shapes) m.roads.pop_back();
                if (prev == next and not o.shapes and both) m.roads.pop_back();
                prev = next;
            }
        }
        for (std::size_t k = s.below(o.max_extra + 1); k > 0; --k) {
            int a = node(false), b = node(false);
            if (a == b and not(o.loops and o.shapes)) continue;
            add(a, b, 1 + s.below(ways + 2), s.flip(), o.shapes and (a == b or s.flip()));
        }
        if (o.repeated and not m.roads.empty()) {
            for (std::size_t k = s.below(5); k > 0; --k) {
                auto r = m.roads[s.below(m.roads.size())];
                if (s.chance(30)) r.id++;
                m.roads.insert(m.roads.begin() + static_cast<std::ptrdiff_t>(s.below(m.roads.size() + 1)), r);
            }
        }
        // isolated nodes
        while (s.chance(10)) node(true);
        if (o.tags) {
            static const char *keys[] = {"highway", "maxspeed", "name"};
            static const char *values[] = {"a", "b", "primary"};
            for (std::uint64_t id = 1; id <= ways + 3; ++id) {
                for (std::size_t k = s.below(3); k > 0; --k) m.tags[id].insert({keys[s.below(3)], values[s.below(3)]});
            }
            for (auto &n : m.nodes) if (s.chance(20)) n.tags.insert({keys[s.below(3)], values[s.below(3)]});
        }
        return m;
    }

    inline void describe(pbt::Ctx &c, const Model &m) {
        c.note("nodes:");
        for (auto &n : m.nodes) c.note(" ", n.id, "(", n.p[0], ",", n.p[1], ")");
        c.note(" roads:");
        for (auto &r : m.roads) {
            c.note(" ", r.id, "[", m.nodes[r.s].id, "->", m.nodes[r.t].id);
            if (r.pts.size() > 2) {
                c.note(" via");
                for (std::size_t i = 1; i + 1 < r.pts.size(); ++i) c.note(" (", r.pts[i][0], ",", r.pts[i][1], ")");
            }
            c.note("]");
        }
        if (not m.tags.empty()) {
            c.note(" attributes:");
            for (auto &[id, t] : m.tags) { c.note(" ", id, "{"); for (auto &[k, v] : t) c.note(k, "=", v, " "); c.note("}"); }
        }
    }

    template<typename Network>
    void add_tags(Network &net, const Model &m) {
        auto &th = net.tag_helper();
        for (auto &n : m.nodes) {
            if (n.tags.empty()) continue;
            std::vector<std::uint64_t> ids;
            for (auto &[k, v] : n.tags) ids.push_back(th.id(k, v));
            th.copy_node_tags(n.id, ids);
        }
        for (auto &[id, tags] : m.tags) {
            if (tags.empty()) continue;
            std::vector<std::uint64_t> ids;
            for (auto &[k, v] : tags) ids.push_back(th.id(k, v));
            th.copy_edge_tags(id, ids);
        }
    }

    // fills an import network through the same interface the importers use
    template<typename Network>
    void fill(Network &net, const Model &m) {
        using node_type = typename Network::vertex_data_type;
        using edge_type = typename Network::edge_data_type;
        using rich_line_type = typename Network::rich_line_type;
        using line_type = typename Network::line_type;
        add_tags(net, m);
        std::vector<typename Network::vertex_size_type> index;
        for (auto &n : m.nodes) {
            index.push_back(net.graph_helper().add_vertex_with_index_mapping(node_type{n.id, {n.p[0], n.p[1]}}));
        }
        for (auto &r : m.roads) {
            line_type line;
            for (auto &p : r.pts) line.push_back({p[0], p[1]});
            net.graph_helper().add_edge(index[r.s], index[r.t], edge_type{r.id, rich_line_type{std::move(line)}});
        }
    }

    template<typename Network>
    Tags read_tags(const Network &net, const auto &ids, bool *duplicate = nullptr) {
        Tags t;
        for (auto id : ids) {
            if (not t.insert(net.tag_helper().tag(id)).second and duplicate) *duplicate = true;
        }
        return t;
    }

    // reads any network, checking its indices on the way
    template<typename Network>
    Model read(Network &net, const char *what) {
        Model m;
        auto &g = net.graph();
        auto vv = g.vertices_view();
        std::size_t k = 0;
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++k) {
            const auto &v = net.vertex(it);
            pbt::require_eq(static_cast<std::size_t>(g.vertex_index(it)), k, what, ": index of node ", v.id);
            m.nodes.push_back({v.id, to_p(v.point), read_tags(net, net.tag_helper().node_tags(v.id))});
        }
        auto ev = g.edges_view();
        k = 0;
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++k) {
            const auto &e = net.edge(it);
            pbt::require_eq(static_cast<std::size_t>(g.edge_index(it)), k, what, ": index of road ", e.id);
            Road r{static_cast<int>(g.vertex_index(g.source(it))), static_cast<int>(g.vertex_index(g.target(it))), e.id, {}};
            for (const auto &p : e.rich_line.line()) r.pts.push_back(to_p(p));
            m.roads.push_back(r);
            if (not m.tags.count(e.id)) {
                bool dup = false;
                m.tags[e.id] = read_tags(net, net.tag_helper().edge_tags(e.id), &dup);
                pbt::require(not dup, what, ": an attribute of road ", e.id, " is there twice");
            }
        }
        return m;
    }

    template<typename Network, typename Import>
    void prepare(Network &net, Import &import) {
        net.graph_helper().from_adjacency_list(import.graph_helper(), import.tag_helper());
        net.build_spatial_indices();
    }

    // the network with the roads of the model in it; checks of saved networks bring their own way
    template<typename S>
    auto imported(const Model &m) {
        if constexpr (requires { S::imported(m); }) return S::imported(m);
        else {
            auto import = std::make_unique<typename S::import>();
            fill(*import, m);
            return import;
        }
    }
    template<typename S, typename Import>
    auto prepared(Import &import) {
        if constexpr (requires { S::prepared(import); }) return S::prepared(import);
        else {
            auto net = std::make_unique<typename S::network>();
            prepare(*net, import);
            return net;
        }
    }

    using Matrix = std::vector<std::vector<double>>;
    constexpr double inf = std::numeric_limits<double>::infinity();

    template<typename S>
    Matrix distances(const Model &m) {
        const std::size_t n = m.nodes.size();
        Matrix d(n, std::vector<double>(n, inf));
        for (std::size_t i = 0; i < n; ++i) d[i][i] = 0;
        for (auto &r : m.roads) d[r.s][r.t] = std::min(d[r.s][r.t], length<S>(r.pts));
        for (std::size_t k = 0; k < n; ++k)
            for (std::size_t i = 0; i < n; ++i)
                if (d[i][k] < inf)
                    for (std::size_t j = 0; j < n; ++j) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
        return d;
    }

    using Segments = std::map<std::pair<P, P>, int>;
    inline Segments segments(const Model &m) {
        Segments s;
        for (auto &r : m.roads) for (std::size_t i = 1; i < r.pts.size(); ++i) s[{r.pts[i - 1], r.pts[i]}]++;
        return s;
    }

    // every road begins and ends at its nodes
    inline void anchored(const Model &m, const char *what) {
        for (auto &r : m.roads) {
            pbt::require(r.pts.size() >= 2, what, ": road ", r.id, " has points");
            pbt::require(r.pts.front() == m.nodes[r.s].p and r.pts.back() == m.nodes[r.t].p, what, ": road ", r.id,
                    " between ", m.nodes[r.s].id, " and ", m.nodes[r.t].id, " does not begin and end at its nodes");
        }
    }

}

#endif
