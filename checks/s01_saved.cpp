// S01: a saved network loads back identical.
#include "flatmap_serialization.hpp"
#include "netgen.hpp"
#include <bit>
#include <filesystem>
#include <sstream>
#include "app/network.hpp"
namespace pbt { void define_n01(Suite &); void define_n02(Suite &); }
#define define define_n01
#include "n01_routing.cpp"
#undef define
#define define define_n02
#include "n02_queries.cpp"
#undef define

template<typename S>
struct Types {
    using tags = MM2_TAG_HELPER(MM2_MEMORY_TYPES);
    using graph = MM2_GRAPH_HELPER(typename S::cs, MM2_MEMORY_TYPES, tags);
    // what the matching opens
    using opened = MM2_NETWORK(graph, MM2_INDEX_HELPER_READ_ONLY(typename S::cs, MM2_MEMORY_TYPES));
};

struct Place {
    mm::app::prepare_data out;
    mm::app::match_data in;
    std::string folder = scratch() + "/saved";
    explicit Place(const std::string &suffix = "") {
        std::filesystem::remove_all(folder);
        std::filesystem::create_directories(folder);
        out.network.output = in.input.input = folder;
        out.files.graph_file = in.files.graph_file = "graph" + suffix + ".bin";
        out.files.tags_file = in.files.tags_file = "tags" + suffix + ".bin";
        out.files.index_file = in.files.index_file = "index" + suffix + ".bin";
        out.memory.mmap_graph = out.memory.mmap_indices = out.memory.mmap_tags = false;
        in.memory.mmap_graph = in.memory.mmap_indices = in.memory.mmap_tags = false;
    }
    ~Place() { std::filesystem::remove_all(folder); }
};

template<typename Base>
struct Saved : Base {
    using network = typename Types<Base>::opened;
    template<typename Import>
    static std::unique_ptr<network> prepared(Import &import) {
        Place place;
        {
            typename Base::network net;
            ng::prepare(net, import);
            mm::app::save_network(net, place.out);
        }
        auto net = std::make_unique<network>();
        mm::app::load_network(*net, place.in);
        return net;
    }
};

static std::uint64_t bits(double x) { return std::bit_cast<std::uint64_t>(x); }

// everything the lines know, to the bit
template<typename Network>
static std::string facts(Network &net) {
    std::ostringstream o;
    o << std::hex;
    auto ev = net.graph().edges_view();
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        const auto &l = net.edge(it).rich_line;
        o << "road " << net.edge(it).id << " " << l.size() << " " << l.has_length() << l.has_azimuth() << l.has_directions() << " "
          << bits(l.length()) << " ";
        const bool moves = l.length() > 0;
        if (moves and l.has_azimuth()) o << bits(l.azimuth());
        o << " " << bits(l.directions()) << " " << bits(l.absolute_directions());
        for (std::size_t i = 0; i + 1 < l.size(); ++i) {
            o << " " << bits(l.length(i));
            const auto s = l.rich_segment(i);
            o << ":" << bits(s.length());
            if (s.has_azimuth()) o << ":" << bits(s.azimuth());
        }
        o << "\n";
    }
    return o.str();
}

static void same(const Model &a, const Model &b, const char *what) {
    require_eq(b.nodes.size(), a.nodes.size(), what, ": number of nodes");
    require_eq(b.roads.size(), a.roads.size(), what, ": number of roads");
    for (std::size_t i = 0; i < a.nodes.size(); ++i) {
        require(a.nodes[i].id == b.nodes[i].id and a.nodes[i].p == b.nodes[i].p, what, ": node ", a.nodes[i].id);
        require(a.nodes[i].tags == b.nodes[i].tags, what, ": attributes of node ", a.nodes[i].id);
    }
    for (std::size_t i = 0; i < a.roads.size(); ++i) {
        require(a.roads[i].id == b.roads[i].id and a.roads[i].s == b.roads[i].s and a.roads[i].t == b.roads[i].t, what, ": road ", a.roads[i].id);
        require(a.roads[i].pts == b.roads[i].pts, what, ": line of road ", a.roads[i].id);
    }
    require(a.tags == b.tags, what, ": attributes of roads");
}

template<typename S>
static void transport(Ctx &c) {
    using network_type = typename S::network;
    using opened_type = typename Types<S>::opened;
    using point = typename network_type::point_type;
    using segment = typename network_type::segment_type;
    Opt o;
    o.grid = static_cast<int>(c.s.pick({2, 6, 15, 40}));
    const bool big = c.s.chance(15);
    o.max_nodes = big ? 250 : 14;
    o.max_ways = big ? 120 : 7;
    o.max_extra = big ? 60 : 4;
    o.coincident = c.s.chance(30);
    o.repeated = c.s.chance(30);
    Model m = generate<S>(c, o);
    // positions that are no short binary numbers
    const double fx = c.s.chance(70) ? 1 + c.s.unit() / 100 : 1, fy = c.s.chance(70) ? 1 - c.s.unit() / 100 : 1;
    for (auto &n : m.nodes) n.p = {n.p[0] * fx, n.p[1] * fy};
    for (auto &r : m.roads) for (auto &p : r.pts) p = {p[0] * fx, p[1] * fy};
    // attributes with all kinds of texts, big identifiers
    for (std::size_t k = c.s.below(4); k > 0; --k) {
        std::string text(c.s.size(0, 300), 'x');
        for (auto &ch : text) ch = static_cast<char>(c.s.range(1, 255));
        if (c.s.flip()) m.nodes[c.s.below(m.nodes.size())].tags.insert({text.substr(0, 40), text});
        else m.tags[1 + c.s.below(5)].insert({"t", text});
    }
    if (c.s.chance(20)) for (auto &n : m.nodes) n.id += 0x7000000000000000ull;
    if (c.s.chance(5)) m.nodes.clear(), m.roads.clear(), m.tags.clear();
    if (m.nodes.size() < 60) describe(c, m); else c.note(m.nodes.size(), " nodes, ", m.roads.size(), " roads");
    auto import = imported<S>(m);
    auto net = std::make_unique<network_type>();
    prepare(*net, *import);
    // measures are computed when asked for
    std::size_t asked = 0;
    {
        auto ev = net->graph().edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            const auto &l = net->edge(it).rich_line;
            if (c.s.chance(30)) { static_cast<void>(l.length()), ++asked; }
            if (c.s.chance(20)) { static_cast<void>(l.directions()), ++asked; }
            if (c.s.chance(20) and l.length() > 0 and l.has_azimuth()) static_cast<void>(l.azimuth());
        }
    }
    Place place{c.s.flip() ? "" : "_a"};
    const auto path = [&](const std::string &f) { return place.folder + "/" + f; };
    // a former file is replaced
    if (c.s.chance(20)) for (auto &f : {place.out.files.graph_file, place.out.files.tags_file, place.out.files.index_file})
        std::ofstream{path(f)} << std::string(c.s.below(5000), 'z');
    mm::app::save_network(*net, place.out);
    if (c.s.chance(20)) mm::app::save_network(*net, place.out);

    auto other = std::make_unique<opened_type>();
    const auto tags = [&] { mm::io::serialization::deserializer d{path(place.in.files.tags_file), other->tag_helper()}; d.read(); };
    const auto index = [&] { mm::io::serialization::deserializer d{path(place.in.files.index_file), other->index_helper()}; d.read(); };
    const auto graph = [&] { mm::io::serialization::deserializer d{path(place.in.files.graph_file), other->graph_helper()}; d.read(); };
    const auto order = c.s.below(7);
    c.note(" | order ", order);
    switch (order) {
        case 0: tags(), index(), graph(); break;
        case 1: tags(), graph(), index(); break;
        case 2: index(), tags(), graph(); break;
        case 3: index(), graph(), tags(); break;
        case 4: graph(), index(), tags(); break;
        case 5: graph(), tags(), index(); break;
        default: mm::app::load_network(*other, place.in);
    }
    if (c.s.chance(15)) { // missing files are reported
        const std::string f = c.s.pick(std::vector<std::string>{place.in.files.tags_file, place.in.files.index_file, place.in.files.graph_file});
        std::filesystem::remove(path(f));
        bool thrown = false;
        try { auto third = std::make_unique<opened_type>(); mm::app::load_network(*third, place.in); } catch (const std::runtime_error &) { thrown = true; }
        require(thrown, "a missing file is not reported");
    }
    // what was loaded does not need what was saved
    const Model a = read(*net, "before");
    const std::string fa = facts(*net);
    require(net->tag_helper().tag_storage().is_finalized() == other->tag_helper().tag_storage().is_finalized(), "the loaded store is not finalized as the saved one");
    if (c.s.chance(30)) net.reset(new network_type{}), prepare(*net, *imported<S>(m)); // must not be needed
    same(a, read(*other, "loaded"), "loaded");
    const std::string fb = facts(*other);
    require(fa == fb, "measures of the roads:\n", fa.substr(0, 400), "\nand loaded\n", fb.substr(0, 400));
    // queries
    const auto places = [&]() -> P {
        if (not a.roads.empty() and c.s.chance(40)) { const auto &r = c.s.pick(a.roads); return c.s.pick(r.pts); }
        return {(S::x0 + S::dx * (c.s.unit() * (o.grid + 2) - 1)) * fx, (S::y0 + S::dy * (c.s.unit() * (o.grid + 2) - 1)) * fy};
    };
    struct Query { P p, q; unsigned k; std::size_t s, t; };
    std::vector<Query> qs;
    for (std::size_t k = c.s.size(1, 6); k > 0; --k)
        qs.push_back({places(), places(), static_cast<unsigned>(c.s.pick({1, 3, 10})), a.nodes.empty() ? 0 : c.s.below(a.nodes.size()), a.nodes.empty() ? 0 : c.s.below(a.nodes.size())});
    if (a.nodes.empty()) qs.clear();
    const auto answers = [&](auto &n) {
        using N = std::remove_cvref_t<decltype(n)>;
        using vertex = typename N::vertex_descriptor;
        using box = typename N::rtree_points_type::bounds_type;
        mm::graph::predecessors_type predecessors;
        mm::graph::distances_type<typename N::length_type> dist;
        mm::graph::colors_type colors;
        mm::graph::priority_queue_type<mm::graph::priority_type<typename N::length_type, vertex>> queue;
        std::vector<std::string> r;
        for (auto &q : qs) {
            std::ostringstream out;
            out << std::hex;
            const point p{q.p[0], q.p[1]};
            std::multiset<std::uint64_t> d;
            for (auto &x : n.query_points(bgi::nearest(p, q.k))) d.insert(bits(mm::geometry::distance(p, x.first)));
            out << "nearest nodes"; for (auto x : d) out << " " << x;
            d.clear();
            for (auto &x : n.query_segments(bgi::nearest(p, q.k))) d.insert(bits(mm::geometry::distance(p, segment{x.first.first, x.first.second})));
            out << " roads"; for (auto x : d) out << " " << x;
            const box b{point{std::min(q.p[0], q.q[0]), std::min(q.p[1], q.q[1])}, point{std::max(q.p[0], q.q[0]), std::max(q.p[1], q.q[1])}};
            std::set<std::pair<std::size_t, std::size_t>> hits;
            for (auto &x : n.query_points(bgi::intersects(b))) hits.insert({x.second, 0});
            out << " nodes in"; for (auto &x : hits) out << " " << x.first;
            hits.clear();
            for (auto &x : n.query_segments(bgi::intersects(b))) hits.insert(x.second);
            out << " roads in"; for (auto &x : hits) out << " " << x.first << "." << x.second;
            out << " at";
            const auto [f1, v1] = n.point_in_nodes(p); out << " " << f1;
            const auto [f2, v2] = n.point_in_edges(p); out << " " << f2;
            for (auto v : n.find_node(a.nodes[q.s].id)) out << " " << v;
            if (not a.roads.empty()) for (auto v : n.find_edge(a.roads[q.s % a.roads.size()].id)) out << " " << v;
            const auto bb = n.bounds();
            out << " bounds"; for (double x : {to_p(bb.min_corner())[0], to_p(bb.min_corner())[1], to_p(bb.max_corner())[0], to_p(bb.max_corner())[1]}) out << " " << bits(x);
            const auto path = n.a_star_shortest_paths(q.s, q.t, S::dist(a.nodes[q.s].p, a.nodes[q.t].p) + S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0}), 4.0, predecessors, dist, colors, queue);
            out << " route " << path.empty();
            if (not path.empty()) {
                const auto route = n.extract_route(path);
                out << " " << bits(route.length());
            }
            r.push_back(out.str());
        }
        return r;
    };
    const auto ra = answers(*net), rb = answers(*other);
    for (std::size_t i = 0; i < ra.size(); ++i) require(ra[i] == rb[i], "answers to query ", i, ": ", ra[i], " and loaded ", rb[i]);
    if (asked) c.count("measures taken before");
    c.nontrivial(a.roads.size() >= 4);
}

// attribute stores also before they are finalized
static void stores(Ctx &c) {
    using H = Types<Cartesian>::tags;
    using T = std::pair<std::string, std::string>;
    H a;
    std::vector<T> pool;
    for (std::size_t k = c.s.size(0, 30); k > 0; --k) {
        const auto word = [&] {
            std::string w(c.s.chance(30) ? c.s.size(0, 300) : c.s.size(0, 3), 'x');
            for (auto &ch : w) ch = static_cast<char>(c.s.flip() ? c.s.range(1, 255) : c.s.range('a', 'c'));
            return w;
        };
        pool.push_back({word(), word()});
    }
    std::map<T, std::uint64_t> ids;
    std::map<std::uint64_t, std::vector<std::uint64_t>> tags[2];
    for (auto &t : pool) ids[t] = a.id(t.first, t.second);
    for (std::size_t k = c.s.below(20); k > 0 and not pool.empty(); --k) {
        std::vector<std::uint64_t> list;
        for (std::size_t q = c.s.size(1, 5); q > 0; --q) list.push_back(ids[c.s.pick(pool)]);
        const std::uint64_t id = c.s.chance(20) ? ~c.s.below(5) : c.s.below(30);
        const bool road = c.s.flip();
        if (road) a.copy_edge_tags(id, list); else a.copy_node_tags(id, list);
        tags[road].emplace(id, list);
    }
    const bool final = c.s.flip();
    if (final) a.finalize();
    c.note(pool.size(), " attributes, ", tags[0].size(), " nodes, ", tags[1].size(), " roads, ", final);
    Place place;
    const auto file = place.folder + "/tags.bin";
    { mm::io::serialization::serializer w{file, a}; w.write(); }
    H b;
    { mm::io::serialization::deserializer r{file, b}; r.read(); }
    require(b.tag_storage().is_finalized() == final, "finalized");
    for (auto &[t, id] : ids) require(b.tag(id) == t, "attribute ", id);
    for (std::uint64_t k = 0; k < 35; ++k) for (int road = 0; road < 2; ++road) {
        const std::uint64_t id = k < 30 ? k : ~(k - 30);
        const auto &got = road ? b.edge_tags(id) : b.node_tags(id);
        const auto want = tags[road].contains(id) ? tags[road][id] : std::vector<std::uint64_t>{};
        require(std::equal(got.begin(), got.end(), want.begin(), want.end()), "attributes of ", road ? "road " : "node ", id);
    }
    if (not final) {
        for (auto &[t, id] : ids) require(b.id(t.first, t.second) == id, "identifier of ", t.first);
        for (int k = 0; k < 3; ++k) {
            const T t{"new" + std::to_string(k), "values"};
            if (ids.contains(t)) continue;
            const auto x = a.id(t.first, t.second), y = b.id(t.first, t.second);
            require_eq(y, x, "identifier of a new attribute");
            require(b.tag(y) == t, "a new attribute");
        }
        for (auto &[t, id] : ids) require(b.tag(id) == t, "attribute ", id, " after new ones");
    } else {
        bool thrown = false;
        try { static_cast<void>(b.id("one", "more")); } catch (const std::runtime_error &) { thrown = true; }
        require(thrown, "a finalized store takes attributes after loading");
    }
    c.nontrivial(ids.size() >= 3 and tags[0].size() + tags[1].size() >= 2);
}

void pbt::define(Suite &s) {
    s.property = "S01";
    const std::string rule = "networks of up to 250 nodes with arbitrary positions, texts of all bytes, identifiers up to 8e18, saved once or twice over other files and read in any order; "
        "non-trivial: four roads";
    s.add("transport cartesian", rule, 48000, 1600000, transport<Cartesian>);
    s.add("transport geographic", rule, 24000, 800000, transport<Geographic>);
    s.add("transport spherical", rule, 24000, 800000, transport<Spherical>);
    s.add("stores", "attribute stores of up to 30 attributes before and after finalizing; non-trivial: three attributes, two objects", 90000, 3200000, stores);
    s.add("routing cartesian", "routing as in N01 on a loaded network; non-trivial: a route over three roads or more", 36000, 1200000, routing<Saved<Cartesian>>);
    s.add("routing geographic", "same in geographic coordinates", 18000, 600000, routing<Saved<Geographic>>);
    s.add("queries cartesian", "queries as in N02 on a loaded network; non-trivial: a box that some but not all roads meet", 36000, 1200000, queries<Saved<Cartesian>>);
    s.add("queries spherical", "same in spherical coordinates", 12000, 400000, queries<Saved<Spherical>>);
}
