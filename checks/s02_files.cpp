// S02: file-backed storage behaves like memory across growth, shrinking and reopening.
#include "flatmap_serialization.hpp"
#include "osmgen.hpp"
#include <bit>
#include "app/prepare.hpp"
#include <osmium/builder/attr.hpp>
#include <osmium/memory/buffer.hpp>
namespace pbt { void define_n01(Suite &); void define_n02(Suite &); }
#define define define_n01
#include "n01_routing.cpp"
#undef define
#define define define_n02
#include "n02_queries.cpp"
#undef define

namespace st = mm::io::memory_mapped::storage;
using memory_tags = MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES);

template<typename S>
struct Files {
    using import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(typename S::cs, MM2_MMAP_TYPES, memory_tags));
    using import_helper = MM2_GRAPH_HELPER_IMPORT(typename S::cs, MM2_MMAP_TYPES, memory_tags);
    using tags = MM2_TAG_HELPER(MM2_MEMORY_TYPES);
    using graph_helper = MM2_GRAPH_HELPER(typename S::cs, MM2_MMAP_TYPES, tags);
    using written = MM2_NETWORK(graph_helper, MM2_INDEX_HELPER(typename S::cs, MM2_MMAP_TYPES, MM2_MEMORY_TYPES));
    using written_build = MM2_NETWORK(graph_helper, MM2_INDEX_HELPER(typename S::cs, MM2_MMAP_TYPES, MM2_MMAP_TYPES));
    using opened = MM2_NETWORK(graph_helper, MM2_INDEX_HELPER_READ_ONLY(typename S::cs, MM2_MMAP_TYPES));
};

struct Folder {
    std::string path = scratch() + "/files";
    Folder() { std::filesystem::remove_all(path), std::filesystem::create_directories(path); }
    ~Folder() { std::filesystem::remove_all(path); }
};

// takes the free space of a store until at most so many bytes remain
static std::size_t exhaust(auto *manager, std::size_t remaining) {
    std::size_t taken = 0;
    for (std::size_t want = manager->get_free_memory(); want >= 1;) {
        const std::size_t free = manager->get_free_memory();
        if (free <= remaining) break;
        want = std::min(want, free - remaining);
        if (manager->allocate(want, std::nothrow)) taken += want;
        else want = want > 64 ? want * 7 / 8 : want - 1;
    }
    return taken;
}

struct Shortage {
    Ctx &c;
    int left;
    unsigned chance;
    template<typename Helper>
    void operator()(Helper &h) {
        if (left > 0 and c.s.chance(chance / 8)) --left, h.graph_storage().grow(), c.note("{grow}");
        if (left > 0 and c.s.chance(chance)) {
            --left;
            const std::size_t r = c.s.flip() ? c.s.below(64) : c.s.size(0, 1500);
            const auto taken = exhaust(h.allocator().get_segment_manager(), r);
            c.note("{", taken, "/", r, "}");
            c.count("shortages");
        }
    }
};

static osmium::memory::Buffer osm_tags(const Tags &t) {
    osmium::memory::Buffer b{4096, osmium::memory::Buffer::auto_grow::yes};
    { osmium::builder::TagListBuilder builder{b}; for (auto &[k, v] : t) builder.add_tag(k, v); }
    b.commit();
    return b;
}

// inserts in some order through all interfaces there are
template<typename Memory, typename Import>
static void insert(Import &net, memory_tags &other, const Model &m, const std::vector<int> &ways, auto &&shortage, bool nodes_first = false) {
    using node_type = typename Memory::vertex_data_type;
    using edge_type = typename Memory::edge_data_type;
    using rich_line_type = typename Memory::rich_line_type;
    using line_type = typename Memory::line_type;
    auto &h = net.graph_helper();
    std::vector<typename Import::vertex_size_type> index(m.nodes.size());
    std::vector<bool> done(m.nodes.size(), false);
    std::size_t step = 0;
    const auto node = [&](int i) {
        if (done[i]) return;
        done[i] = true;
        auto &n = m.nodes[i];
        const node_type data{n.id, {n.p[0], n.p[1]}};
        shortage(h);
        switch (ways[step++ % ways.size()]) {
            case 0: { auto b = osm_tags(n.tags); index[i] = h.add_vertex_with_index_mapping(data, *b.template begin<osmium::TagList>()); break; }
            case 1: index[i] = h.add_vertex_with_index_mapping(data, other); break;
            default: if (n.tags.empty()) index[i] = h.add_vertex_with_index_mapping(data); else index[i] = h.add_vertex_with_index_mapping(data, other);
        }
        require_eq(static_cast<std::size_t>(index[i]), static_cast<std::size_t>(std::count(done.begin(), done.end(), true) - 1), "index of a node");
    };
    if (nodes_first) for (std::size_t i = 0; i < m.nodes.size(); ++i) node(static_cast<int>(i));
    for (auto &r : m.roads) {
        node(r.s), node(r.t);
        line_type line;
        for (auto &p : r.pts) line.push_back({p[0], p[1]});
        const edge_type data{r.id, rich_line_type{std::move(line)}};
        shortage(h);
        const auto tags = m.tags.find(r.id);
        switch (ways[step++ % ways.size()]) {
            case 0: { auto b = osm_tags(tags == m.tags.end() ? Tags{} : tags->second); h.add_edge(index[r.s], index[r.t], data, *b.template begin<osmium::TagList>()); break; }
            case 1: h.add_edge(index[r.s], index[r.t], data, other); break;
            default: if (tags == m.tags.end() or tags->second.empty()) h.add_edge(index[r.s], index[r.t], data); else h.add_edge(index[r.s], index[r.t], data, other);
        }
    }
    for (std::size_t i = 0; i < m.nodes.size(); ++i) node(static_cast<int>(i));
}

static void same(const Model &want, const Model &got, const std::string &what) {
    require_eq(got.nodes.size(), want.nodes.size(), what, ": number of nodes");
    require_eq(got.roads.size(), want.roads.size(), what, ": number of roads");
    for (std::size_t i = 0; i < want.nodes.size(); ++i)
        require(want.nodes[i].id == got.nodes[i].id and want.nodes[i].p == got.nodes[i].p and want.nodes[i].tags == got.nodes[i].tags, what, ": node ", want.nodes[i].id, " and ", got.nodes[i].id);
    for (std::size_t i = 0; i < want.roads.size(); ++i) {
        require(want.roads[i].id == got.roads[i].id and want.roads[i].s == got.roads[i].s and want.roads[i].t == got.roads[i].t, what, ": road ", want.roads[i].id, " and ", got.roads[i].id);
        require(want.roads[i].pts == got.roads[i].pts, what, ": line of road ", want.roads[i].id);
    }
    require(want.tags == got.tags, what, ": attributes of roads");
}

// a chain of many short roads, as long ways are
template<typename S>
static void add_chain(Ctx &c, Model &m) {
    const std::size_t n = c.s.size(10, 250);
    const bool both = c.s.flip();
    int prev = m.nodes.empty() or c.s.flip() ? -1 : static_cast<int>(c.s.below(m.nodes.size()));
    std::uint64_t id = 1000;
    const unsigned change = c.s.pick({0u, 5u}), split = c.s.pick({0u, 0u, 20u, 100u});
    for (std::size_t k = 0; k < n; ++k) {
        const int next = static_cast<int>(m.nodes.size());
        m.nodes.push_back({10000 + m.nodes.size(), {S::x0 + S::dx * static_cast<double>(k), S::y0 - S::dy * static_cast<double>(1 + k % 2)}, {}});
        if (prev >= 0) {
            if (c.s.chance(change)) ++id;
            m.roads.push_back({prev, next, id, {m.nodes[prev].p, m.nodes[next].p}});
            if (both) m.roads.push_back({next, prev, id, {m.nodes[next].p, m.nodes[prev].p}});
        }
        prev = next;
        if (c.s.chance(split)) { // the next road begins at another node at the same place
            prev = static_cast<int>(m.nodes.size());
            m.nodes.push_back({10000 + m.nodes.size(), m.nodes[next].p, {}});
        }
    }
    c.note("[chain of ", n, both ? " both" : "", split ? " split" : "", "]");
}

template<typename S>
static Model some_model(Ctx &c, bool chain) {
    Opt o;
    o.grid = static_cast<int>(c.s.pick({3, 6}));
    const bool big = c.s.chance(20);
    o.max_nodes = big ? 150 : 16;
    o.max_ways = big ? 60 : 8;
    o.coincident = c.s.chance(40);
    o.repeated = c.s.chance(30);
    o.max_shape = c.s.chance(20) ? 60 : 3;
    Model m = generate<S>(c, o);
    if (m.nodes.size() < 40) describe(c, m); else c.note(m.nodes.size(), " nodes, ", m.roads.size(), " roads ");
    if (chain) add_chain<S>(c, m);
    return m;
}

using namespace og;
static std::size_t initial(Ctx &c) { return c.s.pick({std::size_t{4096}, std::size_t{8192}, std::size_t{16384}, std::size_t{65536}}); }

template<typename S>
static auto file_import(Ctx &c, const Folder &f) {
    using T = Files<S>;
    using storage = typename T::import_helper::graph_storage_type;
    return std::make_unique<typename T::import>(typename T::import_helper{
        storage{f.path, "graph_import.bin", st::DESTROY_AND_CREATE, initial(c), st::DESTROY_ON_CLOSE}, memory_tags{}});
}

template<typename S>
struct Both { std::unique_ptr<typename S::import> memory; std::unique_ptr<typename Files<S>::import> file; };
template<typename S>
static Both<S> inserted(Ctx &c, const Model &m, const Folder &f, Shortage &shortage) {
    memory_tags other;
    struct { memory_tags &t; memory_tags &tag_helper() { return t; } } holder{other};
    add_tags(holder, m);
    std::vector<int> ways;
    for (std::size_t k = c.s.size(1, 4); k > 0; --k) ways.push_back(static_cast<int>(c.s.below(3)));
    auto memory = std::make_unique<typename S::import>();
    auto file = file_import<S>(c, f);
    insert<typename S::import>(*memory, other, m, ways, [](auto &) {});
    insert<typename S::import>(*file, other, m, ways, shortage);
    return {std::move(memory), std::move(file)};
}

template<typename S>
static void insertion(Ctx &c) {
    const Model m = some_model<S>(c, c.s.chance(20));
    Folder f;
    Shortage shortage{c, 6, static_cast<unsigned>(c.s.pick({5, 20, 60}))};
    auto [memory, file] = inserted<S>(c, m, f, shortage);
    same(read(*memory, "memory"), read(*file, "file"), "after insertion");
    c.nontrivial(shortage.left < 5 and m.roads.size() >= 4);
}

// the steps a preparation takes
template<typename S>
static void cleaning(Ctx &c) {
    const bool chain = c.s.chance(50);
    const Model m = some_model<S>(c, chain);
    Folder f;
    Shortage none{c, 2, 5};
    auto [memory, file] = inserted<S>(c, m, f, none);
    Shortage shortage{c, 3, 60};
    mm::app::prepare_data data;
    data.process.simplify = c.s.pick({mm::app::SIMPLIFY_NONE, mm::app::SIMPLIFY_OSM_AWARE, mm::app::SIMPLIFY_ALL});
    data.process.remove_unconnected = c.s.chance(40);
    data.process.remove_duplicate_nodes = c.s.chance(60);
    data.process.remove_duplicate_edges = c.s.chance(60);
    const auto step = [&](const char *what, auto &&take) {
        shortage(file->graph_helper());
        take(memory);
        take(file);
        same(read(*memory, "memory"), read(*file, "file"), what);
    };
    step("after simplification", [&](auto &n) { mm::app::_simplify(n, data); });
    step("after removing unconnected parts", [&](auto &n) { mm::app::_remove_unconnected(n, data); });
    step("after removing duplicate nodes", [&](auto &n) { mm::app::_remove_duplicate_nodes(n, data); });
    step("after removing duplicate roads", [&](auto &n) { mm::app::_remove_duplicate_edges(n, data); });
    c.nontrivial(m.roads.size() >= 4);
}


// networks for matching: written, closed, opened
struct Places {
    mm::app::prepare_data out;
    mm::app::match_data in;
    explicit Places(const Folder &f, std::size_t size) {
        out.network.output = in.input.input = f.path;
        out.files.graph_file = in.files.graph_file = "graph.bin";
        out.files.tags_file = in.files.tags_file = "tags.bin";
        out.files.index_file = in.files.index_file = "index.bin";
        out.files.index_build_file = "index_build.bin";
        out.files.initial_size = size;
        out.memory.mmap_graph = out.memory.mmap_indices = in.memory.mmap_graph = in.memory.mmap_indices = true;
        out.memory.mmap_tags = in.memory.mmap_tags = false;
    }
};

struct Quiet { // growing is reported
    std::streambuf *before;
    std::ostringstream sink;
    Quiet() : before{std::cout.rdbuf(sink.rdbuf())} {}
    ~Quiet() { std::cout.rdbuf(before); }
};

static void nothing(auto &) {}

template<typename Network>
static void write(auto &import, const Places &place, auto &&graph_shortage, auto &&build_shortage, auto &&index_shortage) {
    Quiet quiet;
    auto net = mm::app::_create_network<Network>(place.out);
    graph_shortage(net->graph_helper());
    net->graph_helper().from_adjacency_list(import.graph_helper(), import.tag_helper());
    build_shortage(net->index_helper().index_build_helper());
    index_shortage(net->index_helper());
    net->build_spatial_indices();
    mm::app::save_network(*net, place.out);
}

template<typename S>
static auto open(const Places &place) {
    auto net = mm::app::_open_network<typename Files<S>::opened>(place.in);
    mm::app::load_network(*net, place.in);
    return net;
}

template<typename Base>
struct Backed : Base {
    using network = typename Files<Base>::opened;
    static std::size_t size(std::size_t n) { const std::size_t sizes[] = {4096, 8192, 65536}; return sizes[n % 3]; }
    static auto imported(const Model &m) {
        struct Dir : Folder { Dir() { path = scratch() + "/import", std::filesystem::remove_all(path), std::filesystem::create_directories(path); } } f;
        using T = Files<Base>;
        using storage = typename T::import_helper::graph_storage_type;
        auto file = std::make_unique<typename T::import>(typename T::import_helper{
            storage{f.path, "graph_import.bin", st::DESTROY_AND_CREATE, size(m.nodes.size()), st::DESTROY_ON_CLOSE}, memory_tags{}});
        memory_tags other;
        struct { memory_tags &t; memory_tags &tag_helper() { return t; } } holder{other};
        add_tags(holder, m);
        insert<typename Base::import>(*file, other, m, {1}, [](auto &) {}, true);
        return file;
    }
    template<typename Import>
    static auto prepared(Import &import) {
        Folder f;
        const Places place{f, size(import.graph().edges_view().size())};
        write<typename Files<Base>::written>(import, place, [](auto &) {}, [](auto &) {}, [](auto &) {});
        return open<Base>(place);
    }
};

static std::uint64_t bits(double x) { return std::bit_cast<std::uint64_t>(x); }

template<typename S>
static void reopening(Ctx &c) {
    using point = typename S::network::point_type;
    using segment = typename S::network::segment_type;
    const Model m = some_model<S>(c, c.s.chance(20));
    auto import = imported<S>(m);
    auto memory = std::make_unique<typename S::network>();
    prepare(*memory, *import);
    Folder f;
    const Places place{f, initial(c)};
    const auto shortage = [&](auto &h) {
        if constexpr (requires { h.allocator().get_segment_manager(); }) {
            if (c.s.chance(30)) {
                const std::size_t r = c.s.flip() ? c.s.below(64) : c.s.size(0, 3000);
                const auto taken = exhaust(h.allocator().get_segment_manager(), r);
                c.note("{", taken, "/", r, "}");
                c.count("shortages");
            }
        }
    };
    const bool build = c.s.flip();
    const std::size_t times = c.s.chance(15) ? 2 : 1; // a former network is replaced
    for (std::size_t k = 0; k < times; ++k) {
        // the import may be in a file as well
        if (c.s.flip()) {
            auto from = Backed<S>::imported(m);
            if (build) write<typename Files<S>::written_build>(*from, place, shortage, shortage, shortage);
            else write<typename Files<S>::written>(*from, place, shortage, shortage, shortage);
        } else if (build) write<typename Files<S>::written_build>(*import, place, shortage, shortage, shortage);
        else write<typename Files<S>::written>(*import, place, shortage, shortage, shortage);
    }
    require(not std::filesystem::exists(f.path + "/index_build.bin"), "the buffer for building is left");
    const std::size_t opened = c.s.chance(20) ? 2 : 1; // several readers at once
    std::vector<decltype(open<S>(place))> nets;
    for (std::size_t k = 0; k < opened; ++k) nets.push_back(open<S>(place));
    const Model a = read(*memory, "memory");
    struct Query { P p, q; unsigned k; };
    std::vector<Query> qs;
    const auto spot = [&]() -> P {
        if (not a.roads.empty() and c.s.chance(40)) { const auto &r = c.s.pick(a.roads); return c.s.pick(r.pts); }
        return {S::x0 + S::dx * (c.s.unit() * 8 - 1), S::y0 + S::dy * (c.s.unit() * 8 - 1)};
    };
    for (std::size_t k = c.s.size(1, 5); k > 0; --k) qs.push_back({spot(), spot(), static_cast<unsigned>(c.s.pick({1, 3, 10}))});
    const auto answers = [&](auto &n) {
        using box = typename std::remove_cvref_t<decltype(n)>::rtree_points_type::bounds_type;
        std::vector<std::string> r;
        std::ostringstream all;
        all << std::hex << "sizes " << n.points_index().size() << " " << n.segments_index().size();
        std::multiset<std::pair<std::size_t, std::pair<std::uint64_t, std::uint64_t>>> points;
        for (auto &x : n.points_index()) points.insert({x.second, {bits(to_p(x.first)[0]), bits(to_p(x.first)[1])}});
        for (auto &[i, p] : points) all << " " << i << ":" << p.first << "," << p.second;
        std::multiset<std::pair<std::pair<std::size_t, std::size_t>, std::vector<std::uint64_t>>> segments;
        for (auto &x : n.segments_index()) segments.insert({x.second, {bits(to_p(x.first.first)[0]), bits(to_p(x.first.first)[1]), bits(to_p(x.first.second)[0]), bits(to_p(x.first.second)[1])}});
        for (auto &[i, s] : segments) { all << " " << i.first << "." << i.second << ":"; for (auto b : s) all << b << ","; }
        r.push_back(all.str());
        for (auto &q : qs) {
            std::ostringstream out;
            out << std::hex;
            const point p{q.p[0], q.p[1]};
            std::multiset<std::uint64_t> d;
            for (auto &x : n.query_points(bgi::nearest(p, q.k))) d.insert(bits(mm::geometry::distance(p, x.first)));
            out << "nearest nodes"; for (auto x : d) out << " " << x;
            d.clear();
            for (auto &x : n.query_segments(bgi::nearest(p, q.k))) d.insert(bits(mm::geometry::distance(p, segment{x.first.first, x.first.second})));
            out << " roads"; for (auto x : d) out << " " << x;
            const box b{point{std::min(q.p[0], q.q[0]), std::min(q.p[1], q.q[1])}, point{std::max(q.p[0], q.q[0]), std::max(q.p[1], q.q[1])}};
            std::set<std::pair<std::size_t, std::size_t>> hits;
            for (auto &x : n.query_points(bgi::intersects(b))) hits.insert({x.second, 0});
            out << " nodes in"; for (auto &x : hits) out << " " << x.first;
            hits.clear();
            for (auto &x : n.query_segments(bgi::intersects(b))) hits.insert(x.second);
            out << " roads in"; for (auto &x : hits) out << " " << x.first << "." << x.second;
            r.push_back(out.str());
        }
        return r;
    };
    const auto ra = answers(*memory);
    for (auto &net : nets) {
        same(a, read(*net, "file"), "after opening");
        const auto rb = answers(*net);
        for (std::size_t i = 0; i < ra.size(); ++i) require(ra[i] == rb[i], "answers ", i, ": ", ra[i], " and from files ", rb[i]);
    }
    c.nontrivial(a.roads.size() >= 4);
}

// extracts read with buffers in files
template<typename S, typename Import>
static void read_extract(Ctx &c, Import &net, const Extract &all, const Selection &sel, const tg::Systems &sys, const Folder &f, Shortage &shortage) {
    using helper = std::remove_cvref_t<decltype(net.graph_helper())>;
    using osm_helper = MM2_OSM_HANDLER_HELPER(typename S::cs, MM2_MMAP_TYPES, memory_tags);
    using handler = MM2_OSM_HANDLER(helper, osm_helper);
    using storage = typename osm_helper::osm_handler_storage_type;
    osm_helper vertices{storage{f.path, "osm_vertices.bin", st::DESTROY_AND_CREATE, initial(c), st::DESTROY_ON_CLOSE}, memory_tags{}};
    if (c.s.chance(60)) exhaust(vertices.allocator().get_segment_manager(), c.s.size(0, 600)), c.count("shortages");
    if constexpr (not std::same_as<Import, typename S::import>) shortage(net.graph_helper());
    handler h{net.graph_helper(), sys.reprojector, std::move(vertices)};
    const std::vector<std::string> files{f.path + "/extract.osm"};
    std::ofstream{files[0], std::ios::binary} << to_xml(all, c.s);
    if (sel.profile == 0) { mm::io::network::osm_importer<handler> i{files, h}; i.read(); }
    else if (sel.profile == 1) { mm::io::network::osm_car_importer<handler> i{files, h}; i.read(); }
    else { mm::io::network::osm_manual_importer<handler> i{files, h, sel.query.text(), sel.filter.text(), sel.oneway.text(), sel.reverse.text()}; i.read(); }
}

template<typename S>
static void extracts(Ctx &c, const geo::srs_transform &tr) {
    Extract all = extract(c.s);
    // many nodes fill the buffers
    if (c.s.chance(40) and not all.nodes.empty()) {
        std::int64_t id = all.nodes.back().id;
        for (std::size_t k = c.s.size(1, 300); k > 0; --k) {
            all.nodes.push_back({++id, 115000000 + static_cast<std::int32_t>(k) * 1000, 482500000, {}, false});
            if (c.s.chance(20) and not all.ways.empty()) {
                auto &w = all.ways[c.s.below(all.ways.size())];
                if (w.refs.size() < 100 and (w.refs.empty() or w.refs.back() != id)) w.refs.push_back(id);
            }
        }
    }
    if (c.s.chance(20)) for (std::size_t i = all.nodes.size(); i > 1; --i) std::swap(all.nodes[i - 1], all.nodes[c.s.below(i)]);
    const Selection sel = selection(c.s);
    const tg::Systems sys{tr, geo::create_point_reprojector(tr), tr.transform};
    c.note(all.nodes.size(), " nodes, ", all.ways.size(), " ways");
    Folder f;
    Shortage shortage{c, 1, 60};
    const auto want = expected(all, sel, sys);
    Described got;
    if (c.s.flip()) { auto net = file_import<S>(c, f); read_extract<S>(c, *net, all, sel, sys, f, shortage); got = og::describe(*net, "imported"); }
    else { typename S::import net; read_extract<S>(c, net, all, sel, sys, f, shortage); got = og::describe(net, "imported"); }
    require(got == want, "imported ", got.text(), "\nexpected ", want.text());
    c.nontrivial(want.roads.size() >= 2);
}
static void extracts_any(Ctx &c) {
    if (c.s.flip()) extracts<ng::Geographic>(c, geo::compute_srs_transform(4326, "", 4326, ""));
    else extracts<ng::Cartesian>(c, geo::compute_srs_transform(4326, "", 3857, ""));
}

void pbt::define(Suite &s) {
    s.property = "S02";
    const std::string sizes = "networks of up to 150 nodes and chains of up to 250 roads in files of 4 to 64 KiB at first, whose free space is taken away before steps until at most 0 to 1500 bytes are left; ";
    s.add("insertion cartesian", sizes + "inserted through all interfaces; non-trivial: two shortages and four roads", 60000, 2000000, insertion<Cartesian>);
    s.add("insertion geographic", sizes + "same in geographic coordinates", 30000, 1000000, insertion<Geographic>);
    s.add("cleaning cartesian", sizes + "steps of the preparation; non-trivial: four roads", 60000, 2000000, cleaning<Cartesian>);
    s.add("cleaning spherical", sizes + "same in spherical coordinates", 30000, 1000000, cleaning<Spherical>);
    s.add("reopening cartesian", sizes + "written once or twice, closed and opened by one or two readers; non-trivial: four roads", 30000, 1000000, reopening<Cartesian>);
    s.add("reopening geographic", sizes + "same in geographic coordinates", 15000, 500000, reopening<Geographic>);
    s.add("extracts", "OpenStreetMap extracts of up to 314 nodes read with buffers in files; non-trivial: two roads", 6000, 200000, extracts_any);
    s.add("routing cartesian", "routing as in N01 on a network in files; non-trivial: a route over three roads or more", 20000, 600000, routing<Backed<Cartesian>>);
    s.add("queries cartesian", "queries as in N02 on a network in files; non-trivial: a box that some but not all roads meet", 20000, 600000, queries<Backed<Cartesian>>);
    s.add("queries geographic", "same in geographic coordinates", 10000, 300000, queries<Backed<Geographic>>);
}
