// G02: compressing a graph preserves it exactly.
#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "graphgen.hpp"
using namespace pbt;
using namespace gg;

template<typename Graph>
static void same(const Model &m, Graph &csr, bool undirected, const char *what) {
    auto vv = csr.vertices_view();
    require_eq(vv.size(), static_cast<std::size_t>(m.n), what, ": number of vertices");
    require_eq(csr.edges_view().size(), m.edges.size(), what, ": number of edges");
    std::size_t k = 0, total = 0;
    for (auto v = vv.begin(); v != vv.end(); v = vv.next(v), ++k) {
        require_eq(csr.get_vertex_data(v), m.vdata[k], what, ": data of vertex ", k);
        require_eq(csr.vertex_index(v), k, what, ": index");
        std::vector<Edge> out;
        for (auto &e : m.edges) if (e.s == static_cast<int>(k)) out.push_back(e);
        auto ov = csr.out_edges_view(v);
        require_eq(ov.size(), out.size(), what, ": out edges of vertex ", k);
        require_eq(csr.out_degree(v), out.size(), what, ": out degree of vertex ", k);
        require_eq(ov.empty(), out.empty(), what, ": emptiness");
        std::size_t i = 0;
        auto check = [&](auto ed, std::size_t at) {
            require_eq(csr.get_edge_data(ed).id, out[at].id, what, ": out edge ", at, " of vertex ", k);
            require_eq(csr.get_edge_data(ed).weight, out[at].w, what, ": weight of out edge ", at, " of vertex ", k);
            require_eq(csr.source(ed), k, what, ": source of out edge ", at, " of vertex ", k);
            require_eq(csr.target(ed), static_cast<std::size_t>(out[at].t), what, ": target of out edge ", at, " of vertex ", k);
            require_eq(csr.edge_index(ed), total + at, what, ": edge index");
        };
        for (auto o = ov.begin(); o != ov.end(); o = ov.next(o)) { check(o, i++); }
        require_eq(i, out.size(), what, ": forward iteration");
        if (not ov.empty()) {
            auto o = ov.end();
            i = out.size();
            do { o = ov.prev(o); check(o, --i); } while (o != ov.begin());
            require_eq(i, std::size_t{0}, what, ": backward iteration");
            require_eq(ov.front().data.id, out.front().id, what, ": front");
        }
        total += out.size();
    }
    (void) undirected;
}

template<typename Direction>
static void compress(Ctx &c) {
    list_graph<Direction> g;
    const Model m = build(c, g, 14, 40, true);
    csr_graph csr;
    csr.from_adjacency_list(g);
    same(m, csr, false, "compressed");
    const csr_graph &ref = csr;
    same(m, const_cast<const csr_graph &>(ref), false, "const view");
    csr_graph copy{csr};
    same(m, copy, false, "copy");
    csr_graph assigned;
    assigned = copy;
    same(m, assigned, false, "assigned");
    csr_graph moved{std::move(assigned)};
    same(m, moved, false, "moved");
    std::stringstream ss;
    { boost::archive::binary_oarchive ar(ss); ar << csr; }
    csr_graph loaded;
    { boost::archive::binary_iarchive ar(ss); ar >> loaded; }
    same(m, loaded, false, "saved and loaded");

    // converters see every element once, in order
    std::vector<int> seen_v, seen_e;
    mm::graph::compressed_sparse_row<std::vector, std::vector, mm::graph::directional, double, double> other;
    other.from_adjacency_list(g, std::allocator<void>{},
            [&](int d, const std::allocator<void> &) { seen_v.push_back(d); return d + 0.5; },
            [&](const Weighted &w, const std::allocator<void> &) { seen_e.push_back(w.id); return w.weight + w.id; });
    require(seen_v == m.vdata, "vertex converter calls");
    std::vector<int> expect;
    for (int v = 0; v < m.n; ++v) for (auto &e : m.edges) if (e.s == v) expect.push_back(e.id);
    require(seen_e == expect, "edge converter calls");
    for (int v = 0; v < m.n; ++v) require_eq(other.get_vertex_data(v), m.vdata[v] + 0.5, "converted vertex");
    std::vector<bool> has(m.n, false);
    for (auto &e : m.edges) has[e.s] = true;
    bool gap = false;
    for (int v = 0; v < m.n; ++v) gap = gap or not has[v];
    c.nontrivial(m.n >= 3 and m.edges.size() >= 3);
    if (gap) c.label("vertex without out edges");
    if (m.n > 0 and not has[m.n - 1]) c.label("trailing vertex without out edges");
}

static void undirected(Ctx &c) {
    list_graph<mm::graph::undirected> g;
    const Model m = build(c, g, 10, 25, false);
    csr_graph csr;
    csr.from_adjacency_list(g);
    same(m, csr, true, "compressed undirected");
    c.nontrivial(m.edges.size() >= 3);
}

// a positional view over containers of every kind
static void views(Ctx &c) {
    std::vector<int> v;
    std::list<int> l;
    const std::size_t n = c.s.size(1, 12);
    for (std::size_t i = 0; i < n; ++i) { int x = static_cast<int>(c.s.below(1000)); v.push_back(x); l.push_back(x); }
    const std::size_t a = c.s.below(n + 1), b = static_cast<std::size_t>(c.s.range(a, n));
    c.note("n=", n, " [", a, ",", b, ")");
    // subviews do not offer positions from the end
    auto check = [&]<bool full>(std::bool_constant<full>, const auto &view, std::size_t from, std::size_t to, const char *what) {
        require_eq(view.size(), to - from, what, ": size");
        require_eq(view.empty(), to == from, what, ": empty");
        std::size_t i = from;
        for (auto it = view.begin(); it != view.end(); it = view.next(it)) require_eq(view[it], v[i++], what, ": forward");
        require_eq(i, to, what, ": forward count");
        if (from == to) return;
        auto it = view.end();
        do { it = view.prev(it); require_eq(view[it], v[--i], what, ": backward"); } while (it != view.begin());
        require_eq(i, from, what, ": backward count");
        require_eq(view.front(), v[from], what, ": front");
        if constexpr (full) {
        for (std::size_t j = 0; j < to - from; ++j) require_eq(view.at(static_cast<std::ptrdiff_t>(j)), v[from + j], what, ": at");
        require_eq(view.back(), v[to - 1], what, ": back");
        for (std::size_t j = 1; j < to - from; ++j) require_eq(view.at(-static_cast<std::ptrdiff_t>(j)), v[to - j], what, ": at from the end");
        for (std::ptrdiff_t bad : {static_cast<std::ptrdiff_t>(to - from), static_cast<std::ptrdiff_t>(to - from + 3), -static_cast<std::ptrdiff_t>(to - from + 1)}) {
            bool threw = false;
            try { (void) view.at(bad); } catch (const std::invalid_argument &) { threw = true; }
            require(threw, what, ": position ", bad, " is refused");
        }
        }
    };
    check(std::true_type{}, mm::graph::container_view<std::vector<int>>{v}, 0, n, "view of a vector");
    check(std::true_type{}, mm::graph::container_view<const std::vector<int>>{v}, 0, n, "view of a const vector");
    check(std::true_type{}, mm::graph::container_view<std::list<int>>{l}, 0, n, "view of a list");
    check(std::true_type{}, mm::graph::container_view<const std::list<int>>{l}, 0, n, "view of a const list");
    check(std::false_type{}, mm::graph::container_subview<std::vector<int>>{v, a, b}, a, b, "subview of a vector");
    check(std::false_type{}, mm::graph::container_subview<const std::vector<int>>{v, a, b}, a, b, "subview of a const vector");
    c.nontrivial(n >= 3 and a > 0 and b > a + 1);
}

void pbt::define(Suite &s) {
    s.property = "G02";
    s.add("bidirectional", "graphs left behind by insertions and removals (up to 14 vertices, 40 edges), compared element "
          "by element with the model; non-trivial: 3 vertices and 3 edges", 1200000, 16000000, compress<mm::graph::bidirectional>);
    s.add("directional", "same for directional graphs", 800000, 10000000, compress<mm::graph::directional>);
    s.add("undirected", "same for undirected graphs, every edge once", 400000, 5000000, undirected);
    s.add("views", "views and subviews of containers; non-trivial: a proper inner range", 400000, 4000000, views);
}
