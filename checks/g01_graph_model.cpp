// G01: the mutable graph behaves like a multigraph model under every history of operations and allocation failures.
#include <list>
#include <new>
#include <vector>

#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"

#include "pbt.hpp"

namespace mm = map_matching_2;
using namespace pbt;

static long g_fail_in = -1; // allocations until one fails, -1: never

template<typename T>
struct faulty {
    using value_type = T;
    faulty() = default;
    template<typename U>
    faulty(const faulty<U> &) {}
    T *allocate(std::size_t n) {
        if (g_fail_in >= 0 and g_fail_in-- == 0) throw std::bad_alloc{};
        return static_cast<T *>(::operator new(n * sizeof(T)));
    }
    void deallocate(T *p, std::size_t) { ::operator delete(p); }
    template<typename U>
    bool operator==(const faulty<U> &) const { return true; }
};

template<typename Direction>
using list_graph = mm::graph::adjacency_list<std::list, std::list, Direction, int, int, std::list, faulty<void>>;
template<typename Direction>
using vector_graph = mm::graph::adjacency_list<std::vector, std::vector, Direction, int, int, std::vector, faulty<void>>;

struct MV { int data; };
struct ME { std::size_t s, t; int data; bool alive; };

template<typename Graph>
struct Machine {
    static constexpr bool removable = not mm::util::is_random_access_v<typename Graph::vertex_container>;
    using VD = typename Graph::vertex_descriptor;
    using ED = typename Graph::edge_descriptor;
    Ctx &c;
    Graph g;
    struct V { VD d; int data; bool alive; };
    struct E { ED d; std::size_t s, t; int data; bool alive; };
    std::vector<V> vs;
    std::vector<E> es;
    bool indexed{true};
    int next{0};
    int removed{0}, faults{0}, steps{0};

    std::vector<std::size_t> live_v() const {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < vs.size(); ++i) if (vs[i].alive) r.push_back(i);
        return r;
    }
    std::vector<std::size_t> live_e() const {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < es.size(); ++i) if (es[i].alive) r.push_back(i);
        return r;
    }

    template<typename G>
    void compare(G &graph, const char *what) {
        const auto lv = live_v();
        const auto le = live_e();
        auto vv = graph.vertices_view();
        require_eq(vv.size(), lv.size(), what, ": number of vertices");
        auto ev = graph.edges_view();
        require_eq(ev.size(), le.size(), what, ": number of edges");
        std::size_t k = 0;
        std::vector<int> pos(vs.size(), -1), epos(es.size(), -1);
        for (std::size_t i = 0; i < lv.size(); ++i) pos[lv[i]] = static_cast<int>(i);
        for (std::size_t i = 0; i < le.size(); ++i) epos[le[i]] = static_cast<int>(i);
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++k) {
            require_eq(vv[it].get(), vs[lv[k]].data, what, ": data of vertex ", k);
            if (indexed) require_eq(graph.vertex_index(it), k, what, ": index of vertex ", k);
            std::vector<int> out, in, got_out, got_in;
            for (auto e : le) {
                if (es[e].s == lv[k]) out.push_back(es[e].data);
                else if (Graph::is_undirected_v and es[e].t == lv[k]) out.push_back(es[e].data);
                if (es[e].t == lv[k]) in.push_back(es[e].data);
            }
            auto ov = graph.out_edges_view(it);
            for (auto o = ov.begin(); o != ov.end(); o = ov.next(o)) {
                got_out.push_back(graph.get_edge_data(ov[o]));
                const bool at_source = graph.is_same_vertex(graph.source(ov[o]), it);
                const bool at_target = graph.is_same_vertex(graph.target(ov[o]), it);
                require(Graph::is_undirected_v ? (at_source or at_target) : at_source, what, ": out edge of vertex ", k,
                        " is not incident to it");
            }
            require(got_out == out, what, ": out edges of vertex ", k);
            require_eq(graph.out_degree(it), out.size(), what, ": out degree of vertex ", k);
            if constexpr (Graph::is_bidirectional_v) {
                auto iv = graph.in_edges_view(it);
                for (auto o = iv.begin(); o != iv.end(); o = iv.next(o)) {
                    got_in.push_back(graph.get_edge_data(iv[o]));
                    require(graph.is_same_vertex(graph.target(iv[o]), it), what, ": in edge of vertex ", k);
                }
                require(got_in == in, what, ": in edges of vertex ", k);
                require_eq(graph.in_degree(it), in.size(), what, ": in degree of vertex ", k);
                require_eq(graph.degree(it), in.size() + out.size(), what, ": degree of vertex ", k);
            }
        }
        k = 0;
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++k) {
            const E &m = es[le[k]];
            require_eq(ev[it].get(), m.data, what, ": data of edge ", k);
            require_eq(graph.get_vertex_data(graph.source(it)), vs[m.s].data, what, ": source of edge ", k);
            require_eq(graph.get_vertex_data(graph.target(it)), vs[m.t].data, what, ": target of edge ", k);
            require_eq(graph.is_self_loop(it), m.s == m.t, what, ": self loop of edge ", k);
            if (indexed) require_eq(graph.edge_index(it), k, what, ": index of edge ", k);
        }
    }

    void add_vertex() {
        const bool fault = c.s.chance(10);
        g_fail_in = fault ? c.s.range(0, 2) : -1;
        const int data = next++;
        try {
            auto d = g.add_vertex(data);
            g_fail_in = -1;
            vs.push_back({d, data, true});
            c.note("v", vs.size() - 1, ' ');
        } catch (const std::bad_alloc &) {
            g_fail_in = -1;
            faults++;
            c.note("v! ");
        }
    }
    void add_edge() {
        const auto lv = live_v();
        if (lv.empty()) return;
        const auto a = c.s.pick(lv), b = c.s.chance(15) ? a : c.s.pick(lv);
        const bool fault = c.s.chance(20);
        g_fail_in = fault ? c.s.range(0, 4) : -1;
        const int data = next++;
        try {
            auto d = g.add_edge(vs[a].d, vs[b].d, data);
            g_fail_in = -1;
            es.push_back({d, a, b, data, true});
            c.note("e", es.size() - 1, '(', a, "->", b, ") ");
        } catch (const std::bad_alloc &) {
            g_fail_in = -1;
            faults++;
            c.note("e!(", a, "->", b, ") ");
        }
    }
    void step() {
        steps++;
        switch (c.s.below(removable ? 10 : 5)) {
            case 0: add_vertex(); break;
            case 1: case 2: case 3: add_edge(); break;
            case 4: { // change data
                const auto le = live_e();
                const auto lv = live_v();
                if (c.s.flip() and not le.empty()) {
                    const auto e = c.s.pick(le);
                    es[e].data = next++;
                    g.get_edge(es[e].d).set(es[e].data);
                    c.note("set-e", e, ' ');
                } else if (not lv.empty()) {
                    const auto v = c.s.pick(lv);
                    vs[v].data = next++;
                    g.get_vertex(vs[v].d).set(vs[v].data);
                    c.note("set-v", v, ' ');
                }
                break;
            }
            default:
                if constexpr (removable) remove_step();
        }
    }
    void remove_step() requires removable {
        const auto lv = live_v();
        const auto le = live_e();
        switch (c.s.below(6)) {
            case 0: { // clear
                if (lv.empty()) return;
                const auto v = c.s.pick(lv);
                c.note("clear", v, ' ');
                g.clear_vertex(vs[v].d);
                for (auto &e : es) if (e.alive and (e.s == v or e.t == v)) { e.alive = false; removed++; indexed = false; }
                break;
            }
            case 1: { // remove a vertex
                if (lv.empty()) return;
                const auto v = c.s.pick(lv);
                bool connected_out = false, connected_in = false;
                for (auto &e : es) {
                    if (not e.alive) continue;
                    if (e.s == v) connected_out = true;
                    if (e.t == v) (Graph::is_undirected_v ? connected_out : connected_in) = true;
                }
                if (connected_in and not connected_out) return; // left to the caller (documented by clear_vertex)
                c.note("del-v", v, ' ');
                bool threw = false;
                try { g.remove_vertex(vs[v].d); } catch (const std::runtime_error &) { threw = true; }
                require_eq(threw, connected_out, "removing a vertex that still has out edges is refused");
                if (not threw) { vs[v].alive = false; removed++; indexed = false; }
                break;
            }
            case 2: { // remove all edges of a pair
                if (lv.empty()) return;
                std::size_t a, b;
                if (not le.empty() and c.s.chance(70)) { const auto e = c.s.pick(le); a = es[e].s; b = es[e].t; }
                else { a = c.s.pick(lv); b = c.s.pick(lv); }
                if (Graph::is_undirected_v) {
                    for (auto &e : es) if (e.alive and e.s == b and e.t == a and a != b) return; // orientation: see DESIGN
                }
                c.note("del-e(", a, "->", b, ") ");
                g.remove_edge(vs[a].d, vs[b].d);
                for (auto &e : es) if (e.alive and e.s == a and e.t == b) { e.alive = false; removed++; indexed = false; }
                break;
            }
            case 3: { // remove one edge
                if (le.empty()) return;
                const auto e = c.s.pick(le);
                c.note("del-e", e, ' ');
                g.remove_edge(es[e].d);
                es[e].alive = false;
                removed++;
                indexed = false;
                break;
            }
            case 4: {
                c.note("reindex ");
                g.reindex();
                indexed = true;
                break;
            }
            default: {
                if (not indexed) { g.reindex(); indexed = true; }
                c.note("copy ");
                Graph copy{g};
                compare(copy, "copy");
                if (c.s.flip()) { // go on with the copy: descriptors are taken by position
                    Graph assigned;
                    assigned.add_vertex(0);
                    assigned = copy;
                    compare(assigned, "assigned copy");
                    g = std::move(assigned);
                    auto vv = g.vertices_view();
                    std::size_t k = 0;
                    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) vs[lv[k++]].d = it;
                    auto ev = g.edges_view();
                    k = 0;
                    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) es[le[k++]].d = it;
                }
            }
        }
    }
    void run(std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) {
            step();
            compare(g, "after a step");
        }
        if constexpr (removable) {
            if (not indexed) { g.reindex(); indexed = true; compare(g, "after the final reindex"); }
        }
        const std::size_t le = live_e().size();
        c.nontrivial(le >= 2 and steps >= 8 and (not removable or removed > 0));
        c.count("operations", steps);
        c.count("removed elements", removed);
        c.count("allocation failures", faults);
    }
};

template<typename Graph>
static void machine(Ctx &c) {
    Machine<Graph> m{c, {}};
    const auto n = static_cast<std::size_t>(c.s.range(3, 40));
    const auto v = c.s.range(0, 5);
    for (int i = 0; i < v; ++i) m.add_vertex();
    m.run(n);
}

void pbt::define(Suite &s) {
    s.property = "G01";
    s.assumptions = {"remove_edge(a, b) on an undirected graph is only asked for the stored orientation"};
    const std::string rule = "histories of 3-40 operations (add vertex/edge, parallel edges, self loops, change data, clear "
            "vertex, remove vertex/edge/edges of a pair, reindex, copy, assign) with injected allocation failures, "
            "compared with a list model after every step; non-trivial: at least 8 steps, 2 edges left and one removal "
            "(no removal for the contiguous variant)";
    s.add("bidirectional", rule, 600000, 20000000, machine<list_graph<mm::graph::bidirectional>>);
    s.add("directional", "same", 300000, 8000000, machine<list_graph<mm::graph::directional>>);
    s.add("undirected", "same", 300000, 8000000, machine<list_graph<mm::graph::undirected>>);
    s.add("contiguous", "same", 300000, 8000000, machine<vector_graph<mm::graph::bidirectional>>);
}
