// Random mutable graphs with integer data, as a history of insertions and removals leaves them behind.
#ifndef VERIF_GRAPHGEN_HPP
#define VERIF_GRAPHGEN_HPP
#include <list>
#include <vector>
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "pbt.hpp"

namespace gg {
    namespace mm = map_matching_2;
    struct Weighted { double weight; int id; 
        template<typename A> void serialize(A &ar, const unsigned int) { ar & weight; ar & id; } };
    template<typename Direction>
    using list_graph = mm::graph::adjacency_list<std::list, std::list, Direction, int, Weighted, std::list>;
    using csr_graph = mm::graph::compressed_sparse_row<std::vector, std::vector, mm::graph::directional, int, Weighted>;

    struct Edge { int s, t; double w; int id; };
    struct Model {
        int n{0};
        std::vector<int> vdata;
        std::vector<Edge> edges; // insertion order
    };

    // builds the graph and the model side by side; the graph is reindexed at the end
    template<typename Graph>
    Model build(pbt::Ctx &c, Graph &g, int max_v, int max_e, bool removals) {
        auto &s = c.s;
        int nv = s.chance(75) ? static_cast<int>(s.range(4, max_v)) : static_cast<int>(s.size(1, max_v));
        std::vector<typename Graph::vertex_descriptor> vd;
        std::vector<int> alive;
        for (int i = 0; i < nv; ++i) { vd.push_back(g.add_vertex(100 + i)); alive.push_back(1); }
        struct E { typename Graph::edge_descriptor d; int s, t; double w; int id; bool alive; };
        std::vector<E> es;
        int ne = s.chance(70) ? static_cast<int>(s.range(std::min(nv, max_e), max_e)) : static_cast<int>(s.size(0, max_e));
        const int hub = static_cast<int>(s.below(nv));
        const bool hubby = s.chance(25);
        for (int i = 0; i < ne; ++i) {
            int a = hubby and s.flip() ? hub : static_cast<int>(s.below(nv)), b = static_cast<int>(s.below(nv));
            double w = static_cast<double>(s.chance(10) ? 0 : s.range(1, 12));
            es.push_back({g.add_edge(vd[a], vd[b], Weighted{w, i}), a, b, w, i, true});
        }
        if (removals and s.flip()) {
            int k = static_cast<int>(s.range(1, 4));
            for (int i = 0; i < k; ++i) {
                int v = static_cast<int>(s.below(nv));
                if (not alive[v]) continue;
                if (s.flip()) {
                    g.clear_vertex(vd[v]);
                    for (auto &e : es) if (e.s == v or e.t == v) e.alive = false;
                    if (s.flip()) { g.remove_vertex(vd[v]); alive[v] = 0; }
                } else {
                    for (auto &e : es) if (e.alive and e.s == v) { g.remove_edge(e.d); e.alive = false; break; }
                }
            }
        }
        g.reindex();
        Model m;
        std::vector<int> pos(nv, -1);
        for (int i = 0; i < nv; ++i) if (alive[i]) { pos[i] = m.n++; m.vdata.push_back(100 + i); }
        for (auto &e : es) if (e.alive) m.edges.push_back({pos[e.s], pos[e.t], e.w, e.id});
        c.note("n=", m.n, " edges:");
        for (auto &e : m.edges) c.note(' ', e.s, "->", e.t, '/', e.w);
        return m;
    }
}
#endif
