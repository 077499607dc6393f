// N04: cleaning a network keeps the routable network.
#include "netgen.hpp"
using namespace pbt;
using namespace ng;

// roads with their ends given by identifier, order-free
using Key = std::tuple<std::uint64_t, std::uint64_t, std::uint64_t, std::vector<P>>;
static std::multiset<Key> roads(const Model &m) {
    std::multiset<Key> s;
    for (auto &r : m.roads) s.insert({m.nodes[r.s].id, m.nodes[r.t].id, r.id, r.pts});
    return s;
}

template<typename S>
static void unconnected(Ctx &c) {
    Opt o;
    o.max_nodes = 18;
    o.max_ways = 6;
    o.coincident = c.s.flip();
    Model m = generate<S>(c, o);
    // shuffle the nodes so that no order of discovery is special
    std::vector<int> perm(m.nodes.size());
    for (std::size_t i = 0; i < perm.size(); ++i) perm[i] = static_cast<int>(i);
    if (c.s.flip()) for (std::size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[c.s.below(i)]);
    Model p = m;
    for (std::size_t i = 0; i < perm.size(); ++i) p.nodes[perm[i]] = m.nodes[i];
    for (auto &r : p.roads) { r.s = perm[r.s]; r.t = perm[r.t]; }
    m = p;
    describe(c, m);
    typename S::import net;
    fill(net, m);
    net.remove_unconnected_components();
    const Model r = read(net, "after");
    // weakly connected components
    std::vector<int> comp(m.nodes.size(), -1);
    std::vector<std::vector<int>> comps;
    for (std::size_t i = 0; i < m.nodes.size(); ++i) {
        if (comp[i] != -1) continue;
        std::vector<int> stack{static_cast<int>(i)}, members;
        comp[i] = static_cast<int>(comps.size());
        while (not stack.empty()) {
            int v = stack.back();
            stack.pop_back();
            members.push_back(v);
            for (auto &x : m.roads) {
                for (auto [a, b] : {std::pair{x.s, x.t}, std::pair{x.t, x.s}})
                    if (a == v and comp[b] == -1) { comp[b] = comp[i]; stack.push_back(b); }
            }
        }
        comps.push_back(members);
    }
    std::size_t largest = 0;
    for (auto &x : comps) largest = std::max(largest, x.size());
    require_eq(r.nodes.size(), largest, "nodes in the largest connected part");
    if (r.nodes.empty()) return;
    std::map<std::uint64_t, int> old;
    for (int i = 0; i < static_cast<int>(m.nodes.size()); ++i) old[m.nodes[i].id] = i;
    const int which = comp[old.at(r.nodes[0].id)];
    Model expect;
    std::vector<int> to(m.nodes.size(), -1);
    for (std::size_t i = 0; i < m.nodes.size(); ++i) if (comp[i] == which) { to[i] = static_cast<int>(expect.nodes.size()); expect.nodes.push_back(m.nodes[i]); }
    for (auto x : m.roads) if (comp[x.s] == which) { x.s = to[x.s]; x.t = to[x.t]; expect.roads.push_back(x); }
    for (std::size_t i = 0; i < r.nodes.size(); ++i) {
        require(r.nodes[i].id == expect.nodes[i].id and r.nodes[i].p == expect.nodes[i].p and r.nodes[i].tags == expect.nodes[i].tags,
                "node ", r.nodes[i].id, " is not the expected ", expect.nodes[i].id);
    }
    require(roads(r) == roads(expect), "roads of the largest connected part");
    c.nontrivial(comps.size() >= 2 and largest >= 3 and largest < m.nodes.size());
    if (comps.size() >= 2 and comps[0].size() < largest) c.label("largest part is not the first");
}

// nodes united by position: the first of each position stays
static Model united(const Model &m) {
    Model u;
    u.tags = m.tags;
    std::map<P, int> at;
    std::vector<int> to;
    for (auto &n : m.nodes) {
        auto [it, fresh] = at.emplace(n.p, static_cast<int>(u.nodes.size()));
        if (fresh) u.nodes.push_back(n);
        to.push_back(it->second);
    }
    for (auto r : m.roads) { r.s = to[r.s]; r.t = to[r.t]; u.roads.push_back(r); }
    return u;
}

template<typename S>
static void duplicate_nodes(Ctx &c) {
    Opt o;
    o.max_nodes = 14;
    o.grid = 5;
    o.coincident = true;
    o.shapes = c.s.chance(30);
    Model m = generate<S>(c, o);
    describe(c, m);
    const bool simplify = c.s.flip(), complete = c.s.flip();
    c.note(simplify ? (complete ? " simplify all" : " simplify aware") : " plain");
    typename S::import net;
    fill(net, m);
    net.remove_duplicate_nodes(simplify, complete);
    const Model r = read(net, "after");
    const Model u = united(m);
    const std::size_t dup = m.nodes.size() - u.nodes.size();
    anchored(r, "after");
    std::map<std::uint64_t, int> old;
    for (int i = 0; i < static_cast<int>(u.nodes.size()); ++i) old[u.nodes[i].id] = i;
    std::vector<int> to_old;
    std::set<std::uint64_t> kept;
    for (auto &n : r.nodes) {
        require(old.count(n.id), "node ", n.id, " should have been united with another one");
        require(kept.insert(n.id).second, "node ", n.id, " is there twice");
        require(n.p == u.nodes[old[n.id]].p, "position of node ", n.id);
        to_old.push_back(old[n.id]);
    }
    require(segments(r) == segments(m), "the total road geometry changed");
    if (not simplify) {
        require_eq(r.nodes.size(), u.nodes.size(), "number of nodes");
        require(roads(r) == roads(u), "roads after uniting nodes");
    } else {
        const auto before = distances<S>(u), after = distances<S>(r);
        for (std::size_t i = 0; i < to_old.size(); ++i)
            for (std::size_t j = 0; j < to_old.size(); ++j)
                require_close(after[i][j], before[to_old[i]][to_old[j]], 1e-6, "distance from ", r.nodes[i].id, " to ", r.nodes[j].id);
        std::vector<int> in(u.nodes.size()), out(u.nodes.size());
        for (auto &x : u.roads) { out[x.s]++; in[x.t]++; }
        std::map<P, int> members;
        for (auto &n : m.nodes) members[n.p]++;
        for (std::size_t i = 0; i < u.nodes.size(); ++i) {
            if (kept.count(u.nodes[i].id)) continue;
            require(members[u.nodes[i].p] > 1, "node ", u.nodes[i].id, " was not duplicated but removed");
            require(in[i] == out[i] and (in[i] == 1 or in[i] == 2), "crossing ", u.nodes[i].id, " was removed");
            c.label("united node simplified away");
        }
        if (not complete) {
            std::set<std::uint64_t> a, b;
            for (auto &x : m.roads) a.insert(x.id);
            for (auto &x : r.roads) b.insert(x.id);
            require(a == b, "an identifier disappeared");
        }
    }
    c.count("united nodes", dup);
    bool three = false;
    std::map<P, int> members;
    for (auto &n : m.nodes) three = three or ++members[n.p] >= 3;
    if (three) c.label("three nodes at one position");
    c.nontrivial(dup >= 2 and m.roads.size() >= 4);
}

template<typename S>
static void duplicate_edges(Ctx &c) {
    Opt o;
    o.max_nodes = 10;
    o.grid = 4;
    o.repeated = true;
    Model m = generate<S>(c, o);
    describe(c, m);
    typename S::import net;
    fill(net, m);
    net.remove_duplicate_edges();
    const Model r = read(net, "after");
    const auto all = roads(m);
    const std::set<Key> unique(all.begin(), all.end());
    const auto got = roads(r);
    require_eq(got.size(), unique.size(), "number of roads");
    require(std::equal(got.begin(), got.end(), unique.begin()), "roads without duplicates");
    require_eq(r.nodes.size(), m.nodes.size(), "number of nodes");
    for (std::size_t i = 0; i < r.nodes.size(); ++i) require_eq(r.nodes[i].id, m.nodes[i].id, "node");
    // the first of equal roads stays in place
    std::vector<Key> order;
    std::set<Key> seen;
    for (auto &x : m.roads) {
        Key k{m.nodes[x.s].id, m.nodes[x.t].id, x.id, x.pts};
        if (seen.insert(k).second) order.push_back(k);
    }
    c.count("removed roads", all.size() - unique.size());
    c.nontrivial(all.size() - unique.size() >= 1 and unique.size() >= 3);
}

// the whole preparation chain in the program's order
template<typename S>
static void chain(Ctx &c) {
    Opt o;
    o.max_nodes = 14;
    o.grid = 5;
    o.coincident = c.s.flip();
    o.repeated = c.s.flip();
    o.shapes = c.s.chance(30);
    Model m = generate<S>(c, o);
    describe(c, m);
    const int simplify = static_cast<int>(c.s.below(3)); // none, aware, all
    const bool nodes = c.s.flip(), edges = c.s.flip();
    c.note(" simplify ", simplify, nodes ? " nodes" : "", edges ? " edges" : "");
    typename S::import net;
    fill(net, m);
    if (simplify) net.graph_helper().simplify(net, simplify == 2);
    // simplification may have dropped nodes of shared positions before, hence what is united is what it left
    const Model simplified = read(net, "simplified");
    if (nodes) net.remove_duplicate_nodes(simplify != 0, simplify == 2);
    const Model mid = read(net, "before removing duplicate roads");
    if (edges) net.remove_duplicate_edges();
    typename S::network compressed;
    prepare(compressed, net);
    const Model r = read(compressed, "prepared");
    anchored(r, "prepared");
    std::map<std::uint64_t, int> old;
    const Model u = nodes ? united(simplified) : m;
    for (int i = 0; i < static_cast<int>(u.nodes.size()); ++i) old[u.nodes[i].id] = i;
    const auto before = distances<S>(u), after = distances<S>(r);
    std::map<P, int> at; // uniting after simplification may keep another node of the same position
    if (nodes) for (int i = 0; i < static_cast<int>(u.nodes.size()); ++i) at[u.nodes[i].p] = i;
    auto origin = [&](const Node &n) { return nodes ? at.at(n.p) : old.at(n.id); };
    if (edges and not nodes and o.coincident) return; // equal geometry does not imply equal ends then
    for (auto &a : r.nodes)
        for (auto &b : r.nodes)
            require_close(after[&a - &r.nodes[0]][&b - &r.nodes[0]], before[origin(a)][origin(b)], 1e-6, "distance from ", a.id, " to ", b.id);
    if (not edges) require(segments(r) == segments(m), "the total road geometry changed");
    else {
        std::set<std::pair<P, P>> a, b;
        for (auto &[k, n] : segments(m)) a.insert(k);
        for (auto &[k, n] : segments(r)) b.insert(k);
        require(a == b, "road geometry got lost");
    }
    for (auto &[id, tags] : r.tags) {
        if (simplify != 2) { if (m.tags.count(id)) require(tags == m.tags.at(id), "attributes of road ", id); }
        else if (m.tags.count(id)) for (auto &t : m.tags.at(id)) require(tags.count(t), "attribute of road ", id, " got lost");
    }
    for (auto &n : r.nodes) {
        for (auto &x : m.nodes) if (x.id == n.id) require(x.tags == n.tags, "attributes of node ", n.id);
    }
    c.nontrivial(m.nodes.size() - r.nodes.size() >= 2 and r.roads.size() >= 3);
}

void pbt::define(Suite &s) {
    s.property = "N04";
    s.add("unconnected", "networks of up to 18 nodes in several parts with one-way roads, nodes in any order; non-trivial: "
          "at least two parts, the largest with 3 nodes", 500000, 10000000, unconnected<Cartesian>);
    s.add("duplicate nodes", "networks with several nodes at one position, with and without joining afterwards; "
          "non-trivial: 2 nodes united, 4 roads", 500000, 10000000, duplicate_nodes<Cartesian>);
    s.add("duplicate nodes, geographic", "same in geographic coordinates", 100000, 2000000, duplicate_nodes<Geographic>);
    s.add("duplicate roads", "networks with repeated roads (same and different identifiers); non-trivial: one removed, three left",
          500000, 10000000, duplicate_edges<Cartesian>);
    s.add("chain", "simplification, node and road cleaning and compression in the program's order; non-trivial: 2 nodes "
          "removed, 3 roads left", 400000, 8000000, chain<Cartesian>);
    s.assumptions = {"Roads are duplicates when identifier and geometry are equal; without uniting nodes first, equal geometry implies equal ends."};
}
