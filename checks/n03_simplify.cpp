// N03: simplification preserves what can be driven.
#include "netgen.hpp"
using namespace pbt;
using namespace ng;

struct Degrees { std::vector<std::vector<int>> in, out; };
static Degrees degrees(const Model &m) {
    Degrees d{std::vector<std::vector<int>>(m.nodes.size()), std::vector<std::vector<int>>(m.nodes.size())};
    for (int i = 0; i < static_cast<int>(m.roads.size()); ++i) {
        d.out[m.roads[i].s].push_back(i);
        d.in[m.roads[i].t].push_back(i);
    }
    return d;
}
static bool reversed(const Road &a, const Road &b) {
    return a.pts.size() == b.pts.size() and std::equal(a.pts.begin(), a.pts.end(), b.pts.rbegin());
}
// pass-through node: one road in and one out, or two two-way roads to different neighbours
static bool pass_through(const Model &m, const Degrees &d, int v, bool aware) {
    auto joinable = [&](int i, int o) { return not aware or m.roads[i].id == m.roads[o].id; };
    const auto &in = d.in[v], &out = d.out[v];
    if (in.size() == 1 and out.size() == 1) {
        return in[0] != out[0] and m.roads[in[0]].s != m.roads[out[0]].t and joinable(in[0], out[0]);
    }
    if (in.size() != 2 or out.size() != 2) return false;
    for (int flip = 0; flip < 2; ++flip) {
        const int i0 = in[0], i1 = in[1], o0 = out[flip], o1 = out[1 - flip];
        if (i0 == o0 or i1 == o1) continue;
        const auto &R = m.roads;
        // o0 is the way back of i0, o1 of i1; joined are i0 with o1 and i1 with o0
        if (R[i0].s == R[o0].t and R[i1].s == R[o1].t and reversed(R[i0], R[o0]) and reversed(R[i1], R[o1]) and
            R[i0].s != R[i1].s and R[i0].s != v and R[i1].s != v and joinable(i0, o1) and joinable(i1, o0)) return true;
    }
    return false;
}

template<typename S>
static void simplify(Ctx &c) {
    Opt o;
    o.max_nodes = 14;
    o.shapes = c.s.flip();
    const bool aware = c.s.flip();
    Model m = generate<S>(c, o);
    describe(c, m);
    c.note(aware ? " tag-aware" : " complete");
    typename S::import net;
    fill(net, m);
    m = read(net, "before");
    net.graph_helper().simplify(net, not aware);
    const Model r = read(net, "after");
    anchored(r, "after");

    std::map<std::uint64_t, int> old;
    for (int i = 0; i < static_cast<int>(m.nodes.size()); ++i) old[m.nodes[i].id] = i;
    std::vector<int> to_old, to_new(m.nodes.size(), -1);
    for (auto &n : r.nodes) {
        require(old.count(n.id), "node ", n.id, " appeared");
        const int i = old[n.id];
        require(to_new[i] == -1, "node ", n.id, " is there twice");
        require(to_old.empty() or to_old.back() < i, "order of nodes");
        require(n.p == m.nodes[i].p and n.tags == m.nodes[i].tags, "node ", n.id, " changed");
        to_new[i] = static_cast<int>(to_old.size());
        to_old.push_back(i);
    }
    require(segments(m) == segments(r), "the total road geometry changed");
    const auto before = distances<S>(m), after = distances<S>(r);
    for (std::size_t i = 0; i < to_old.size(); ++i) {
        for (std::size_t j = 0; j < to_old.size(); ++j) {
            require_close(after[i][j], before[to_old[i]][to_old[j]], 1e-6, "distance from ", r.nodes[i].id, " to ", r.nodes[j].id);
        }
    }
    const auto d = degrees(m), e = degrees(r);
    std::size_t removed = 0;
    for (int v = 0; v < static_cast<int>(m.nodes.size()); ++v) {
        if (to_new[v] == -1) {
            removed++;
            require(d.in[v].size() == d.out[v].size() and (d.in[v].size() == 1 or d.in[v].size() == 2), "crossing or dead end ",
                    m.nodes[v].id, " was removed");
            if (d.in[v].size() == 2) {
                std::set<int> in, out;
                bool all = true;
                for (int i : d.in[v]) { in.insert(m.roads[i].s); all = all and to_new[m.roads[i].s] != -1; }
                for (int i : d.out[v]) { out.insert(m.roads[i].t); all = all and to_new[m.roads[i].t] != -1; }
                require(not all or (in == out and in.size() == 2), "crossing ", m.nodes[v].id, " was removed");
                c.label("two-way node removed");
            }
        } else {
            const int w = to_new[v];
            require_eq(e.in[w].size(), d.in[v].size(), "roads into node ", m.nodes[v].id);
            require_eq(e.out[w].size(), d.out[v].size(), "roads out of node ", m.nodes[v].id);
            if (pass_through(m, d, v, aware)) {
                require(not pass_through(r, e, w, aware), "pass-through node ", m.nodes[v].id, " was kept");
            }
        }
    }
    // attributes: find the original roads of each remaining one where the geometry tells them apart
    std::map<std::pair<P, P>, std::set<std::uint64_t>> who;
    for (auto &x : m.roads) for (std::size_t i = 1; i < x.pts.size(); ++i) who[{x.pts[i - 1], x.pts[i]}].insert(x.id);
    std::map<std::uint64_t, std::uint64_t> parent;
    std::function<std::uint64_t(std::uint64_t)> find = [&](std::uint64_t x) {
        return parent.count(x) and parent[x] != x ? find(parent[x]) : x;
    };
    bool ambiguous = false;
    for (auto &x : r.roads) {
        for (std::size_t i = 1; i < x.pts.size(); ++i) {
            const auto &ids = who[{x.pts[i - 1], x.pts[i]}];
            if (ids.size() > 1) { ambiguous = true; continue; }
            const auto id = *ids.begin();
            if (aware) {
                require_eq(x.id, id, "a road was joined to one with another identifier");
            } else {
                if (find(x.id) != find(id)) parent[find(id)] = find(x.id);
                auto original = m.tags.find(id);
                if (original != m.tags.end())
                    for (auto &t : original->second)
                        require(r.tags.at(x.id).count(t), "attribute ", t.first, "=", t.second, " of a part of road ", x.id, " is missing");
            }
        }
    }
    std::set<std::uint64_t> ids_before, ids_after;
    for (auto &x : m.roads) ids_before.insert(x.id);
    for (auto &x : r.roads) { ids_after.insert(x.id); require(ids_before.count(x.id), "identifier ", x.id, " appeared"); }
    if (aware) {
        for (auto &[id, tags] : r.tags) require(tags == m.tags.at(id), "attributes of road ", id, " changed");
        require(ids_after == ids_before, "an identifier disappeared");
    } else if (not ambiguous) {
        std::map<std::uint64_t, Tags> all;
        for (auto &[id, tags] : m.tags) all[find(id)].insert(tags.begin(), tags.end());
        for (auto &[id, tags] : r.tags)
            for (auto &t : tags) require(all[find(id)].count(t), "attribute ", t.first, "=", t.second, " appeared on road ", id);
    }
    if (not o.shapes) {
        net.graph_helper().simplify(net, not aware);
        const Model again = read(net, "again");
        require(again.nodes.size() == r.nodes.size() and again.roads.size() == r.roads.size(), "simplifying again changed the network");
        for (std::size_t i = 0; i < r.roads.size(); ++i)
            require(again.roads[i].pts == r.roads[i].pts and again.roads[i].id == r.roads[i].id, "simplifying again changed road ", r.roads[i].id);
        c.label("idempotence");
    }
    // the lengths of the joined roads are those of their geometry
    auto ev = net.graph().edges_view();
    std::size_t k = 0;
    if (o.shapes)
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++k)
            if (const double l = length<S>(r.roads[k].pts); l > 0 or net.edge(it).rich_line.has_length())
                require_close(net.edge(it).rich_line.length(), l, 1e-6, "length of road ", r.roads[k].id);
    c.count("removed nodes", removed);
    c.nontrivial(removed >= 2 and r.roads.size() >= 3);
    if (aware and removed > 0) c.label("tag-aware removal");
}

void pbt::define(Suite &s) {
    s.property = "N03";
    const std::string rule = "road networks of up to 14 nodes made of ways, extra roads, loops and parallel roads, one-way "
            "and two-way; non-trivial: at least 2 nodes removed and 3 roads left";
    s.add("cartesian", rule, 900000, 20000000, simplify<Cartesian>);
    s.add("geographic", "same in geographic coordinates", 200000, 5000000, simplify<Geographic>);
    s.assumptions = {"Idempotence is checked on networks whose roads are straight between their nodes."};
}
