// I03: the other network formats import every node and road they describe.
#include "osmgen.hpp"
#include "io/network/arc_node_importer.hpp"
#include "io/network/seattle_importer.hpp"
#include "io/network/melbourne_importer.hpp"
#include "io/network/giscup_importer.hpp"
using namespace pbt;
using og::Described, og::describe;
namespace geo = mm::geometry;
using ng::P;

struct Files {
    std::vector<std::string> paths;
    ~Files() { for (auto &p : paths) std::filesystem::remove(p); }
    void add(Ctx &c, const std::string &text) {
        paths.push_back(scratch() + "/net" + std::to_string(paths.size()));
        std::ofstream{paths.back(), std::ios::binary} << text;
        c.note("file ", paths.size() - 1, ":\n", text.substr(0, 1500));
    }
};
struct Case {
    Ctx &c;
    tg::Systems sys;
    Files files;
    Described want;
    P position() { return tg::position(c.s, sys); }
    void node(std::uint64_t id, const P &p) { want.nodes.emplace(id, std::pair{sys.map(p), ng::Tags{}}); }
    void road(std::uint64_t id, std::uint64_t a, std::uint64_t b, const std::vector<P> &pts) {
        std::vector<P> t;
        for (auto &p : pts) t.push_back(sys.map(p));
        want.roads.insert({id, a, b, t});
    }
    // line ends: the last line may lack its
    std::string lines(const std::vector<std::string> &ls) {
        std::string o;
        for (std::size_t i = 0; i < ls.size(); ++i) o += ls[i] + (i + 1 < ls.size() or c.s.chance(80) ? "\n" : "");
        return o;
    }
    std::uint64_t number() { return c.s.chance(80) ? c.s.below(60) : c.s.pick({std::uint64_t{4294967296}, std::uint64_t{9000000000000000000}, std::uint64_t{123456789012}}) + c.s.below(50); }
};

// node positions of different nodes may coincide; roads may lead from a node to itself only where a shape makes that a road
static void arc_node(Case &t) {
    auto &s = t.c.s;
    const std::size_t pairs = s.chance(20) ? 2 : 1;
    for (std::size_t f = 0; f < pairs; ++f) {
        const char *seps = "\t;,| ";
        const std::string sep(1, seps[s.below(5)]);
        std::vector<P> nodes;
        std::vector<std::string> ns, as;
        // identifiers are line numbers and begin again with every pair; only one pair has them in the comparison
        for (std::size_t k = f == 0 ? s.size(1, 12) : s.size(0, 12); k > 0; --k) {
            nodes.push_back(t.position());
            ns.push_back(tg::text(nodes.back()[0]) + sep + tg::text(nodes.back()[1]) + (s.chance(10) ? sep + "7" : ""));
        }
        if (not nodes.empty())
            for (std::size_t k = s.size(0, 12); k > 0; --k) {
                const auto a = s.below(nodes.size()), b = s.below(nodes.size());
                t.want.roads.insert({as.size() + 1000 * f, a + 1000 * f, b + 1000 * f, {t.sys.map(nodes[a]), t.sys.map(nodes[b])}});
                as.push_back(std::to_string(a) + sep + std::to_string(b) + (s.chance(10) ? sep + "3.5" : ""));
            }
        for (std::size_t i = 0; i < nodes.size(); ++i) t.node(i + 1000 * f, nodes[i]);
        t.files.add(t.c, t.lines(ns)), t.files.add(t.c, t.lines(as));
    }
}

static void seattle(Case &t) {
    auto &s = t.c.s;
    std::map<std::uint64_t, P> at;
    std::vector<std::uint64_t> ids;
    for (std::size_t k = s.size(2, 10); k > 0; --k) { const auto id = t.number(); if (not at.contains(id)) ids.push_back(id), at[id] = t.position(); }
    const std::size_t files = s.chance(25) ? 2 : 1;
    for (std::size_t f = 0; f < files; ++f) {
        std::vector<std::string> ls{"Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()"};
        for (std::size_t k = s.size(0, 8); k > 0; --k) {
            const auto a = s.pick(ids), b = s.pick(ids), id = t.number();
            std::vector<P> pts{at[a]};
            for (std::size_t q = a == b ? s.size(1, 3) : s.chance(50) ? 0 : s.size(1, 4); q > 0; --q) pts.push_back(t.position());
            pts.push_back(at[b]);
            const bool both = s.flip();
            std::string l = std::to_string(id) + "\t" + std::to_string(a) + "\t" + std::to_string(b) + "\t" + (both ? "1" : "0") + "\t13.5\t" + std::to_string(pts.size()) + "\tLINESTRING(";
            for (std::size_t i = 0; i < pts.size(); ++i) l += (i ? ", " : "") + tg::text(pts[i][0]) + " " + tg::text(pts[i][1]);
            ls.push_back(l + ")" + s.pick({"", " ", "\r"}));
            t.node(a, at[a]), t.node(b, at[b]), t.road(id, a, b, pts);
            if (both) std::reverse(pts.begin(), pts.end()), t.road(id, b, a, pts);
        }
        t.files.add(t.c, t.lines(ls));
    }
}

static void triples(Case &t, bool giscup) {
    auto &s = t.c.s;
    std::map<std::uint64_t, P> at;
    std::vector<std::uint64_t> ids;
    std::set<std::uint64_t> edges;
    const std::size_t files = s.chance(25) ? 2 : 1;
    for (std::size_t f = 0; f < files; ++f) {
        std::vector<std::string> ns, es, gs;
        if (not giscup) ns.push_back("id source lon lat"), es.push_back("id from to"), es.push_back("?"), gs.push_back("street");
        for (std::size_t k = f == 0 ? s.size(1, 10) : s.size(0, 10); k > 0; --k) {
            const auto id = t.number();
            if (not at.emplace(id, P{}).second) continue;
            const P p = at[id] = t.position();
            ids.push_back(id), t.node(id, p);
            ns.push_back(std::to_string(id) + (giscup ? " " + tg::text(p[1]) + " " + tg::text(p[0]) : " 1 " + tg::text(p[0]) + " " + tg::text(p[1])));
        }
        for (std::size_t k = s.size(0, 10); k > 0; --k) {
            const auto a = s.pick(ids), b = s.pick(ids), id = t.number();
            if (not edges.insert(id).second) continue;
            es.push_back(std::to_string(id) + " " + std::to_string(a) + " " + std::to_string(b) + (s.flip() ? " 5.5" : ""));
            std::vector<P> pts{at[a]};
            if (giscup) {
                if (s.chance(6)) continue; // no geometry given, no road
                for (std::size_t q = a == b ? s.size(1, 3) : s.chance(50) ? 0 : s.size(1, 4); q > 0; --q) pts.push_back(t.position());
            }
            pts.push_back(at[b]);
            t.road(id, a, b, pts);
            std::string l = std::to_string(id) + "^" + s.pick({"", "Main street", "a b"}) + "^primary^" + s.pick({"12.5", "0"});
            for (auto &p : pts) l += "^" + tg::text(p[1]) + "^" + tg::text(p[0]);
            gs.push_back(l);
        }
        if (giscup) for (std::size_t i = gs.size(); i > 1; --i) std::swap(gs[i - 1], gs[s.below(i)]);
        t.files.add(t.c, t.lines(ns)), t.files.add(t.c, t.lines(es)), t.files.add(t.c, t.lines(gs));
    }
}

template<typename S>
static void read_format(Case &t, int format) {
    auto &s = t.c.s;
    typename S::import net;
    auto &helper = net.graph_helper();
    using H = std::remove_cvref_t<decltype(helper)>;
    const auto run = [&](std::vector<std::string> paths, H &h) {
        switch (format) {
            case 0: mm::io::network::arc_node_importer<H>{std::move(paths), h, t.sys.reprojector}.read(); break;
            case 1: mm::io::network::seattle_importer<H>{std::move(paths), h, t.sys.reprojector}.read(); break;
            case 2: mm::io::network::melbourne_importer<H>{std::move(paths), h, t.sys.reprojector}.read(); break;
            default: mm::io::network::giscup_importer<H>{std::move(paths), h, t.sys.reprojector}.read();
        }
    };
    if (s.chance(4)) { // a missing file is reported
        typename S::import other;
        auto paths = t.files.paths;
        paths[s.below(paths.size())] += "-missing";
        bool thrown = false;
        try { run(paths, other.graph_helper()); } catch (const std::runtime_error &) { thrown = true; }
        require(thrown, "a file is missing and nothing is reported");
    }
    run(t.files.paths, helper);
    if (format == 0 and t.files.paths.size() == 4) {
        // two pairs: identifiers repeat, positions in the network do not; number them apart
        auto m = ng::read(net, "imported");
        ng::anchored(m, "imported");
        Described got;
        std::size_t first = 0;
        for (auto &[id, n] : t.want.nodes) first += id < 1000;
        require_eq(m.nodes.size(), t.want.nodes.size(), "nodes");
        for (std::size_t i = 0; i < m.nodes.size(); ++i) got.nodes.emplace(m.nodes[i].id += i < first ? 0 : 1000, std::pair{m.nodes[i].p, m.nodes[i].tags});
        for (auto &r : m.roads) got.roads.insert({r.id + (static_cast<std::size_t>(r.s) < first ? 0 : 1000), m.nodes[r.s].id, m.nodes[r.t].id, r.pts});
        require(got == t.want, "imported ", got.text(), "\nexpected ", t.want.text());
    } else {
        const auto got = describe(net, "imported");
        require(got == t.want, "imported ", got.text(), "\nexpected ", t.want.text());
    }
    static const char *names[] = {"arc/node", "Seattle", "Melbourne", "GIS Cup"};
    t.c.count(names[format]);
    t.c.nontrivial(t.want.roads.size() >= 2);
}

static void formats(Ctx &c) {
    const auto run = [&]<typename S>(const geo::srs_transform &tr, S) {
        Case t{c, {tr, geo::create_point_reprojector(tr), tr.transform}, {}, {}};
        const int format = static_cast<int>(c.s.below(4));
        c.note("format ", format, " transforms ", t.sys.transforms, "\n");
        if (format == 0) arc_node(t); else if (format == 1) seattle(t); else triples(t, format == 3);
        read_format<S>(t, format);
    };
    switch (c.s.weighted({40, 20, 15, 15, 10})) {
        case 0: run(geo::compute_srs_transform(4326, "", 4326, ""), ng::Geographic{}); break;
        case 1: run(geo::compute_srs_transform(4326, "", 3857, ""), ng::Cartesian{}); break;
        case 2: run(geo::compute_srs_transform(3857, "", 4326, ""), ng::Geographic{}); break;
        case 3: run(geo::compute_srs_transform(3857, "", 3857, ""), ng::Cartesian{}); break;
        default: run(geo::compute_srs_transform(4326, "", 4326, "spherical-equatorial"), ng::Spherical{});
    }
}

void pbt::define(Suite &s) {
    s.property = "I03";
    s.add("formats", "one or two sets of files in one of four formats with up to 12 nodes and roads, five combinations of reference systems; non-trivial: two roads", 40000, 1500000, formats);
}
