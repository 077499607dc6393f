// I02: exporting to OpenStreetMap and importing again gives the same network.
#include "osmgen.hpp"
#include "io/network/osm_exporter.hpp"
using namespace pbt;
using namespace og;

// what can be driven and what is known about it
struct Content {
    std::set<std::tuple<ng::P, ng::P, ng::Tags>> driven;
    std::map<ng::P, ng::Tags> places; // of nodes with roads
    bool operator==(const Content &) const = default;
    [[nodiscard]] std::string text() const {
        std::ostringstream o;
        o.precision(15);
        const auto put = [&](const ng::Tags &t) { for (auto &[k, v] : t) o << "{" << k << "=" << v << "}"; };
        for (auto &[p, q, t] : driven) o << " (" << p[0] << " " << p[1] << ")->(" << q[0] << " " << q[1] << ")", put(t);
        o << " places";
        for (auto &[p, t] : places) o << " (" << p[0] << " " << p[1] << ")", put(t);
        return o.str().substr(0, 3000);
    }
};

template<typename S>
static ng::P snap(const ng::P &p, bool raster) {
    if (not raster) return p;
    return {S::x0 + S::dx * std::round((p[0] - S::x0) / S::dx), S::y0 + S::dy * std::round((p[1] - S::y0) / S::dy)};
}

template<typename S>
static Content content(const ng::Model &m, bool raster) {
    Content c;
    for (auto &r : m.roads) {
        ng::Tags t;
        if (auto f = m.tags.find(r.id); f != m.tags.end()) for (auto &[k, v] : f->second) if (k != "oneway") t.insert({k, v});
        for (std::size_t i = 1; i < r.pts.size(); ++i) {
            const auto p = snap<S>(r.pts[i - 1], raster), q = snap<S>(r.pts[i], raster);
            if (p != q) c.driven.insert({p, q, t}), c.places[p], c.places[q];
        }
    }
    for (auto &n : m.nodes) if (auto f = c.places.find(snap<S>(n.p, raster)); f != c.places.end()) f->second.insert(n.tags.begin(), n.tags.end());
    return c;
}

// writes a network and compares what comes back with it
template<typename S>
static void round_trip(Ctx &c, typename S::import &net, const ng::Model &m, const geo::srs_transform &tr, const Selection &sel, bool raster) {
    auto &s = c.s;
    const std::string path = scratch() + "/export" + s.pick({".osm", ".osm.pbf", ".opl"});
    struct Remove { const std::string &p; ~Remove() { std::filesystem::remove(p); } } remove{path};
    typename S::network network;
    ng::prepare(network, net);
    {
        using graph_type = std::remove_cvref_t<decltype(network.graph())>;
        using tags_type = std::remove_cvref_t<decltype(network.tag_helper())>;
        const auto back = geo::compute_next_srs_transform(tr, 4326, geo::SRS::CS_GEOGRAPHIC);
        mm::io::network::osm_exporter<graph_type, tags_type> out{path, network.graph(), network.tag_helper(), geo::create_point_reprojector(back)};
        out.write();
        if (s.chance(5)) out.write();
    }
    typename S::import again;
    const tg::Systems sys{tr, geo::create_point_reprojector(tr), tr.transform};
    import<S>(again, {path}, sel, sys.reprojector);
    const auto r = ng::read(again, "imported again");
    ng::anchored(r, "imported again");
    for (auto &road : r.roads) require(road.pts.size() == 2, "road ", road.id, " has ", road.pts.size(), " points");
    const auto want = content<S>(m, raster), got = content<S>(r, raster);
    require(got == want, "imported again", got.text(), "\nexpected", want.text());
    std::size_t two_way = 0;
    for (auto &[p, q, t] : want.driven) two_way += want.driven.contains({q, p, t});
    if (two_way > 0 and two_way < want.driven.size()) c.count("one-way and two-way roads");
    c.nontrivial(want.driven.size() >= 3);
}

template<typename S>
static void of_extract(Ctx &c, const geo::srs_transform &tr) {
    auto &s = c.s;
    Opt o;
    o.deleted = false;
    o.coinciding = false;
    const Extract e = extract(s, o);
    Selection sel;
    sel.profile = 2;
    sel.query = {true, {}};
    sel.filter.otherwise = true;
    for (auto v : {"yes", "true", "1"}) sel.oneway.rules.push_back({true, "oneway", v});
    sel.oneway.rules.push_back({true, "junction", "roundabout"});
    sel.oneway.rules.push_back({true, "highway", "motorway"});
    for (auto v : {"-1", "reverse"}) sel.reverse.rules.push_back({true, "oneway", v});
    for (auto &w : e.ways) if (w.tags.empty()) throw Discard{}; // roads without attributes cannot be selected again
    const std::string path = scratch() + "/extract.opl", text = to_opl(e);
    std::ofstream{path, std::ios::binary} << text;
    c.note(text.substr(0, 2500));
    typename S::import net;
    import<S>(net, {path}, sel, geo::create_point_reprojector(tr));
    std::filesystem::remove(path);
    if (s.chance(60)) c.note(" simplified"), net.graph_helper().simplify(net, false);
    auto m = ng::read(net, "exported");
    for (auto &r : m.roads) {
        std::size_t other = 0;
        for (auto &[k, v] : m.tags[r.id]) other += k != "oneway";
        if (other == 0) throw Discard{};
    }
    round_trip<S>(c, net, m, tr, sel, false);
}

template<typename S>
static void of_network(Ctx &c, const geo::srs_transform &tr) {
    auto &s = c.s;
    ng::Opt o;
    o.repeated = s.chance(30);
    auto m = ng::generate<S>(c, o);
    for (auto &r : m.roads) {
        auto &t = m.tags[r.id];
        if (std::none_of(t.begin(), t.end(), [](auto &x) { return x.first == "highway"; })) t.insert({"highway", "residential"});
    }
    for (auto &[id, t] : m.tags) {
        if (s.chance(15)) t.insert({"oneway", s.pick({"yes", "no", "-1", "true"})});
        if (s.chance(5)) t.insert({"junction", "roundabout"});
        if (s.chance(5)) t.insert({"highway", "motorway"});
    }
    ng::describe(c, m);
    Selection sel;
    sel.profile = 0;
    typename S::import net;
    ng::fill(net, m);
    round_trip<S>(c, net, ng::read(net, "exported"), tr, sel, true);
}

static void extracts(Ctx &c) {
    switch (c.s.weighted({50, 35, 15})) {
        case 0: of_extract<ng::Geographic>(c, geo::compute_srs_transform(4326, "", 4326, "")); break;
        case 1: of_extract<ng::Cartesian>(c, geo::compute_srs_transform(4326, "", 3857, "")); break;
        default: of_extract<ng::Spherical>(c, geo::compute_srs_transform(4326, "", 4326, "spherical-equatorial"));
    }
}
static void networks(Ctx &c) {
    switch (c.s.weighted({50, 35, 15})) {
        case 0: of_network<ng::Geographic>(c, geo::compute_srs_transform(4326, "", 4326, "")); break;
        case 1: of_network<ng::Cartesian>(c, geo::compute_srs_transform(4326, "", 3857, "")); break;
        default: of_network<ng::Spherical>(c, geo::compute_srs_transform(4326, "", 4326, "spherical-equatorial"));
    }
}

void pbt::define(Suite &s) {
    s.property = "I02";
    s.add("extracts", "extracts of up to 14 nodes and 8 ways with one-way tagging, imported, optionally simplified, exported as XML, PBF or OPL and imported again; non-trivial: three directed segments", 40000, 1500000, extracts);
    s.add("networks", "networks of up to 16 nodes with shaped, parallel, opposite, closed and repeated roads, exported and imported again; non-trivial: three directed segments", 40000, 1500000, networks);
}
