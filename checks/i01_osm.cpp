// I01: OpenStreetMap import builds exactly the network the rules select.
#include "osmgen.hpp"
using namespace pbt;
using namespace og;

template<typename S>
static void imports(Ctx &c, const geo::srs_transform &tr) {
    auto &s = c.s;
    const Extract all = extract(s);
    const Selection sel = selection(s);
    const tg::Systems sys{tr, geo::create_point_reprojector(tr), tr.transform};
    // one file or several that overlap in their nodes
    const std::size_t files = s.chance(25) ? 2 + s.below(2) : 1;
    std::vector<Extract> parts(files);
    if (files == 1) parts[0] = all;
    else {
        std::vector<std::set<std::int64_t>> has(files);
        for (std::size_t i = 0; i < all.ways.size(); ++i) {
            auto &p = parts[s.below(files)];
            p.ways.push_back(all.ways[i]);
            for (auto r : all.ways[i].refs) has[static_cast<std::size_t>(&p - parts.data())].insert(r);
        }
        for (auto &n : all.nodes) for (std::size_t f = 0; f < files; ++f) if (has[f].contains(n.id) or s.chance(30)) parts[f].nodes.push_back(n);
    }
    std::vector<std::string> paths;
    c.note("profile ", sel.profile, " query ", sel.query.text(), " filter ", sel.filter.text(), " oneway ", sel.oneway.text(), " reverse ", sel.reverse.text(), "\n");
    for (std::size_t f = 0; f < files; ++f) {
        if (s.chance(30)) for (std::size_t i = parts[f].nodes.size(); i > 1; --i) std::swap(parts[f].nodes[i - 1], parts[f].nodes[s.below(i)]);
        const bool as_xml = s.flip();
        const std::string text = as_xml ? to_xml(parts[f], s) : to_opl(parts[f]);
        paths.push_back(scratch() + "/extract" + std::to_string(f) + (as_xml ? ".osm" : ".opl"));
        std::ofstream{paths.back(), std::ios::binary} << text;
        c.note("file ", f, ":\n", text.substr(0, 2500));
    }
    typename S::import net;
    struct Remove { std::vector<std::string> &p; ~Remove() { for (auto &x : p) std::filesystem::remove(x); } } remove{paths};
    import<S>(net, paths, sel, sys.reprojector);
    const auto got = describe(net, "imported");
    const auto want = expected(all, sel, sys);
    require(got == want, "imported ", got.text(), "\nexpected ", want.text());
    c.nontrivial(want.roads.size() >= 2);
    for (auto &w : all.ways) if (sel.keeps(w) and sel.backwards(w)) { c.count("reversed one-ways"); break; }
    if (files > 1) c.count("several files");
}

static void extracts(Ctx &c) {
    switch (c.s.weighted({50, 35, 15})) {
        case 0: imports<ng::Geographic>(c, geo::compute_srs_transform(4326, "", 4326, "")); break;
        case 1: imports<ng::Cartesian>(c, geo::compute_srs_transform(4326, "", 3857, "")); break;
        default: imports<ng::Spherical>(c, c.s.flip() ? geo::compute_srs_transform(4326, "", 4326, "spherical-equatorial") : geo::compute_srs_transform(4326, "spherical-equatorial", 4326, "spherical-equatorial"));
    }
}

void pbt::define(Suite &s) {
    s.property = "I01";
    s.add("extracts", "one to three files (XML or OPL) of up to 14 nodes and 8 ways with attributes, for the plain, car and manual rules and three kinds of coordinates; non-trivial: two roads", 20000, 600000, extracts);
}
