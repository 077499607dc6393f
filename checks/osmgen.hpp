// OpenStreetMap extracts for the checks: a plain model, files of it, rules to select ways, and the network that follows.
#ifndef VERIF_OSMGEN_HPP
#define VERIF_OSMGEN_HPP
#include <filesystem>
#include <fstream>
#include <optional>
#include "netgen.hpp"
#include "trackgen.hpp"
#include "types/io/network/osm_handler.hpp"
#include "io/network/osm_car_importer.hpp"
#include "io/network/osm_manual_importer.hpp"

namespace og {

    namespace geo = mm::geometry;
    using Tag = std::pair<std::string, std::string>;
    struct Node { std::int64_t id; std::int32_t lon, lat; std::vector<Tag> tags; bool deleted; };
    struct Way { std::int64_t id; std::vector<std::int64_t> refs; std::vector<Tag> tags; bool deleted; };
    struct Extract { std::vector<Node> nodes; std::vector<Way> ways; };

    inline std::string degrees(std::int32_t v) {
        std::string s = std::to_string(std::abs(static_cast<std::int64_t>(v)));
        while (s.size() < 8) s = "0" + s;
        return (v < 0 ? "-" : "") + s.substr(0, s.size() - 7) + "." + s.substr(s.size() - 7);
    }
    inline std::string xml(const std::string &v) {
        std::string r;
        for (char ch : v) r += ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '&' ? "&amp;" : ch == '"' ? "&quot;" : ch == '\n' ? "&#xA;" : ch == '\t' ? "&#x9;" : std::string(1, ch);
        return r;
    }
    inline std::string opl(const std::string &v) {
        std::string r;
        for (char ch : v) {
            if (std::isalnum(static_cast<unsigned char>(ch)) or static_cast<unsigned char>(ch) >= 128 or ch == '_' or ch == '-') r += ch;
            else { char b[8]; std::snprintf(b, sizeof b, "%%%x%%", static_cast<unsigned>(ch)); r += b; }
        }
        return r;
    }

    inline std::string to_xml(const Extract &e, pbt::Src &s) {
        std::string o = "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\" generator=\"verif\">\n";
        const auto tags = [&](const std::vector<Tag> &ts) { for (auto &[k, v] : ts) o += "<tag k=\"" + xml(k) + "\" v=\"" + xml(v) + "\"/>"; };
        const auto head = [&](const char *what, std::int64_t id, bool deleted) {
            o += std::string{"<"} + what + " id=\"" + std::to_string(id) + "\" version=\"1\"" + (deleted ? " visible=\"false\"" : s.flip() ? " visible=\"true\"" : "");
        };
        for (auto &n : e.nodes) {
            head("node", n.id, n.deleted);
            if (not n.deleted) o += " lat=\"" + degrees(n.lat) + "\" lon=\"" + degrees(n.lon) + "\"";
            o += ">", tags(n.tags), o += "</node>\n";
        }
        for (auto &w : e.ways) {
            head("way", w.id, w.deleted), o += ">";
            for (auto r : w.refs) o += "<nd ref=\"" + std::to_string(r) + "\"/>";
            tags(w.tags), o += "</way>\n";
        }
        return o + "</osm>\n";
    }
    inline std::string to_opl(const Extract &e) {
        std::string o;
        const auto tags = [&](const std::vector<Tag> &ts) { o += " T"; for (std::size_t i = 0; i < ts.size(); ++i) o += (i ? "," : "") + opl(ts[i].first) + "=" + opl(ts[i].second); };
        for (auto &n : e.nodes) {
            o += "n" + std::to_string(n.id) + " v1 d" + (n.deleted ? "D" : "V"), tags(n.tags);
            if (not n.deleted) o += " x" + degrees(n.lon) + " y" + degrees(n.lat);
            o += "\n";
        }
        for (auto &w : e.ways) {
            o += "w" + std::to_string(w.id) + " v1 d" + (w.deleted ? "D" : "V"), tags(w.tags), o += " N";
            for (std::size_t i = 0; i < w.refs.size(); ++i) o += (i ? ",n" : "n") + std::to_string(w.refs[i]);
            o += "\n";
        }
        return o;
    }

    // rules to select ways with
    struct Rule { bool keep; std::string key; std::optional<std::string> value; };
    struct Rules {
        bool otherwise{false};
        std::vector<Rule> rules;
        [[nodiscard]] bool operator()(const Tag &t) const {
            for (auto &r : rules) if (r.key == t.first and (not r.value or *r.value == t.second)) return r.keep;
            return otherwise;
        }
        [[nodiscard]] std::string text() const {
            std::string o = otherwise ? "true" : "false";
            for (auto &r : rules) o += std::string{"|"} + (r.keep ? "true" : "false") + "," + r.key + (r.value ? "=" + *r.value : "");
            return o;
        }
    };
    struct Selection {
        int profile{0}; // plain, car, manual
        Rules query, filter, oneway, reverse;
        [[nodiscard]] bool keeps(const Way &w) const {
            return std::any_of(w.tags.begin(), w.tags.end(), std::cref(query)) and std::all_of(w.tags.begin(), w.tags.end(), std::cref(filter));
        }
        [[nodiscard]] bool backwards(const Way &w) const { return std::any_of(w.tags.begin(), w.tags.end(), std::cref(reverse)); }
        [[nodiscard]] bool one_way(const Way &w) const { return backwards(w) or std::any_of(w.tags.begin(), w.tags.end(), std::cref(oneway)); }
    };

    inline const std::vector<Tag> &known_tags() {
        static const std::vector<Tag> tags{{"highway", "primary"}, {"highway", "motorway"}, {"highway", "footway"}, {"highway", "construction"}, {"highway", "path"}, {"highway", "steps"}, {"highway", "bus_guideway"},
            {"highway", "residential"}, {"highway", "platform"}, {"highway", "cycleway"}, {"highway", "pedestrian"}, {"highway", "bridleway"}, {"oneway", "yes"}, {"oneway", "true"}, {"oneway", "1"}, {"oneway", "no"}, {"oneway", "-1"}, {"oneway", "reverse"},
            {"junction", "roundabout"}, {"junction", "yes"}, {"access", "no"}, {"access", "private"}, {"railway", "rail"}, {"name", "B\xc3\xa4r & <Sohn>"}, {"name", "a=b"}, {"name", "x y,\"z\""}, {"name", ""}, {"maxspeed", "50"}};
        return tags;
    }

    inline Selection selection(pbt::Src &s) {
        Selection sel;
        sel.profile = static_cast<int>(s.below(3));
        if (sel.profile < 2) {
            if (sel.profile == 1)
                for (auto v : {"footway", "pedestrian", "steps", "bridleway", "construction", "cycleway", "path", "bus_guideway", "platform"}) sel.query.rules.push_back({false, "highway", v});
            sel.query.rules.push_back({true, "highway", {}});
            sel.filter.otherwise = true;
            for (auto v : {"yes", "true", "1"}) sel.oneway.rules.push_back({true, "oneway", v});
            sel.oneway.rules.push_back({true, "junction", "roundabout"});
            sel.oneway.rules.push_back({true, "highway", "motorway"});
            for (auto v : {"-1", "reverse"}) sel.reverse.rules.push_back({true, "oneway", v});
            return sel;
        }
        const auto some = [&](bool otherwise, std::initializer_list<const char *> keys) {
            Rules r{otherwise, {}};
            std::vector<Tag> fitting;
            for (auto &t : known_tags()) for (auto k : keys) if (t.first == k and t.second.find_first_of(",|") == std::string::npos and not t.second.empty()) fitting.push_back(t);
            for (std::size_t k = s.size(0, 4); k > 0; --k) {
                const auto &t = s.pick(fitting);
                r.rules.push_back({s.chance(70) ? not otherwise : otherwise, t.first, s.chance(75) ? std::optional{t.second} : std::nullopt});
            }
            return r;
        };
        sel.query = some(s.chance(30), {"highway", "railway"});
        sel.filter = some(s.chance(85), {"access", "highway", "name"});
        sel.oneway = some(s.chance(5), {"oneway", "junction", "highway"});
        sel.reverse = some(s.chance(3), {"oneway", "name"});
        return sel;
    }

    inline std::vector<Tag> some_tags(pbt::Src &s, bool way) {
        std::vector<Tag> tags;
        const auto add = [&](const Tag &t) { if (std::none_of(tags.begin(), tags.end(), [&](auto &o) { return o.first == t.first; })) tags.push_back(t); };
        const auto &known = known_tags();
        if (way and s.chance(85)) add(s.chance(50) ? known[0] : known[s.below(12)]);
        if (way and s.chance(35)) add(known[12 + s.below(6)]);
        for (std::size_t k = s.chance(60) ? 0 : s.size(1, 3); k > 0; --k) add(known[18 + s.below(known.size() - 18)]);
        if (tags.size() > 1 and s.flip()) std::swap(tags[0], tags.back());
        return tags;
    }

    struct Opt {
        bool missing{true};      // nodes that are not part of the extract
        bool deleted{true};
        bool coinciding{true};   // nodes at the same place
    };

    inline Extract extract(pbt::Src &s, const Opt &o = {}) {
        Extract e;
        const std::size_t n = s.size(2, 14);
        const bool far = s.chance(20);
        std::set<std::pair<int, int>> taken;
        std::int64_t id = s.pick({std::int64_t{0}, std::int64_t{1}, std::int64_t{5000000000}});
        for (std::size_t k = 0; k < n; ++k) {
            Node d{id, 0, 0, s.chance(20) ? some_tags(s, false) : std::vector<Tag>{}, o.deleted and s.chance(3)};
            for (int tries = 0; tries < 20; ++tries) {
                d.lon = far ? static_cast<std::int32_t>(s.range(-1790000000, 1790000000)) : 115000000 + static_cast<std::int32_t>(s.below(6)) * 10000;
                d.lat = far ? static_cast<std::int32_t>(s.range(-800000000, 800000000)) : 482500000 + static_cast<std::int32_t>(s.below(6)) * 10000 + static_cast<std::int32_t>(s.below(2));
                if (o.coinciding or taken.insert({d.lon, d.lat}).second) break;
                if (tries == 19) return e;
            }
            id += s.chance(80) ? 1 : static_cast<std::int64_t>(s.size(1, 1000));
            e.nodes.push_back(d);
        }
        std::int64_t way = s.pick({std::int64_t{1}, std::int64_t{100}, std::int64_t{6000000000}});
        for (std::size_t k = s.size(1, 8); k > 0; --k) {
            Way w{way++, {}, some_tags(s, true), o.deleted and s.chance(4)};
            for (std::size_t q = s.chance(6) ? s.below(2) : s.size(2, 6); q > 0; --q) {
                const auto ref = o.missing and s.chance(5) ? std::int64_t{4000000} + static_cast<std::int64_t>(s.below(3)) : e.nodes[s.below(e.nodes.size())].id;
                if (w.refs.empty() or w.refs.back() != ref) w.refs.push_back(ref);
            }
            if (w.refs.size() > 2 and w.refs.front() != w.refs.back() and s.chance(15)) w.refs.push_back(w.refs.front());
            e.ways.push_back(w);
        }
        return e;
    }

    // a network as described, for comparisons
    struct Described {
        std::map<std::uint64_t, std::pair<ng::P, ng::Tags>> nodes;
        std::multiset<std::tuple<std::uint64_t, std::uint64_t, std::uint64_t, std::vector<ng::P>>> roads;
        std::map<std::uint64_t, ng::Tags> tags;
        bool operator==(const Described &) const = default;
        [[nodiscard]] std::string text() const {
            std::ostringstream o;
            o.precision(15);
            const auto put = [&](const ng::Tags &t) { for (auto &[k, v] : t) o << "{" << k << "=" << v << "}"; };
            o << "nodes";
            for (auto &[id, n] : nodes) o << " " << id << "(" << n.first[0] << " " << n.first[1] << ")", put(n.second);
            o << " roads";
            for (auto &[id, a, b, pts] : roads) { o << " " << id << "[" << a << "->" << b << ":"; for (auto &p : pts) o << " (" << p[0] << " " << p[1] << ")"; o << "]"; }
            o << " attributes";
            for (auto &[id, t] : tags) o << " " << id, put(t);
            return o.str().substr(0, 2000);
        }
    };
    template<typename Network>
    Described describe(Network &net, const char *what) {
        const auto m = ng::read(net, what);
        Described d;
        for (auto &n : m.nodes) pbt::require(d.nodes.emplace(n.id, std::pair{n.p, n.tags}).second, what, ": node ", n.id, " is there twice");
        for (auto &r : m.roads) d.roads.insert({r.id, m.nodes[r.s].id, m.nodes[r.t].id, r.pts});
        for (auto &[id, t] : m.tags) if (not t.empty()) d.tags[id] = t;
        ng::anchored(m, what);
        return d;
    }

    inline Described expected(const Extract &e, const Selection &sel, const tg::Systems &sys) {
        Described d;
        std::map<std::int64_t, const Node *> known;
        for (auto &n : e.nodes) if (not n.deleted) known.emplace(n.id, &n);
        const auto at = [&](const Node &n) { return sys.map({static_cast<double>(n.lon) / 1e7, static_cast<double>(n.lat) / 1e7}); };
        for (auto &w : e.ways) {
            if (w.deleted or not sel.keeps(w)) continue;
            for (auto r : w.refs) if (known.contains(r)) { auto &n = *known[r]; d.nodes.emplace(r, std::pair{at(n), ng::Tags{n.tags.begin(), n.tags.end()}}); }
            for (std::size_t i = 1; i < w.refs.size(); ++i) {
                if (not known.contains(w.refs[i - 1]) or not known.contains(w.refs[i])) continue;
                const Node &a = *known[w.refs[i - 1]], &b = *known[w.refs[i]];
                const auto id = static_cast<std::uint64_t>(w.id), ia = static_cast<std::uint64_t>(a.id), ib = static_cast<std::uint64_t>(b.id);
                if (not sel.backwards(w)) d.roads.insert({id, ia, ib, {at(a), at(b)}});
                if (sel.backwards(w) or not sel.one_way(w)) d.roads.insert({id, ib, ia, {at(b), at(a)}});
                if (not w.tags.empty()) d.tags[id] = {w.tags.begin(), w.tags.end()};
            }
        }
        return d;
    }

    template<typename S>
    void import(typename S::import &net, const std::vector<std::string> &files, const Selection &sel, const geo::point_reprojector_variant &reprojector) {
        using helper = std::remove_cvref_t<decltype(net.graph_helper())>;
        using handler = MM2_OSM_HANDLER(helper, MM2_OSM_HANDLER_HELPER(typename S::cs, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
        handler h{net.graph_helper(), reprojector};
        if (sel.profile == 0) { mm::io::network::osm_importer<handler> i{files, h}; i.read(); }
        else if (sel.profile == 1) { mm::io::network::osm_car_importer<handler> i{files, h}; i.read(); }
        else { mm::io::network::osm_manual_importer<handler> i{files, h, sel.query.text(), sel.filter.text(), sel.oneway.text(), sel.reverse.text()}; i.read(); }
    }

}

#endif
