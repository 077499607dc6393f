// K02: GPX, text and road-list tracks import exactly what they describe.
#include "trackgen.hpp"
#include "netgen.hpp"
#include <boost/unordered/unordered_flat_map.hpp>
#include "io/track/gpx_track_importer.hpp"
#include "io/track/input_importer.hpp"
#include "io/track/edges_list_importer.hpp"
#include "io/track/seattle_ground_truth_importer.hpp"
using namespace pbt;
using namespace tg;

// messages about skipped entries are not of interest
struct Quiet {
    std::ostringstream sink;
    std::streambuf *log{std::clog.rdbuf(sink.rdbuf())}, *err{std::cerr.rdbuf(sink.rdbuf())};
    ~Quiet() { std::clog.rdbuf(log), std::cerr.rdbuf(err); }
};

static Lines mapped(const Systems &sys, const Lines &ls) {
    Lines r;
    for (auto &l : ls) {
        Line q;
        for (auto &p : l) q.push_back(sys.map(p));
        if (not q.empty()) r.push_back(q);
    }
    return r;
}

static void compare(const std::vector<Got> &got, const std::vector<Got> &expected) {
    require(got == expected, "tracks", show(got), " expected", show(expected));
}

static std::string write_file(std::size_t f, const char *ending, const std::string &text) {
    const std::string path = scratch() + "/k02_" + std::to_string(f) + ending;
    std::ofstream{path, std::ios::binary} << text;
    return path;
}

static void gpx_files(Ctx &c) {
    auto &s = c.s;
    const Systems sys = systems(s);
    const bool no_id = s.chance(25);
    const int how = static_cast<int>(s.weighted({35, 20, 10, 10, 25})); // parsed with zone, parsed, numbers, words, "Z" with a format that does not know it
    const bool no_parse = how == 2 or how == 3;
    const std::string format = how == 1 ? s.pick({"%FT%T", "%Y/%m/%d %H:%M:%S"}) : "%FT%T%Oz";
    const auto spread = s.pick({4, 100, 1000000});
    const std::int64_t base = s.range(100000, 4000000000);
    const std::size_t files = s.size(1, 3);
    std::vector<std::string> paths, made, names{"a", "b c", "<x> & \"y\"", "0", "1", ""}, selectors;
    if (s.chance(30)) for (std::size_t k = s.size(1, 3); k > 0; --k) selectors.push_back(s.pick(names));
    std::vector<Got> expected;
    std::size_t counter = 0, points = 0;
    bool tie = false;
    const auto escape = [](const std::string &v) {
        std::string r;
        for (char ch : v) r += ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '&' ? "&amp;" : ch == '"' ? "&quot;" : std::string(1, ch);
        return r;
    };
    for (std::size_t f = 0; f < files; ++f) {
        std::string out = "<?xml version=\"1.0\"?>\n<gpx version=\"1.1\" creator=\"verif\">\n";
        const std::string title = s.chance(40) ? s.pick(names) : "";
        if (s.flip()) out += "<metadata><name>" + escape(title) + "</name></metadata>\n"; else if (not title.empty()) out += "<metadata>\n<name>" + escape(title) + "</name><time>2020-01-01T00:00:00Z</time></metadata>\n";
        std::vector<Got> here;
        const bool broken = s.chance(8);
        const std::size_t saved = counter;
        if (s.chance(20)) out += "<wpt lon=\"1\" lat=\"2\"><time>2020-01-01T00:00:00+00:00</time></wpt>\n";
        for (std::size_t k = s.chance(10) ? 0 : s.size(1, 3); k > 0; --k) {
            const std::string name = s.pick(names);
            out += "<trk>\n";
            if (not name.empty() or s.flip()) out += "<name>" + escape(name) + "</name>\n";
            Lines parts;
            for (std::size_t q = s.chance(10) ? 0 : s.size(1, 3); q > 0; --q) {
                struct At { std::uint64_t stamp; P p; };
                std::vector<At> ms;
                const std::size_t n = s.chance(20) ? s.size(0, 40) : s.size(0, 6);
                out += n == 0 and s.flip() ? "<trkseg/>\n" : "<trkseg>\n";
                const bool empty_tag = out.ends_with("<trkseg/>\n");
                std::int64_t last = 0;
                for (std::size_t i = 0; i < n; ++i) {
                    std::int64_t at = base + static_cast<std::int64_t>(s.below(static_cast<std::uint64_t>(spread)));
                    if (how == 4) at = i == 0 ? base : last + static_cast<std::int64_t>(s.below(3));
                    last = at;
                    const P p = position(s, sys);
                    const bool missing = s.chance(3) and how != 4;
                    const std::int64_t shift = how == 0 ? s.pick({0, 7200, -3600}) : 0;
                    const Civil v = civil(at + shift);
                    std::string time = date_text(v, how == 1 and format[1] == 'Y' ? 2 : 0) + (how == 1 and format[1] == 'Y' ? " " : "T") + time_text(v);
                    if (how == 0) time += std::string{shift < 0 ? "-" : "+"} + two(static_cast<int>(std::abs(shift) / 3600)) + ":00";
                    if (how == 4) time += "Z";
                    if (how == 2) time = std::to_string(at);
                    if (how == 3) time = "at " + std::to_string(s.below(50));
                    const std::string e = s.flip() ? "<ele>3</ele>" : "";
                    out += "<trkpt " + (s.flip() ? "lon=\"" + text(p[0]) + "\" lat=\"" + text(p[1]) + "\"" : "lat=\"" + text(p[1]) + "\" lon=\"" + text(p[0]) + "\"") + ">" + e
                        + (missing ? "" : "<time>" + time + "</time>") + "</trkpt>\n";
                    // points without time stay where they are counted, unreadable times all count alike
                    const std::uint64_t stamp = missing or how == 3 ? ms.size() : how == 4 ? 0 : static_cast<std::uint64_t>(at);
                    for (auto &m : ms) tie = tie or m.stamp == stamp;
                    ms.push_back({stamp, p});
                    ++points;
                }
                if (not empty_tag) out += "</trkseg>\n";
                std::stable_sort(ms.begin(), ms.end(), [](const At &a, const At &b) { return a.stamp < b.stamp; });
                Line l;
                for (auto &m : ms) l.push_back(m.p);
                parts.push_back(l);
            }
            out += "</trk>\n";
            std::string id = no_id ? "" : name.empty() ? title : name;
            if (id.empty()) id = std::to_string(counter++);
            if (selectors.empty() or std::find(selectors.begin(), selectors.end(), id) != selectors.end()) here.push_back({id, mapped(sys, parts), sys.kind()});
        }
        if (broken) { counter = saved; if (s.flip()) out.clear(); }
        else {
            out += "</gpx>\n";
            expected.insert(expected.end(), here.begin(), here.end());
        }
        if (s.chance(5) and not broken and here.empty() and counter == saved) paths.push_back(scratch() + "/missing.gpx");
        else { made.push_back(write_file(f, ".gpx", out)); paths.push_back(made.back()); }
        c.note("file ", f, ":\n", out.substr(0, 1500), "\n");
    }
    c.note("no_id ", no_id, " format ", format, " systems ", sys.transforms, "\n");
    for (auto &x : selectors) c.note("selected '", x, "'\n");
    Forwarder forwarder;
    {
        Quiet quiet;
        mm::io::track::gpx_track_importer<Forwarder> importer{paths, selectors, no_id, format, no_parse, forwarder, sys.tr, sys.reprojector};
        importer.read();
    }
    for (auto &p : made) std::filesystem::remove(p);
    compare(forwarder.got, expected);
    c.nontrivial(points >= 3);
    if (tie) c.count("equal times");
}

static std::string word(Src &s, std::string w) {
    if (s.chance(30)) for (auto &ch : w) if (s.flip()) ch = static_cast<char>(std::tolower(ch));
    return w;
}

static void texts(Ctx &c) {
    auto &s = c.s;
    const Systems sys = systems(s);
    std::vector<Got> expected;
    std::string in;
    std::size_t counter = 0;
    bool ended = false;
    const auto xy = [](const P &p) { return text(p[0]) + " " + text(p[1]); };
    const auto list = [&](const Line &l, const char *sep) { std::string r = "("; for (std::size_t i = 0; i < l.size(); ++i) r += (i ? sep : "") + xy(l[i]); return r + ")"; };
    for (std::size_t k = s.size(1, 8); k > 0; --k) {
        std::string line;
        Lines lines;
        bool bad = false;
        const char *sep = s.pick({",", ", ", " ,"});
        switch (s.weighted({30, 25, 25, 15, 5})) {
            case 0: {
                lines.push_back({});
                const std::size_t n = s.size(1, 8);
                const std::string open = s.pick({"(", " ("}), close = s.pick({")", ") "});
                for (std::size_t i = 0; i < n; ++i) {
                    lines[0].push_back(position(s, sys));
                    line += (i ? s.pick({",", ";", "|", ", ", " ; "}) : "") + word(s, "POINT") + open + xy(lines[0].back()) + close;
                }
                break;
            }
            case 1: {
                lines.push_back({});
                for (std::size_t n = s.size(1, 8); n > 0; --n) lines[0].push_back(position(s, sys));
                line = word(s, "LINESTRING") + list(lines[0], sep);
                break;
            }
            case 2: {
                for (std::size_t m = s.size(1, 4); m > 0; --m) {
                    Line l;
                    for (std::size_t n = s.chance(8) ? 0 : s.size(1, 6); n > 0; --n) l.push_back(position(s, sys));
                    lines.push_back(l);
                }
                line = word(s, "MULTILINESTRING") + "(";
                for (std::size_t m = 0; m < lines.size(); ++m) line += (m ? sep : "") + list(lines[m], sep);
                line += ")";
                break;
            }
            case 3:
                bad = true;
                line = s.pick({"POLYGON((0 0,1 1,1 0,0 0))", "hello", "POINT(1 2),LINESTRING(1 2,3 4)", "LINESTRING(1 2,3 x)", "LINESTRING(1 2,3 4", "POINT(1 2) POINT(3 4)", "x LINESTRING(1 2,3 4)"});
                break;
            default:
                line = s.pick({"", "   ", "\t"});
                ended = true;
        }
        if (not ended and s.chance(20)) line = s.pick({" ", "\t", ""}) + line + s.pick({" ", "\r", "\t "});
        in += line + "\n";
        if (ended) {
            in += "LINESTRING(1 2,3 4)\n";
            break;
        }
        const std::string id = std::to_string(counter++);
        if (not bad) expected.push_back({id, mapped(sys, lines), sys.kind()});
    }
    if (s.chance(20)) in.pop_back();
    c.note("input:\n", in.substr(0, 1500), "\nsystems ", sys.transforms, "\n");
    Forwarder forwarder;
    {
        Quiet quiet;
        std::istringstream stream{in};
        auto *old = std::cin.rdbuf(stream.rdbuf());
        std::cin.clear();
        struct Restore { std::streambuf *b; ~Restore() { std::cin.rdbuf(b); std::cin.clear(); } } restore{old};
        mm::io::track::input_importer<Forwarder> importer{forwarder, sys.tr, sys.reprojector};
        importer.read();
    }
    compare(forwarder.got, expected);
    c.nontrivial(counter >= 2);
    if (expected.size() < counter) c.count("with malformed lines");
    if (ended) c.count("ended by an empty line");
}

static void roads(Ctx &c) {
    auto &s = c.s;
    using S = ng::Cartesian;
    ng::Opt o;
    o.max_nodes = s.chance(50) ? 6 : 12;
    o.same_ids = false, o.tags = false, o.max_extra = 6, o.grid = 4;
    auto m = ng::generate<S>(c, o);
    // roads of their own number, roads in both directions and some parallel ones share theirs
    std::map<std::set<int>, std::vector<std::uint64_t>> between;
    std::uint64_t next = 10;
    for (auto &r : m.roads) {
        auto &ids = between[{r.s, r.t}];
        if (ids.empty() or s.chance(40)) ids.push_back(next++);
        r.id = s.pick(ids);
        if (std::count_if(m.roads.begin(), m.roads.end(), [&](auto &o) { return &o != &r and o.id == r.id and o.s == r.s and o.t == r.t; }) > 1) r.id = next++, ids.push_back(r.id);
    }
    m.tags.clear();
    ng::describe(c, m);
    if (m.roads.empty()) throw Discard{};
    S::import import;
    ng::fill(import, m);
    S::network network;
    ng::prepare(network, import);

    // a file per walk
    const bool other = s.flip();
    const Systems sys = [&] {
        const auto tr = geo::compute_srs_transform(3857, "", other ? 4326 : 3857, "");
        return Systems{tr, geo::create_point_reprojector(tr), other};
    }();
    const bool table = s.flip();
    const char delimiter = s.pick({'\t', ';', ','});
    const std::size_t width = s.size(1, 3), columns = table ? s.size(1, width) : 1;
    std::vector<std::string> column_names;
    std::vector<std::size_t> order;
    for (std::size_t k = 0; k < columns; ++k) order.push_back(s.below(width)), column_names.push_back(std::to_string(order.back()));
    const std::size_t skip = s.below(3);
    std::vector<std::string> paths, made;
    std::vector<std::vector<std::uint64_t>> lists;
    std::vector<bool> judged;
    for (std::size_t f = s.size(1, 3), i = 0; i < f; ++i) {
        std::vector<std::uint64_t> ids;
        int at = -1;
        for (std::size_t n = s.size(1, 8); n > 0; --n) {
            std::vector<const ng::Road *> ways;
            for (auto &r : m.roads) if (at < 0 or r.s == at) ways.push_back(&r);
            if (ways.empty() or s.chance(10)) { ways.clear(); for (auto &r : m.roads) ways.push_back(&r); }
            const auto *r = s.pick(ways);
            at = r->t;
            for (std::size_t q = s.chance(20) ? 2 : 1; q > 0; --q) ids.push_back(r->id);
        }
        bool ok = true;
        if (s.chance(12)) ids[s.below(ids.size())] = 1000 + s.below(5), ok = false;
        if (s.chance(6)) ids.clear(), ok = false;
        std::string out;
        for (std::size_t k = 0; k < skip; ++k) out += s.pick({"# head\n", "\n", "7 8 9\n"});
        std::vector<std::uint64_t> taken;
        for (std::size_t k = 0; k < ids.size();) {
            std::vector<std::string> cells(width, "x");
            std::vector<std::uint64_t> row(width);
            std::vector<bool> set(width);
            for (std::size_t q = 0; q < columns; ++q) {
                const std::size_t col = table ? order[q] : 0;
                if (not set[col]) { row[col] = k < ids.size() ? ids[k] : ids.back(), ++k, set[col] = true; cells[col] = std::to_string(row[col]); }
                taken.push_back(row[col]);
            }
            if (table) for (std::size_t q = 0; q < width; ++q) out += (q ? std::string(1, delimiter) : "") + cells[q];
            else out += cells[0];
            out += s.chance(5) and table ? "\r\n" : "\n";
        }
        if (s.chance(10) and not out.empty() and not ids.empty()) out.pop_back();
        // one road after the other
        taken.erase(std::unique(taken.begin(), taken.end()), taken.end());
        lists.push_back(ok ? taken : std::vector<std::uint64_t>{});
        if (not ok and s.chance(20)) paths.push_back(scratch() + "/missing.txt");
        else made.push_back(write_file(i, ".txt", out)), paths.push_back(made.back());
        c.note("file ", i, ":\n", out);
    }
    c.note("delimited ", table, " skipped lines ", skip, " columns");
    for (auto &n : column_names) c.note(" ", n);

    Forwarder forwarder;
    {
        Quiet quiet;
        using graph_type = std::remove_cvref_t<decltype(network.graph())>;
        mm::io::track::edges_list_importer<Forwarder, graph_type> importer{paths, forwarder, sys.tr, sys.reprojector, network.graph(),
            table ? (delimiter == '\t' ? "\\t" : std::string(1, delimiter)) : "", column_names, skip};
        importer.read();
    }
    for (auto &p : made) std::filesystem::remove(p);

    std::size_t k = 0;
    bool whole = false, gaps = false, choices = false;
    for (std::size_t f = 0; f < lists.size(); ++f) {
        const auto &ids = lists[f];
        if (ids.empty()) continue;
        require(k < forwarder.got.size(), "there is no track of file ", f);
        const auto &got = forwarder.got[k++];
        require_eq(got.id, std::to_string(f), "name of the track of a file");
        require_eq(got.cs, sys.kind(), "kind of the track of a file");
        // as far as possible the roads connect, where they do not the next part begins
        std::size_t at = 0;
        for (const auto &part : got.parts) {
            require(at < ids.size(), "file ", f, " has more parts than roads", show(got.parts));
            // places reached with the roads so far: node and number of points of the part explained (or none)
            std::size_t n = 0;
            using State = std::pair<int, std::size_t>;
            constexpr std::size_t none = std::numeric_limits<std::size_t>::max();
            std::set<State> reached{{-1, 0}};
            std::set<State> last;
            while (at + n < ids.size()) {
                std::set<State> after;
                for (auto &[node, used] : reached) {
                    for (auto &r : m.roads) {
                        if (r.id != ids[at + n] or (node >= 0 and m.nodes[r.s].p != m.nodes[node].p)) continue;
                        Line l;
                        for (std::size_t q = node >= 0 ? 1 : 0; q < r.pts.size(); ++q) l.push_back(sys.map(r.pts[q]));
                        bool same = used != none and used + l.size() <= part.size();
                        for (std::size_t q = 0; same and q < l.size(); ++q) same = part[used + q] == l[q];
                        after.insert({r.t, same ? used + l.size() : none});
                    }
                }
                choices = choices or after.size() > 1;
                if (after.empty()) break;
                reached = std::move(after);
                ++n;
            }
            bool explained = false;
            for (auto &[node, used] : reached) explained = explained or used == part.size();
            require(explained, "file ", f, ": the part beginning with road ", at, " (", ids[at], ") of ", n, " connected roads is not their drive:", show({part}));
            whole = whole or (at == 0 and n == ids.size() and n > 1);
            at += n;
            gaps = gaps or at < ids.size();
        }
        require_eq(at, ids.size(), "roads in the track of file ", f);
    }
    require_eq(forwarder.got.size(), k, "number of tracks");
    c.nontrivial(whole or gaps);
    if (whole) c.count("connected throughout");
    if (gaps) c.count("with gaps");
    if (choices) c.count("with choices");
}

static void seattle(Ctx &c) {
    auto &s = c.s;
    const Systems sys = systems(s);
    // a connected chain of roads, some used against their direction, plus others
    struct R { std::uint64_t id; bool two_way; Line pts; };
    std::vector<R> all;
    Line truth;
    std::string route = s.pick({"Edge ID\tTraversed From to To\n", "\n"});
    P at = position(s, sys);
    bool bad = false;
    std::vector<std::pair<std::size_t, bool>> drive;
    const std::size_t steps = s.size(1, 6);
    for (std::size_t k = 0; k < steps; ++k) {
        if (k > 0 and s.chance(20)) { // back on the last road
            auto [i, forward] = drive.back();
            if (all[i].two_way) { drive.push_back({i, not forward}); at = forward ? all[i].pts.front() : all[i].pts.back(); continue; }
        }
        R r{10 + all.size() * 7, s.flip(), {at}};
        for (std::size_t q = s.size(1, 4); q > 0; --q) r.pts.push_back(position(s, sys));
        at = r.pts.back();
        const bool forward = not r.two_way or s.flip();
        if (not forward) std::reverse(r.pts.begin(), r.pts.end());
        drive.push_back({all.size(), forward});
        all.push_back(r);
    }
    for (auto &[i, forward] : drive) {
        Line l = all[i].pts;
        if (not forward) std::reverse(l.begin(), l.end());
        truth.insert(truth.end(), truth.empty() ? l.begin() : l.begin() + 1, l.end());
        route += std::to_string(all[i].id) + "\t" + (forward ? "1" : "0") + (s.chance(10) ? "\r" : "") + "\n";
    }
    for (std::size_t k = s.below(3); k > 0; --k) all.push_back({1000 + k, s.flip(), {position(s, sys), position(s, sys)}});
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < all.size(); ++i) order.push_back(i);
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);
    std::string network = "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n";
    for (auto i : order) {
        auto &r = all[i];
        network += std::to_string(r.id) + "\t1\t2\t" + (r.two_way ? "1" : "0") + "\t13.4\t" + std::to_string(r.pts.size()) + "\t" + s.pick({"LINESTRING(", " LINESTRING ("});
        for (std::size_t q = 0; q < r.pts.size(); ++q) network += (q ? ", " : "") + text(r.pts[q][0]) + " " + text(r.pts[q][1]);
        network += std::string{")"} + (s.chance(10) ? " \r" : "") + "\n";
    }
    const int missing = s.chance(10) ? static_cast<int>(s.below(2)) : -1;
    std::vector<std::string> paths{write_file(0, ".txt", network), write_file(1, ".txt", route)};
    const auto made = paths;
    if (missing >= 0) paths[missing] = scratch() + "/missing.txt", bad = true;
    c.note("roads:\n", network, "drive:\n", route, "missing ", missing, "\n");
    Forwarder forwarder;
    {
        Quiet quiet;
        mm::io::track::seattle_ground_truth_importer<Forwarder> importer{paths, forwarder, sys.tr, sys.reprojector};
        importer.read();
    }
    for (auto &p : made) std::filesystem::remove(p);
    std::vector<Got> expected;
    if (not bad) expected.push_back({"0", mapped(sys, {truth}), sys.kind()});
    compare(forwarder.got, expected);
    c.nontrivial(drive.size() >= 2);
}

void pbt::define(Suite &s) {
    s.property = "K02";
    s.add("gpx", "one to three files of up to three tracks with up to three segments; non-trivial: three points", 40000, 1500000, gpx_files);
    s.add("texts", "up to eight lines of texts; non-trivial: two lines", 40000, 1500000, texts);
    s.add("roads", "up to three lists of up to eight roads of a network of up to 12 nodes with parallel roads; non-trivial: at least two connected roads or a gap", 40000, 1500000, roads);
    s.add("seattle", "drives over up to six listed roads in either direction; non-trivial: two roads", 15000, 400000, seattle);
    s.assumptions = {"GPX documents are parsed by a stand-in for gpxlib with the same accessors"};
}
