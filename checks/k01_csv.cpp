// K01: CSV tracks import every measurement under the right track in time order.
#include "trackgen.hpp"
#include "io/track/csv_track_importer.hpp"
using namespace pbt;
using namespace tg;

static std::string field(const std::string &v, char delimiter, bool always) {
    if (not always and v.find(delimiter) == std::string::npos and v.find_first_of("\"\r\n") == std::string::npos) return v;
    std::string r = "\"";
    for (char ch : v) { if (ch == '"') r += '"'; r += ch; }
    return r + "\"";
}

// varying notation of the same geometry
static std::string word(Src &s, std::string w) {
    if (s.chance(30)) for (auto &ch : w) if (s.flip()) ch = static_cast<char>(std::tolower(ch));
    return w;
}
static std::string xy(const P &p) { return text(p[0]) + " " + text(p[1]); }
static std::string list(const Line &l, bool gaps) {
    std::string r = "(";
    for (std::size_t i = 0; i < l.size(); ++i) r += (i ? (gaps ? " , " : ",") : "") + xy(l[i]);
    return r + ")";
}

struct Row { std::vector<std::string> ids; std::string time; std::vector<std::string> times; std::uint64_t stamp; P at; std::string geometry; Lines lines; bool is_line, unknown; };

static void csv_files(Ctx &c) {
    auto &s = c.s;
    const Systems sys = systems(s);
    mm::io::csv_settings cfg;
    cfg.wkt = s.flip();
    const bool mixed = cfg.wkt and s.chance(60); // lines among the points
    cfg.no_header = s.chance(25);
    cfg.no_id = s.chance(20);
    cfg.no_id_whole_file = cfg.no_id and s.flip();
    cfg.grouped = s.flip();
    const std::size_t files = cfg.no_id and not cfg.no_id_whole_file ? 1 : s.size(1, 3);
    cfg.skip_lines = s.chance(25) ? s.below(4) : 0;
    const std::vector<std::string> delimiters{",", ";", "\\t", "|", "\\s", "\t", "\\;"};
    cfg.delimiter = s.pick(delimiters);
    const char delimiter = cfg.delimiter == "\\t" or cfg.delimiter == "\t" ? '\t' : cfg.delimiter == "\\s" ? ' ' : cfg.delimiter.back();

    // time notation
    const int how = static_cast<int>(s.weighted({30, 20, 15, 20, 15})); // parsed, number, words, none, two columns parsed
    const int kind = static_cast<int>(s.below(3));
    const bool zone = s.flip(), fractions = s.chance(20);
    cfg.no_parse_time = how == 1 or how == 2 or (how == 3 and s.flip());
    cfg.time_aggregator = s.pick({"_", " ", "T"});
    const std::string between = how == 4 ? cfg.time_aggregator : s.pick({" ", "T"});
    cfg.time_format = std::string{date_format(kind)} + between + (s.flip() ? "%T" : "%H:%M:%S") + (zone ? "%Oz" : "");

    const std::size_t components = s.chance(30) ? 2 : 1;
    cfg.id_aggregator = s.pick({"_", "", "-/-"});
    if (components == 2 and cfg.id_aggregator.empty()) cfg.id_aggregator = "#";

    // columns
    struct Column { std::string name; int what; }; // 0, 1 id, 2 x, 3 y, 4 geometry, 5, 6 time, 7 other
    std::vector<Column> columns;
    const bool standard = s.flip();
    const auto name = [&](const char *plain, const char *other) { return std::string{standard ? plain : other}; };
    if (not cfg.no_id or s.flip()) for (std::size_t k = 0; k < components; ++k) columns.push_back({k ? "vehicle" : name("id", "trip no"), static_cast<int>(k)});
    if (cfg.wkt) columns.push_back({name("geometry", "way,\"points\""), 4});
    else columns.push_back({name("x", "lon"), 2}), columns.push_back({name("y", "lat"), 3});
    if (how != 3) columns.push_back({name("time", "when"), 5});
    if (how == 4) columns.push_back({"clock", 6});
    for (std::size_t k = s.below(3); k > 0; --k) columns.push_back({"other" + std::to_string(k), 7});
    for (std::size_t i = columns.size(); i > 1; --i) std::swap(columns[i - 1], columns[s.below(i)]);
    const auto label = [&](int what) {
        for (std::size_t i = 0; i < columns.size(); ++i) if (columns[i].what == what) return cfg.no_header ? std::to_string(i) : columns[i].name;
        return std::string{what == 5 ? "time" : "none"};
    };
    cfg.field_id = {label(0)};
    if (components == 2) cfg.field_id.push_back(label(1));
    cfg.field_x = label(2), cfg.field_y = label(3), cfg.field_geometry = label(4);
    cfg.field_time = {label(5)};
    if (how == 4) cfg.field_time.push_back(label(6));
    if (how == 3 and s.chance(20)) cfg.field_time.clear();

    const bool always = s.chance(15), crlf = s.chance(15);
    const auto spread = s.pick({3, 20, 100000});
    const std::int64_t base = s.range(100000, 4000000000);
    const std::size_t kinds = s.size(1, 5);

    // rows and what is expected of them
    struct Point { std::uint64_t stamp; P at; };
    std::map<std::string, std::vector<Point>> open;
    std::vector<Got> expected;
    std::vector<std::string> selectors, ids, names;
    const auto selected = [&](const std::string &id) { return selectors.empty() or std::find(selectors.begin(), selectors.end(), id) != selectors.end(); };
    const auto flush = [&] {
        for (auto &[id, points] : open) {
            if (not selected(id)) continue;
            std::stable_sort(points.begin(), points.end(), [](const Point &a, const Point &b) { return a.stamp < b.stamp; });
            Line l;
            for (auto &p : points) l.push_back(sys.map(p.at));
            expected.push_back({id, {l}, sys.kind()});
        }
        open.clear();
    };
    // names of tracks
    const auto component = [&](std::size_t i) {
        switch (s.below(4)) {
            case 0: return "track " + std::to_string(i);
            case 1: return std::to_string(i) + delimiter + "\"x\"";
            case 2: return "T" + std::to_string(i);
            default: return std::to_string(i);
        }
    };
    for (std::size_t i = 0; i < kinds; ++i) names.push_back(component(i));
    std::map<std::pair<std::size_t, std::size_t>, std::pair<std::vector<std::string>, std::string>> composed;
    const auto compose = [&](std::size_t a, std::size_t b) {
        std::vector<std::string> parts{names[a]};
        if (components == 2) parts.push_back("v" + std::to_string(b));
        std::string id = parts[0];
        if (components == 2) id += cfg.id_aggregator + parts[1];
        return std::pair{parts, id};
    };
    if (s.chance(25)) {
        for (std::size_t k = s.size(1, 3); k > 0; --k) selectors.push_back(cfg.no_id ? std::to_string(s.below(6)) : compose(s.below(kinds), s.below(2)).second);
    }

    std::vector<std::string> written;
    std::vector<std::string> paths;
    std::string before; // the id of the previous row
    bool any = false, ties = false;
    std::size_t measurements = 0, others = 0;
    std::set<std::string> closed; // ids of finished groups
    for (std::size_t f = 0; f < files; ++f) {
        std::string out;
        const std::string end = crlf ? "\r\n" : "\n";
        if (not cfg.no_header) {
            for (std::size_t i = 0; i < columns.size(); ++i) out += (i ? std::string(1, delimiter) : "") + field(columns[i].name, delimiter, always);
            out += end;
        }
        const std::size_t rows = s.chance(30) ? s.size(0, 60) : s.size(0, 12);
        std::size_t current = s.below(kinds), car = s.below(2), used = 0;
        for (std::size_t r = 0; r < rows + cfg.skip_lines; ++r) {
            const bool skipped = r < cfg.skip_lines;
            if (s.chance(cfg.grouped ? 25 : 60)) current = s.below(kinds), car = s.below(2);
            auto [parts, id] = compose(current, components == 2 ? car : 0);
            const bool is_line = mixed and (cfg.no_id_whole_file or s.chance(40));
            const std::size_t row = used;
            if (not skipped) ++used;
            if (cfg.no_id) id = std::to_string(cfg.no_id_whole_file ? f : row);
            // a group appears once only, and all of its rows follow each other
            if (cfg.grouped and not cfg.no_id and not skipped and (not any or id != before)) {
                if (closed.contains(id)) { --used; continue; }
                if (any) closed.insert(before);
            }
            const std::int64_t at = base + s.below(static_cast<std::uint64_t>(spread));
            std::vector<std::string> cells(columns.size());
            std::string geometry;
            const P p = position(s, sys);
            Lines lines;
            int unknown = 0;
            if (is_line) {
                const std::size_t n = s.size(1, 4);
                for (std::size_t k = 0; k < n; ++k) { Line l; for (std::size_t q = s.size(1, 6); q > 0; --q) l.push_back(position(s, sys)); lines.push_back(l); }
                const bool gaps = s.flip();
                if (s.chance(10)) lines.clear(), geometry = word(s, s.pick({"LINESTRING EMPTY", "MULTILINESTRING EMPTY", "GEOMETRYCOLLECTION EMPTY", "LINESTRING()"}));
                else if (s.chance(8)) unknown = 1, geometry = "POLYGON((0 0,1 1,1 0,0 0))";
                else if (lines.size() == 1 and s.flip()) geometry = word(s, "LINESTRING") + list(lines[0], gaps);
                else {
                    geometry = word(s, "MULTILINESTRING") + (gaps ? " (" : "(");
                    for (std::size_t k = 0; k < lines.size(); ++k) geometry += (k ? "," : "") + list(lines[k], gaps);
                    if (s.chance(10)) geometry += ",()";
                    geometry += ")";
                }
            } else geometry = word(s, "POINT") + (s.flip() ? " (" : "(") + xy(p) + ")";
            const std::int64_t shift = zone ? s.pick({0, 3600, -5400, 19800}) : 0;
            const Civil local = civil(at + shift);
            std::string fraction = fractions and not (s.chance(50)) ? "." + std::to_string(s.range(100, 999)) : "";
            if (fractions and fraction.empty()) fraction = ".000";
            std::string clock = time_text(local);
            if (fractions) clock += fraction;
            if (zone) clock += std::string{shift < 0 ? "-" : "+"} + two(static_cast<int>(std::abs(shift) / 3600)) + ":" + two(static_cast<int>(std::abs(shift) / 60 % 60));
            for (std::size_t i = 0; i < columns.size(); ++i) {
                auto &cell = cells[i];
                switch (columns[i].what) {
                    case 0: cell = parts[0]; break;
                    case 1: cell = parts.size() > 1 ? parts[1] : "v"; break;
                    case 2: cell = text(p[0]); break;
                    case 3: cell = text(p[1]); break;
                    case 4: cell = geometry; break;
                    case 5: cell = how == 1 ? std::to_string(at) : how == 2 ? "some time " + std::to_string(s.below(100)) : how == 4 ? date_text(local, kind) : date_text(local, kind) + between + clock; break;
                    case 6: cell = clock; break;
                    default: cell = s.pick({"", "a", "1.5", "b c"});
                }
            }
            for (std::size_t i = 0; i < cells.size(); ++i) out += (i ? std::string(1, delimiter) : "") + field(cells[i], delimiter, always);
            out += end;
            if (skipped) continue;
            if (any and cfg.grouped and id != before) flush();
            if (unknown) ++others;
            else if (is_line) {
                ++others;
                if (cfg.no_id) id = std::to_string(row);
                Lines mapped;
                for (auto &l : lines) { Line q; for (auto &v : l) q.push_back(sys.map(v)); mapped.push_back(q); }
                if (selected(id)) expected.push_back({id, mapped, sys.kind()});
            } else {
                ++measurements;
                auto &points = open[id];
                const std::uint64_t stamp = how == 2 or how == 3 ? points.size() : static_cast<std::uint64_t>(at);
                for (auto &q : points) ties = ties or q.stamp == stamp;
                points.push_back({stamp, p});
            }
            before = id;
            any = true;
        }
        if (s.chance(10) and out.size() > end.size() and out.ends_with(end)) out.resize(out.size() - end.size());
        const std::string path = scratch() + "/tracks" + std::to_string(f) + ".csv";
        if (files > 1 and s.chance(8)) paths.push_back(scratch() + "/missing.csv");
        else {
            std::ofstream{path, std::ios::binary} << out;
            paths.push_back(path);
        }
        if (not paths.back().ends_with("missing.csv")) { written.push_back(path); c.note("file ", f, ":\n", out.substr(0, 1500), "\n"); }
        else { // nothing of it is read: simplest is to leave such a case out when it had rows
            if (used > 0) { for (auto &w : written) std::filesystem::remove(w); throw Discard{}; }
        }
    }
    flush();
    c.note("grouped ", cfg.grouped, " no_id ", cfg.no_id, cfg.no_id_whole_file, " no_header ", cfg.no_header, " wkt ", cfg.wkt, " skip ", cfg.skip_lines, " delimiter ", cfg.delimiter, " time ", how, " format ", cfg.time_format, " aggregators ", cfg.time_aggregator, " ", cfg.id_aggregator, " systems ", sys.transforms, "\n");
    for (auto &x : selectors) c.note("selected ", x, "\n");

    Forwarder forwarder;
    {
        // messages about skipped geometries and files are not of interest
        std::ostringstream sink;
        auto *log = std::clog.rdbuf(sink.rdbuf()), *err = std::cerr.rdbuf(sink.rdbuf());
        try {
            mm::io::track::csv_track_importer<Forwarder> importer{paths, selectors, cfg, forwarder, sys.tr, sys.reprojector};
            importer.read();
        } catch (...) { std::clog.rdbuf(log); std::cerr.rdbuf(err); throw; }
        std::clog.rdbuf(log), std::cerr.rdbuf(err);
    }
    for (auto &w : written) std::filesystem::remove(w);
    for (auto &e : expected) std::erase_if(e.parts, [](const Line &l) { return l.empty(); });
    auto got = forwarder.got;
    std::sort(got.begin(), got.end());
    std::sort(expected.begin(), expected.end());
    require(got == expected, "tracks", show(got), " expected", show(expected));
    c.nontrivial(measurements + others >= 3);
    if (ties) c.count("equal times");
    if (others) c.count("lines");
}

void pbt::define(Suite &s) {
    s.property = "K01";
    s.add("csv", "one to three files of up to 60 rows in any notation of columns, identifiers, times and geometries; non-trivial: three rows", 60000, 2000000, csv_files);
}
