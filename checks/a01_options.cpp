// A01: command line and configuration files set exactly what they name.
#include "pbt.hpp"
#include <bit>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <regex>
#include <sstream>
#include <thread>
#include <unistd.h>
#include "app/global.hpp"
#include "app/general.hpp"
#include "app/settings.hpp"
#include "geometry/cache.hpp"
namespace mm = map_matching_2;
namespace app = mm::app;
using namespace pbt;

enum Kind { STR, BOOL, SWITCH, REAL, SIZE, INT, LIST };
using Values = std::vector<std::string>; // canonical form

static std::string canon(const std::string &v) { return v; }
static std::string canon(bool v) { return v ? "1" : "0"; }
static std::string canon(double v) { std::ostringstream o; o << std::hexfloat << v; return o.str(); }
static std::string canon(std::size_t v) { return std::to_string(v); }
static std::string canon(std::uint32_t v) { return std::to_string(v); }
static std::string canon(std::int32_t v) { return std::to_string(v); }
static Values canons(const std::vector<std::string> &v) { return v; }
static Values canons(const auto &v) { return {canon(v)}; }

static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' and c <= 'Z') c = static_cast<char>(c - 'A' + 'a'); return s; }
static Values canonical(Kind k, const Values &given) {
    Values r;
    for (auto &g : given) switch (k) {
        case BOOL: case SWITCH: { const auto l = lower(g); r.push_back(l == "on" or l == "yes" or l == "1" or l == "true" ? "1" : "0"); break; }
        case REAL: r.push_back(canon(std::strtod(g.c_str(), nullptr))); break;
        case SIZE: r.push_back(canon(static_cast<std::size_t>(std::strtoull(g.c_str(), nullptr, 10)))); break;
        case INT: r.push_back(canon(static_cast<std::int32_t>(std::strtol(g.c_str(), nullptr, 10)))); break;
        default: r.push_back(g);
    }
    return r;
}

template<typename D>
struct Option {
    std::string name;
    Kind kind;
    std::optional<std::string> def; // as documented
    std::function<Values(const D &)> get;
    Values pool; // values to use
    char abbreviation = 0;
};

#define FIELD(D, f) [](const D &d) { return canons(d.f); }

// the documented options (help.txt)
template<typename D, typename T>
static void tracks_options(std::vector<Option<D>> &o, const std::string &prefix, T get) {
    o.push_back({prefix + "tracks", LIST, {}, [=](const D &d) { return get(d).files; }, {}});
    o.push_back({prefix + "tracks-file-type", STR, {}, [=](const D &d) { return canons(get(d).file_extension); }, {"csv", "gpx", "CSV", "list", "seattle"}});
}
template<typename D, typename T>
static void csv_options(std::vector<Option<D>> &o, const std::string &prefix, T get) {
    const auto add = [&](const char *name, Kind k, std::optional<std::string> def, auto field, Values pool = {}) {
        o.push_back({prefix + name, k, def, [=](const D &d) { return canons(get(d).*field); }, pool});
    };
    using C = app::csv_tracks_data;
    add("delimiter", STR, ",", &C::delimiter, {";", ",", "\\t", "\\s", "|"});
    add("grouped", BOOL, "yes", &C::grouped);
    add("skip-lines", SIZE, "0", &C::skip_lines);
    add("no-header", SWITCH, "0", &C::no_header);
    add("no-id", SWITCH, "0", &C::no_id);
    add("no-id-whole-file", SWITCH, "0", &C::no_id_whole_file);
    add("id", LIST, "id", &C::ids);
    add("id-aggregator", STR, "_", &C::id_aggregator);
    add("wkt", SWITCH, "0", &C::wkt);
    add("x", STR, "x", &C::x);
    add("y", STR, "y", &C::y);
    add("geometry", STR, "geometry", &C::geometry);
    add("selector", LIST, {}, &C::selectors);
    add("time", LIST, "time", &C::time);
    add("time-aggregator", STR, "_", &C::time_aggregator);
    add("time-format", STR, "%FT%T%Oz", &C::time_format, {"%F %T", "%s", "%FT%TZ"});
    add("no-parse-time", SWITCH, "0", &C::no_parse_time);
}
static const Values codes{"4326", "3857", "25832", "4258", "32633"};
static const Values types{"geographic", "spherical-equatorial", "cartesian"};
template<typename D, typename T>
static void srs_options(std::vector<Option<D>> &o, const std::string &prefix, T get) {
    o.push_back({prefix + "srs", INT, "4326", [=](const D &d) { return canons(get(d)._srs); }, codes});
    o.push_back({prefix + "srs-type", STR, {}, [=](const D &d) { return canons(get(d)._srs_type); }, types});
}
template<typename D, typename T>
static void transform_options(std::vector<Option<D>> &o, const std::string &prefix, T get) {
    srs_options<D>(o, prefix, get);
    o.push_back({prefix + "transform-srs", INT, {}, [=](const D &d) { return canons(get(d)._transform_srs); }, codes});
    o.push_back({prefix + "transform-srs-type", STR, {}, [=](const D &d) { return canons(get(d)._transform_srs_type); }, types});
}
template<typename D>
static void common_options(std::vector<Option<D>> &o) {
    o.push_back({"verbose", SWITCH, "0", FIELD(D, all.verbose), {}});
    o.push_back({"quiet", SWITCH, "0", FIELD(D, all.quiet), {}});
}
template<typename D>
static void work_options(std::vector<Option<D>> &o) {
    common_options(o);
    o.push_back({"read-line", SWITCH, "0", FIELD(D, console.read_line), {}});
    o.push_back({"console", SWITCH, "0", FIELD(D, console.console), {}});
    o.push_back({"threads", SIZE, std::to_string(std::thread::hardware_concurrency()), FIELD(D, performance.threads), {"1", "2", "16", "128"}});
}
template<typename D>
static void files_options(std::vector<Option<D>> &o) {
    o.push_back({"graph-file", STR, "graph.bin", FIELD(D, files.graph_file), {"g.bin", "g g.bin", "/tmp/g"}});
    o.push_back({"tags-file", STR, "tags.bin", FIELD(D, files.tags_file), {"t.bin", "t=1.bin", "/tmp/t"}});
    o.push_back({"index-file", STR, "index.bin", FIELD(D, files.index_file), {"i.bin", "../i", "/tmp/i"}});
}
template<typename D>
static void memory_options(std::vector<Option<D>> &o) {
    o.push_back({"memory-mapping", BOOL, "on", FIELD(D, memory.memory_mapping), {}});
    o.push_back({"memory-mapped-graph", BOOL, "on", FIELD(D, memory.mmap_graph), {}});
    o.push_back({"memory-mapped-indices", BOOL, "on", FIELD(D, memory.mmap_indices), {}});
    o.push_back({"memory-mapped-tags", BOOL, "on", FIELD(D, memory.mmap_tags), {}});
}
static const Values specs{"true", "false", "true|false,access", "false|true,highway", "false|true,oneway=yes|true,oneway=true", "false|false,highway=construction|true,highway", "true|false,a:b=c d"};

static const std::vector<Option<app::prepare_data>> &prepare_options() {
    using D = app::prepare_data;
    static const auto table = [] {
        std::vector<Option<D>> o;
        common_options(o);
        o.push_back({"file", LIST, {}, FIELD(D, network.files), {}, 'i'});
        o.push_back({"output", STR, {}, FIELD(D, network.output), {}, 'o'});
        o.push_back({"format", STR, "osm", FIELD(D, network.format), {"osm", "arc-node", "seattle", "melbourne", "giscup"}});
        o.push_back({"osm-profile", STR, "car", FIELD(D, osm_import.profile), {"car", "manual"}});
        o.push_back({"osm-query", STR, "true", FIELD(D, osm_import.query), specs});
        o.push_back({"osm-filter", STR, "true", FIELD(D, osm_import.filter), specs});
        o.push_back({"osm-oneway", STR, "false", FIELD(D, osm_import.oneway), specs});
        o.push_back({"osm-oneway-reverse", STR, "false", FIELD(D, osm_import.oneway_reverse), specs});
        transform_options<D>(o, "", [](const D &d) -> const app::srs_transform_data & { return d.srs; });
        files_options(o);
        o.push_back({"graph-import-file", STR, "tmp_graph.bin", FIELD(D, files.graph_import_file), {}});
        o.push_back({"tags-import-file", STR, "tmp_tags.bin", FIELD(D, files.tags_import_file), {}});
        o.push_back({"index-build-file", STR, "tmp_index_build.bin", FIELD(D, files.index_build_file), {}});
        o.push_back({"osm-vertices-file", STR, "tmp_osm_vertices.bin", FIELD(D, files.osm_vertices_file), {}});
        o.push_back({"osm-tags-file", STR, "tmp_osm_tags.bin", FIELD(D, files.osm_tags_file), {}});
        o.push_back({"initial-file-size", SIZE, "134217728", FIELD(D, files.initial_size), {"4096", "1099511627776"}});
        o.push_back({"export-nodes-csv-file", STR, {}, FIELD(D, expo.export_nodes_csv_file), {}});
        o.push_back({"export-edges-csv-file", STR, {}, FIELD(D, expo.export_edges_csv_file), {}});
        o.push_back({"export-network-osm-file", STR, {}, FIELD(D, expo.export_network_osm_file), {}});
        o.push_back({"simplify", STR, "all", FIELD(D, process.simplify), {"all", "none", "osm-aware"}});
        o.push_back({"remove-unconnected", BOOL, "off", FIELD(D, process.remove_unconnected), {}});
        o.push_back({"remove-duplicate-nodes", BOOL, "off", FIELD(D, process.remove_duplicate_nodes), {}});
        o.push_back({"remove-duplicate-edges", BOOL, "off", FIELD(D, process.remove_duplicate_edges), {}});
        memory_options(o);
        o.push_back({"memory-mapped-preparation", BOOL, "on", FIELD(D, memory.mmap_preparation), {}});
        o.push_back({"memory-mapped-graph-import", BOOL, "on", FIELD(D, memory.mmap_graph_import), {}});
        o.push_back({"memory-mapped-tags-import", BOOL, "on", FIELD(D, memory.mmap_tags_import), {}});
        o.push_back({"memory-mapped-index-build", BOOL, "on", FIELD(D, memory.mmap_index_build), {}});
        o.push_back({"memory-mapped-osm-vertices", BOOL, "on", FIELD(D, memory.mmap_osm_vertices), {}});
        o.push_back({"memory-mapped-osm-tags", BOOL, "on", FIELD(D, memory.mmap_osm_tags), {}});
        return o;
    }();
    return table;
}

static const std::vector<Option<app::match_data>> &match_options() {
    using D = app::match_data;
    static const auto table = [] {
        std::vector<Option<D>> o;
        work_options(o);
        o.push_back({"input", STR, {}, FIELD(D, input.input), {"."}, 'i'});
        srs_options<D>(o, "network-", [](const D &d) -> const app::srs_data & { return d.srs; });
        files_options(o);
        memory_options(o);
        o.push_back({"output", STR, {}, FIELD(D, match_output.output), {}, 'o'});
        o.push_back({"filename", STR, "matches.csv", FIELD(D, match_output.filename), {}, 'f'});
        o.push_back({"columns", STR, "id,aborted,duration,track,prepared,match,track_length,prepared_length,match_length", FIELD(D, match_output.columns),
            {"id", "id,match", "edge_ids", "match,edge_ids,id", "xedge_ids,edge_idsx", "id,duration,match"}});
        o.push_back({"export-edges", BOOL, "off", FIELD(D, match_output.export_edges), {}});
        o.push_back({"join-merges", BOOL, "on", FIELD(D, match_output.join_merges), {}});
        tracks_options<D>(o, "", [](const D &d) -> const app::tracks_data & { return d.tracks; });
        transform_options<D>(o, "tracks-", [](const D &d) -> const app::srs_transform_data & { return d.srs_tracks; });
        csv_options<D>(o, "", [](const D &d) -> const app::csv_tracks_data & { return d.csv; });
        o.push_back({"candidates", STR, {}, FIELD(D, expo.candidates), {}});
        o.push_back({"candidates-columns", STR, "id,part_index,set_index,candidate_index,projection,distance,from,to,edge_id,is_result", FIELD(D, expo.candidates_columns), {"id", "id,projection"}});
        const auto real = [&](const char *name, const char *def, auto get) { o.push_back({name, REAL, def, get, {}}); };
        const auto toggle = [&](const char *name, const char *def, auto get) { o.push_back({name, BOOL, def, get, {}}); };
        real("max-time", "0.0", FIELD(D, matching.max_time));
        toggle("filter-duplicates", "on", FIELD(D, matching.filter_duplicates));
        toggle("simplify-track", "on", FIELD(D, matching.simplify_track));
        real("simplify-track-distance-tolerance", "5.0", FIELD(D, matching.simplify_track_distance_tolerance));
        toggle("median-merge", "on", FIELD(D, matching.median_merge));
        real("median-merge-distance-tolerance", "10.0", FIELD(D, matching.median_merge_distance_tolerance));
        toggle("adaptive-median-merge", "on", FIELD(D, matching.adaptive_median_merge));
        toggle("within-edge-turns", "off", FIELD(D, matching.within_edge_turns));
        o.push_back({"a-star", SWITCH, "0", FIELD(D, matching.a_star), {}});
        real("routing-max-distance-factor", "5.0", FIELD(D, matching.routing_max_distance_factor));
        toggle("candidate-adoption-siblings", "on", FIELD(D, matching.candidate_adoption_siblings));
        toggle("candidate-adoption-nearby", "on", FIELD(D, matching.candidate_adoption_nearby));
        toggle("candidate-adoption-reverse", "off", FIELD(D, matching.candidate_adoption_reverse));
        o.push_back({"candidate-search", STR, "combined", FIELD(D, matching.candidate_search), {"circle", "nearest", "combined", "next"}});
        real("radius", "200.0", FIELD(D, matching.radius));
        real("radius-upper-limit", "10000.0", FIELD(D, matching.radius_upper_limit));
        real("radius-lower-limit", "200.0", FIELD(D, matching.radius_lower_limit));
        toggle("adaptive-radius", "on", FIELD(D, matching.adaptive_radius));
        o.push_back({"k-nearest", SIZE, "16", FIELD(D, matching.k_nearest), {}});
        o.push_back({"model", STR, "value-iteration", FIELD(D, model.model), {"policy-iteration", "value-iteration", "q-learning", "viterbi"}});
        toggle("skip-errors", "on", FIELD(D, model.skip_errors));
        o.push_back({"state-size", SIZE, "2", FIELD(D, model.state_size), {"2", "3"}});
        real("discount", "0.99", FIELD(D, model.discount));
        real("mdp-distance-factor", "0.8", FIELD(D, weights_mdp.distance_factor));
        real("mdp-length-factor", "0.3", FIELD(D, weights_mdp.length_factor));
        real("mdp-azimuth-factor", "0.5", FIELD(D, weights_mdp.azimuth_factor));
        real("mdp-direction-factor", "0.6", FIELD(D, weights_mdp.direction_factor));
        real("mdp-turn-factor", "0.5", FIELD(D, weights_mdp.turn_factor));
        real("hmm-distance-factor", "0.8", FIELD(D, weights_hmm.distance_factor));
        real("hmm-length-factor", "0.1", FIELD(D, weights_hmm.length_factor));
        real("hmm-azimuth-factor", "0.2", FIELD(D, weights_hmm.azimuth_factor));
        real("hmm-direction-factor", "0.8", FIELD(D, weights_hmm.direction_factor));
        real("hmm-turn-factor", "0.6", FIELD(D, weights_hmm.turn_factor));
        real("threshold", "1e-3", FIELD(D, dynamic_programming.threshold));
        real("learning-rate", "0.9", FIELD(D, learning.learning_rate));
        real("epsilon", "0.5", FIELD(D, learning.epsilon));
        real("early-stop-factor", "1.0", FIELD(D, learning.early_stop_factor));
        o.push_back({"max-episodes", SIZE, "1000000000", FIELD(D, learning.episodes), {}});
        return o;
    }();
    return table;
}

static const std::vector<Option<app::compare_data>> &compare_options() {
    using D = app::compare_data;
    static const auto table = [] {
        std::vector<Option<D>> o;
        work_options(o);
        o.push_back({"output", STR, {}, FIELD(D, compare_output.output), {}, 'o'});
        o.push_back({"filename", STR, "comparison.csv", FIELD(D, compare_output.filename), {}, 'f'});
        o.push_back({"columns", STR, "id,duration,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed,corrects,error_adds,error_misses",
            FIELD(D, compare_output.columns), {"id", "id,match"}});
        tracks_options<D>(o, "match-", [](const D &d) -> const app::tracks_data & { return d.match; });
        transform_options<D>(o, "match-", [](const D &d) -> const app::srs_transform_data & { return d.srs_match; });
        csv_options<D>(o, "match-", [](const D &d) -> const app::csv_tracks_data & { return d.csv_match; });
        tracks_options<D>(o, "compare-", [](const D &d) -> const app::tracks_data & { return d.comparison; });
        o.push_back({"ignore-non-existent", SWITCH, "0", FIELD(D, comparison.ignore_non_existent), {}});
        o.push_back({"compare-simplify-distance-tolerance", REAL, "0.1", FIELD(D, comparison.simplifying_tolerance), {}});
        o.push_back({"compare-simplify-reverse-tolerance", REAL, "0.1", FIELD(D, comparison.simplifying_reverse_tolerance), {}});
        o.push_back({"compare-adoption-distance-tolerance", REAL, "0.1", FIELD(D, comparison.adoption_distance_tolerance), {}});
        o.push_back({"compare-split-distance-tolerance", REAL, "1.0", FIELD(D, comparison.split_distance_tolerance), {}});
        o.push_back({"compare-split-direction-tolerance", REAL, "90.0", FIELD(D, comparison.split_direction_tolerance), {}});
        transform_options<D>(o, "compare-", [](const D &d) -> const app::srs_transform_data & { return d.srs_compare; });
        csv_options<D>(o, "compare-", [](const D &d) -> const app::csv_tracks_data & { return d.csv_compare; });
        return o;
    }();
    return table;
}

// what the program was started with
struct Started {
    int times = 0;
    app::MODE mode = app::NONE;
    bool verbose = false, quiet = false, cached = false;
    bool accepted = false; // options processed
    app::prepare_data prepare;
    app::match_data match;
    app::compare_data compare;
};
static Started *started = nullptr;
static void start(app::MODE mode, auto &data, auto &&options, int argc, char *argv[]) {
    ++started->times;
    started->mode = mode;
    started->verbose = app::global.verbose, started->quiet = app::global.quiet;
    started->cached = mm::geometry::use_distance_cache and mm::geometry::use_azimuth_cache;
    // as the modes do
    auto all = options(data);
    boost::program_options::variables_map vm;
    if (not app::process(argc, argv, vm, all, mode)) return;
    data.correct(vm);
    started->accepted = true;
}
namespace map_matching_2::app { // in place of the work itself
    int prepare(int argc, char *argv[]) { start(MODE::PREPARE, started->prepare, options_prepare, argc, argv); return 0; }
    int match_cli(int argc, char *argv[]) { start(MODE::MATCH, started->match, options_match, argc, argv); return 0; }
    int compare(int argc, char *argv[]) { start(MODE::COMPARE, started->compare, options_compare, argc, argv); return 0; }
}

struct Setting { Values given; bool in_file = false, on_line = false; };
using Chosen = std::map<std::string, Setting>;

static std::string word(Ctx &c) {
    static const std::string alphabet = "abcxyz019_.,:;=/ -%AB";
    std::string s;
    for (std::size_t n = c.s.size(1, 6); n > 0; --n) s += alphabet[c.s.below(alphabet.size())];
    while (not s.empty() and (s.front() == ' ' or s.front() == '-' or s.front() == '=')) s.erase(0, 1);
    while (not s.empty() and s.back() == ' ') s.pop_back();
    return s.empty() ? "w" : s;
}
template<typename D>
static Values some_value(Ctx &c, const Option<D> &o) {
    const auto one = [&]() -> std::string {
        if (not o.pool.empty() and (c.s.chance(70) or o.kind != REAL)) return c.s.pick(o.pool);
        switch (o.kind) {
            case BOOL: return c.s.pick({"on", "off", "yes", "no", "true", "false", "1", "0", "ON", "Off"});
            case SWITCH: return c.s.pick({"on", "yes", "true", "1", "off", "no", "false", "0"});
            case REAL: {
                if (c.s.chance(20)) return "0";
                std::ostringstream s;
                s << (c.s.chance(10) ? "-" : "") << c.s.below(c.s.chance(50) ? 10 : 20000);
                if (c.s.flip()) s << "." << c.s.below(1000);
                if (c.s.chance(20)) s << "e" << (c.s.flip() ? "-" : "") << c.s.below(5);
                return s.str();
            }
            case SIZE: return std::to_string(c.s.below(c.s.flip() ? 5 : 1000000));
            case INT: return std::to_string(c.s.below(1000));
            default: return word(c);
        }
    };
    Values v;
    for (std::size_t n = o.kind == LIST ? c.s.size(1, 3) : 1; n > 0; --n) v.push_back(one());
    return v;
}

struct Line { std::vector<std::string> arguments; std::string file; std::string config; bool default_config = false; };

// writes the settings down in some order and notation
template<typename D>
static Line write(Ctx &c, const std::vector<Option<D>> &options, const Chosen &line, const Chosen &file, const std::string &mode, const std::vector<std::string> &extra, bool mode_in_file) {
    Line r;
    struct Piece { std::vector<std::string> words; };
    std::vector<std::vector<Piece>> groups; // the pieces of a group keep their order
    for (auto &o : options) {
        const auto it = line.find(o.name);
        if (it == line.end()) continue;
        std::vector<Piece> group;
        for (auto &v : it->second.given) {
            const std::string name = o.abbreviation and c.s.flip() ? std::string{"-"} + o.abbreviation : "--" + o.name;
            if (o.kind == SWITCH) group.push_back({{name}});
            else if (name[1] == '-' and (c.s.flip() or v.starts_with('-'))) group.push_back({{name + "=" + v}});
            else group.push_back({{name, v}});
        }
        groups.push_back(std::move(group));
    }
    if (not mode_in_file and not mode.empty()) groups.push_back({{{"--" + mode}}});
    for (auto &e : extra) groups.push_back({{{e}}});
    std::string f;
    std::vector<std::string> rows;
    for (auto &o : options) {
        const auto it = file.find(o.name);
        if (it == file.end()) continue;
        std::string row;
        for (auto &v : it->second.given) row += o.name + (c.s.flip() ? " = " : "=") + v + (c.s.chance(10) ? " # comment\n" : "\n");
        rows.push_back(row);
    }
    if (mode_in_file) rows.push_back(mode + "=true\n");
    while (not rows.empty()) {
        const auto k = c.s.below(rows.size());
        if (c.s.chance(10)) f += "# comment=1\n\n";
        f += rows[k], rows.erase(rows.begin() + static_cast<std::ptrdiff_t>(k));
    }
    r.file = f;
    if (not file.empty() or mode_in_file or c.s.chance(20)) {
        r.default_config = c.s.chance(30);
        r.config = r.default_config ? "options.conf" : c.s.pick({std::string{"my.conf"}, std::string{"con f.txt"}});
        if (not r.default_config) {
            if (c.s.flip()) groups.push_back({{{"--config", r.config}}});
            else if (c.s.flip()) groups.push_back({{{"-c", r.config}}});
            else groups.push_back({{{"--config=" + r.config}}});
        }
    }
    while (not groups.empty()) {
        const auto k = c.s.below(groups.size());
        for (auto &w : groups[k].front().words) r.arguments.push_back(w);
        groups[k].erase(groups[k].begin());
        if (groups[k].empty()) groups.erase(groups.begin() + static_cast<std::ptrdiff_t>(k));
    }
    return r;
}

struct Here { // inside a scratch folder, nothing is printed
    std::filesystem::path before = std::filesystem::current_path(), folder = scratch() + "/options";
    std::ostringstream out, log;
    std::streambuf *a, *b;
    Here() {
        std::filesystem::remove_all(folder), std::filesystem::create_directories(folder), std::filesystem::current_path(folder);
        a = std::cout.rdbuf(out.rdbuf()), b = std::clog.rdbuf(log.rdbuf());
    }
    ~Here() {
        std::cout.rdbuf(a), std::clog.rdbuf(b);
        std::filesystem::current_path(before), std::filesystem::remove_all(folder);
    }
};

static int run(Ctx &c, Started &s, const Line &line) {
    Here here;
    if (not line.config.empty()) {
        std::ofstream f{line.config};
        f << line.file;
        c.note("[", line.config, ": ", line.file, "]");
    }
    std::vector<std::string> words{"map_matching_2"};
    words.insert(words.end(), line.arguments.begin(), line.arguments.end());
    for (auto &w : line.arguments) c.note("'", w, "'");
    std::vector<char *> argv;
    for (auto &w : words) argv.push_back(w.data());
    argv.push_back(nullptr);
    started = &s;
    app::global = {};
    mm::geometry::disable_cache();
    const int r = app::mode(static_cast<int>(words.size()), argv.data());
    started = nullptr;
    c.note("=", r, "{", here.log.str(), "}");
    return r;
}

using Expected = std::map<std::string, Values>;
static bool yes(const Expected &e, const std::string &n) { return e.at(n).at(0) == "1"; }
static double number(const Expected &e, const std::string &n) { return std::strtod(e.at(n).at(0).c_str(), nullptr); }

template<typename D>
static Expected expect(const std::vector<Option<D>> &options, const Chosen &line, const Chosen &file) {
    Expected e;
    for (auto &o : options) {
        if (line.contains(o.name)) {
            // a switch on the command line is always on
            e[o.name] = o.kind == SWITCH ? Values{"1"} : canonical(o.kind, line.at(o.name).given);
        } else if (file.contains(o.name)) e[o.name] = canonical(o.kind, file.at(o.name).given);
        else if (o.def) e[o.name] = canonical(o.kind, {*o.def});
        else e[o.name] = o.kind == LIST ? Values{} : o.kind == INT ? Values{"-1"} : Values{""};
    }
    if (yes(e, "quiet")) e["verbose"] = {"0"};
    return e;
}

static void corrected_tracks(Expected &e, const std::string &prefix, bool read_line) {
    if (read_line) return;
    auto &type = e[prefix + "tracks-file-type"];
    if (type[0].empty()) {
        const auto &first = e[prefix + "tracks"].at(0);
        const auto dot = first.rfind('.');
        type[0] = first.substr(dot + 1);
    }
    type[0] = lower(type[0]);
}

struct Srs { std::int32_t code, to_code; mm::geometry::SRS type, to_type; bool transform; };
static mm::geometry::SRS detected(std::int32_t code) { return code == 4326 or code == 4258 ? mm::geometry::SRS::CS_GEOGRAPHIC : mm::geometry::SRS::CS_CARTESIAN; }
static mm::geometry::SRS named(const std::string &s) {
    return s == "geographic" ? mm::geometry::SRS::CS_GEOGRAPHIC : s == "cartesian" ? mm::geometry::SRS::CS_CARTESIAN : mm::geometry::SRS::CS_SPHERICAL_EQUATORIAL;
}
static Srs srs_of(const Expected &e, const std::string &prefix) {
    Srs r;
    r.code = std::atoi(e.at(prefix + "srs").at(0).c_str());
    const auto &type = e.at(prefix + "srs-type").at(0);
    r.type = type.empty() ? detected(r.code) : named(type);
    r.to_code = r.code, r.to_type = r.type, r.transform = false;
    const auto to = e.find(prefix + "transform-srs");
    if (to == e.end()) return r;
    const int code = std::atoi(to->second.at(0).c_str());
    const auto &to_type = e.at(prefix + "transform-srs-type").at(0);
    if (code >= 0) r.to_code = code, r.to_type = to_type.empty() ? detected(code) : named(to_type);
    else if (not to_type.empty()) {
        r.to_type = named(to_type);
        if (to_type == "geographic") r.to_code = 4326;
        if (to_type == "cartesian") r.to_code = 3857;
    }
    r.transform = r.code != r.to_code or r.type != r.to_type;
    return r;
}
static void same_srs(const mm::geometry::srs &s, const Srs &want, const std::string &what) {
    require_eq(s.srs_code, want.code, what, "srs");
    require(s.srs_type == want.type, what, "srs-type");
}
static void same_srs(const mm::geometry::srs_transform &s, const Srs &want, const std::string &what) {
    same_srs(static_cast<const mm::geometry::srs &>(s), want, what);
    require_eq(s.transform_srs_code, want.to_code, what, "transform-srs");
    require(s.transform_srs_type == want.to_type, what, "transform-srs-type");
    require_eq(s.transform, want.transform, what, "whether coordinates are transformed");
}

template<typename D>
static void same(const std::vector<Option<D>> &options, const D &data, const Expected &e) {
    for (auto &o : options) {
        const auto got = o.get(data);
        std::string a, b;
        for (auto &v : got) a += "<" + v + ">";
        for (auto &v : e.at(o.name)) b += "<" + v + ">";
        require(got == e.at(o.name), o.name, " is ", a, ", expected ", b);
    }
}

template<typename D>
static void choose(Ctx &c, const std::vector<Option<D>> &options, Chosen &line, Chosen &file) {
    const unsigned how_many = c.s.pick({2u, 5u, 15u, 50u, 100u});
    for (auto &o : options) {
        if (not c.s.chance(how_many)) continue;
        const auto kind = c.s.below(10);
        if (kind < 5 or kind >= 8) line[o.name].given = o.kind == SWITCH ? Values{"1"} : some_value(c, o);
        if (kind >= 5) file[o.name].given = some_value(c, o);
        if (kind >= 8) c.count("given twice");
        if (kind >= 5 and kind < 8) c.count("in the file");
        if (kind < 5) c.count("on the line");
    }
}
static void track_files(Ctx &c, Chosen &line, Chosen &file, const std::string &prefix) {
    Values files;
    const std::string ending = c.s.pick({".csv", ".gpx", ".CSV", ".list", ".seattle"});
    for (std::size_t n = c.s.size(1, 3); n > 0; --n) files.push_back(c.s.pick({std::string{"a b"}, std::string{"t.x"}, std::string{"/tmp/some.where/t"}}) + ending);
    file.erase(prefix + "tracks"), line.erase(prefix + "tracks");
    if (c.s.flip()) line[prefix + "tracks"].given = files; else file[prefix + "tracks"].given = files;
}

// a mode and its name
struct Mode { app::MODE mode; std::string name; };

template<typename D>
static Started launched(Ctx &c, const std::vector<Option<D>> &options, const Chosen &line, const Chosen &file, const Mode &m, const Expected &e) {
    Started s;
    const auto l = write(c, options, line, file, m.name, {}, c.s.chance(10));
    const int r = run(c, s, l);
    require_eq(r, 0, "exit code");
    require_eq(s.times, 1, "number of modes started");
    require(s.mode == m.mode, "the mode is another than ", m.name);
    require(s.accepted, "valid options were refused");
    require_eq(s.verbose, yes(e, "verbose"), "verbose output");
    require_eq(s.quiet, yes(e, "quiet"), "quiet output");
    require_eq(s.cached, m.mode != app::PREPARE, "use of caches");
    return s;
}

static void prepare_mode(Ctx &c) {
    const auto &options = prepare_options();
    Chosen line, file;
    choose(c, options, line, file);
    for (auto n : {"file", "output"}) if (not line.contains(n) and not file.contains(n)) (c.s.flip() ? line : file)[n].given = {word(c)};
    auto e = expect(options, line, file);
    const auto given = [&](const char *n) { return line.contains(n) or file.contains(n); };
    if (e["format"][0] == "seattle" and not given("remove-duplicate-nodes")) e["remove-duplicate-nodes"] = {"1"};
    const auto inherit = [&](const char *from, std::initializer_list<const char *> to) { for (auto t : to) if (not given(t)) e[t] = e[from]; };
    if (given("memory-mapping")) {
        inherit("memory-mapping", {"memory-mapped-graph", "memory-mapped-indices", "memory-mapped-tags", "memory-mapped-preparation"});
    }
    if (given("memory-mapping") or given("memory-mapped-preparation"))
        inherit("memory-mapped-preparation", {"memory-mapped-graph-import", "memory-mapped-tags-import", "memory-mapped-index-build", "memory-mapped-osm-vertices", "memory-mapped-osm-tags"});
    const auto s = launched(c, options, line, file, {app::PREPARE, "prepare"}, e);
    same(options, s.prepare, e);
    same_srs(s.prepare.srs.srs_transform, srs_of(e, ""), "");
    c.nontrivial(line.size() + file.size() >= 5);
}

static Values split(const std::string &s) {
    Values r{""};
    for (char ch : s) if (ch == ',') r.emplace_back(); else r.back() += ch;
    return r;
}

static void same_csv(const mm::io::csv_settings &s, const Expected &e, const std::string &prefix, bool time) {
    const auto is = [&](const char *option, const auto &field) {
        const auto got = canons(field);
        require(got == e.at(prefix + option), "csv setting of ", prefix, option, " differs");
    };
    is("delimiter", s.delimiter), is("grouped", s.grouped), is("no-header", s.no_header), is("no-id", s.no_id), is("no-id-whole-file", s.no_id_whole_file), is("wkt", s.wkt);
    is("skip-lines", s.skip_lines), is("id", s.field_id), is("x", s.field_x), is("y", s.field_y), is("geometry", s.field_geometry), is("id-aggregator", s.id_aggregator);
    if (time) is("time", s.field_time), is("time-aggregator", s.time_aggregator), is("time-format", s.time_format), is("no-parse-time", s.no_parse_time);
}

static void match_mode(Ctx &c) {
    const auto &options = match_options();
    Chosen line, file;
    choose(c, options, line, file);
    if (not line.contains("input") and not file.contains("input")) (c.s.flip() ? line : file)["input"].given = {"."};
    track_files(c, line, file, "");
    auto e = expect(options, line, file);
    const auto given = [&](const char *n) { return line.contains(n) or file.contains(n); };
    if (given("memory-mapping")) for (auto t : {"memory-mapped-graph", "memory-mapped-indices", "memory-mapped-tags"}) if (not given(t)) e[t] = e["memory-mapping"];
    corrected_tracks(e, "", yes(e, "read-line"));
    if (not yes(e, "candidate-adoption-nearby") and not yes(e, "candidate-adoption-siblings") and not yes(e, "candidate-adoption-reverse") and not given("within-edge-turns")) e["within-edge-turns"] = {"1"};
    // the limits include the radius
    if (number(e, "radius") > number(e, "radius-upper-limit")) e["radius-upper-limit"] = e["radius"];
    if (number(e, "radius") < number(e, "radius-lower-limit")) e["radius-lower-limit"] = e["radius"];
    if (e["candidate-search"][0] == "next") e["k-nearest"] = {"1"};
    const auto s = launched(c, options, line, file, {app::MATCH, "match"}, e);
    same(options, s.match, e);
    const auto columns = split(e["columns"][0]);
    const bool edge_ids = std::count(columns.begin(), columns.end(), "edge_ids") > 0;
    require_eq(s.match.match_output.export_edge_ids, edge_ids, "whether edge ids are exported");
    same_srs(s.match.srs.srs, srs_of(e, "network-"), "network-");
    same_srs(s.match.srs_tracks.srs_transform, srs_of(e, "tracks-"), "tracks-");

    app::set_global_verbose_quiet(s.verbose, s.quiet);
    const auto m = app::_match_settings(s.match);
    const auto is = [&](const char *option, const auto &field) { require(canons(field) == e.at(option), "match setting of ", option, " differs"); };
    is("verbose", m.verbose), is("quiet", m.quiet), is("console", m.console);
    same_srs(m.tracks_srs_transform, srs_of(e, "tracks-"), "setting tracks-");
    is("export-edges", m.export_edges), is("join-merges", m.join_merges), is("output", m.output), is("filename", m.filename), is("candidates", m.export_candidates);
    require_eq(m.export_edge_ids, edge_ids, "setting for edge ids");
    is("max-time", m.max_time), is("filter-duplicates", m.filter_duplicates), is("simplify-track", m.simplify_track), is("median-merge", m.median_merge), is("adaptive-median-merge", m.adaptive_median_merge);
    is("within-edge-turns", m.within_edge_turns), is("a-star", m.a_star), is("adaptive-radius", m.adaptive_radius);
    is("candidate-adoption-siblings", m.candidate_adoption_siblings), is("candidate-adoption-nearby", m.candidate_adoption_nearby), is("candidate-adoption-reverse", m.candidate_adoption_reverse);
    is("routing-max-distance-factor", m.routing_max_distance_factor), is("simplify-track-distance-tolerance", m.simplify_track_distance_tolerance), is("median-merge-distance-tolerance", m.median_merge_distance_tolerance);
    is("radius", m.radius), is("radius-upper-limit", m.radius_upper_limit), is("radius-lower-limit", m.radius_lower_limit), is("k-nearest", m.k_nearest);
    is("skip-errors", m.skip_errors), is("state-size", m.state_size), is("discount", m.discount);
    is("mdp-distance-factor", m.mdp_distance_factor), is("mdp-length-factor", m.mdp_length_factor), is("mdp-azimuth-factor", m.mdp_azimuth_factor), is("mdp-direction-factor", m.mdp_direction_factor), is("mdp-turn-factor", m.mdp_turn_factor);
    is("hmm-distance-factor", m.hmm_distance_factor), is("hmm-length-factor", m.hmm_length_factor), is("hmm-azimuth-factor", m.hmm_azimuth_factor), is("hmm-direction-factor", m.hmm_direction_factor), is("hmm-turn-factor", m.hmm_turn_factor);
    is("threshold", m.threshold), is("learning-rate", m.learning_rate), is("epsilon", m.epsilon), is("early-stop-factor", m.early_stop_factor), is("max-episodes", m.episodes);
    using S = mm::matching::settings;
    const std::map<std::string, S::CANDIDATE_SEARCH> searches{{"circle", S::CIRCLE}, {"nearest", S::NEAREST}, {"combined", S::COMBINED}, {"next", S::NEXT}};
    require(m.candidate_search == searches.at(e["candidate-search"][0]), "setting of candidate-search differs");
    const std::map<std::string, S::MODEL> models{{"policy-iteration", S::POLICY_ITERATION}, {"value-iteration", S::VALUE_ITERATION}, {"q-learning", S::Q_LEARNING}, {"viterbi", S::VITERBI}};
    require(m.model == models.at(e["model"][0]), "setting of model differs");
    same_csv(app::_csv_tracks_settings(s.match.csv), e, "", true);
    c.nontrivial(line.size() + file.size() >= 5);
}

static void compare_mode(Ctx &c) {
    const auto &options = compare_options();
    Chosen line, file;
    choose(c, options, line, file);
    track_files(c, line, file, "match-"), track_files(c, line, file, "compare-");
    auto e = expect(options, line, file);
    corrected_tracks(e, "match-", yes(e, "read-line")), corrected_tracks(e, "compare-", yes(e, "read-line"));
    const auto s = launched(c, options, line, file, {app::COMPARE, "compare"}, e);
    same(options, s.compare, e);
    same_srs(s.compare.srs_match.srs_transform, srs_of(e, "match-"), "match-");
    same_srs(s.compare.srs_compare.srs_transform, srs_of(e, "compare-"), "compare-");
    app::set_global_verbose_quiet(s.verbose, s.quiet);
    const auto m = app::_compare_settings(s.compare);
    const auto is = [&](const char *option, const auto &field) { require(canons(field) == e.at(option), "compare setting of ", option, " differs"); };
    is("verbose", m.verbose), is("quiet", m.quiet), is("console", m.console), is("output", m.output), is("filename", m.filename), is("ignore-non-existent", m.ignore_non_existent);
    same_srs(m.matches_srs_transform, srs_of(e, "match-"), "setting match-");
    same_srs(m.ground_truth_srs_transform, srs_of(e, "compare-"), "setting compare-");
    is("compare-simplify-distance-tolerance", m.simplifying_tolerance), is("compare-simplify-reverse-tolerance", m.simplifying_reverse_tolerance), is("compare-adoption-distance-tolerance", m.adoption_distance_tolerance);
    is("compare-split-distance-tolerance", m.split_distance_tolerance), is("compare-split-direction-tolerance", m.split_direction_tolerance);
    same_csv(app::_csv_settings(s.compare.csv_match), e, "match-", false);
    same_csv(app::_csv_settings(s.compare.csv_compare), e, "compare-", false);
    c.nontrivial(line.size() + file.size() >= 5);
}

// something is wrong with the options: nothing may be started with them
static void refused(Ctx &c) {
    const auto mode = c.s.pick({app::PREPARE, app::MATCH, app::COMPARE});
    const auto wrong = [&](const auto &options, const std::string &name, Chosen line, Chosen file) {
        std::vector<std::string> extra;
        std::string mode_name = name;
        const auto set = [&](const std::string &option, Values v) { line.erase(option), file.erase(option), (c.s.flip() ? line : file)[option].given = std::move(v); };
        const auto of_kind = [&](std::initializer_list<Kind> kinds) -> const auto & {
            std::vector<std::size_t> at;
            for (std::size_t i = 0; i < options.size(); ++i) if (std::find(kinds.begin(), kinds.end(), options[i].kind) != kinds.end()) at.push_back(i);
            return options[c.s.pick(at)];
        };
        bool missing_config = false;
        switch (c.s.below(14)) {
            case 0: extra = {c.s.pick({"--unknown", "--unknown=1", "--no-such-option=x"})}; break;
            case 1: { // in the file
                if (c.s.flip()) set(of_kind({BOOL}).name, {c.s.pick({"maybe", "2", "onn", "-1"})});
                else { const auto &o = of_kind({SWITCH}); line.erase(o.name), file[o.name].given = {"maybe"}; }
                break;
            }
            case 2: set(of_kind({REAL, SIZE, INT}).name, {c.s.pick({"abc", "1,5", "1x", "0.5.5", "--"})}); break;
            case 3: set(of_kind({SIZE, INT}).name, {c.s.pick({"1.5", "1e3", "99999999999999999999999"})}); break;
            case 4: mode_name = c.s.pick({std::string{}, std::string{"server"}, name}); if (mode_name == name) extra = {name == "match" ? "--prepare" : "--match"}; else if (mode_name == "server") extra = {"--" + name}; break;
            case 5: missing_config = true; break;
            case 6: { // given twice on the line
                const auto &o = of_kind({STR, BOOL, REAL, SIZE, INT});
                line[o.name].given = {};
                const auto v = some_value(c, o);
                line[o.name].given = {v[0], v[0]};
                break;
            }
            case 7: // required
                if (name == "prepare") { const auto n = c.s.pick({"file", "output"}); line.erase(n), file.erase(n); }
                else if (name == "match") line.erase("input"), file.erase("input");
                else { const auto n = c.s.pick({"match-tracks", "compare-tracks"}); line.erase(n), file.erase(n); for (auto r : {"read-line"}) line.erase(r), file.erase(r); }
                break;
            case 8: // not among the documented values
                if (name == "prepare") set(c.s.pick({"format", "simplify", "osm-profile"}), {c.s.pick({"unknown", "OSM", "al", "all ", "Car", "osmaware"}) + std::string{"x"}});
                else if (name == "match") set(c.s.pick({"model", "candidate-search"}), {c.s.pick({"unknown", "Viterbi", "nearestx", "q_learning"})});
                else { set(c.s.pick({"match-tracks-file-type", "compare-tracks-file-type"}), {c.s.pick({"txt", ".csv", "csv2"})}); line.erase("read-line"), file.erase("read-line"); }
                break;
            case 9: { // reference systems
                const std::string p = name == "prepare" ? "" : name == "match" ? c.s.pick({"network-", "tracks-"}) : c.s.pick({"match-", "compare-"});
                if (c.s.flip()) {
                    // codes that are no reference system are noticed when they are looked up
                    if (c.s.flip()) line.erase(p + "srs-type"), file.erase(p + "srs-type"), set(p + "srs", {c.s.pick({"99999", "0"})});
                    else set(p + "srs", {c.s.pick({"-1", "-4326"})});
                }
                else set(p + "srs-type", {c.s.pick({"cartesianx", "Geographic", "spherical"})});
                break;
            }
            case 10:
                if (name == "match") set("state-size", {c.s.pick({"0", "1", "4", "100"})});
                else if (name == "prepare") {
                    set("osm-profile", {"manual"});
                    set(c.s.pick({"osm-query", "osm-filter", "osm-oneway", "osm-oneway-reverse"}), {c.s.pick({"maybe", "true|", "true|yes,a", "true|false", "|true", "true|false,=x", "true|false,a=", "true|false,a,b", "true,", "True", "true|false,a=b=,"})});
                } else { set("match-tracks", {"a.csv", "b.gpx"}); for (auto n : {"match-tracks-file-type", "read-line"}) line.erase(n), file.erase(n); }
                break;
            case 11:
                if (name == "match") set("input", {c.s.pick({"no-such-folder", "options.conf"})});
                else if (name == "prepare") { const auto f = word(c); set(c.s.pick({"graph-file", "index-file"}), {f}), set("tags-file", {f}); }
                else { set("compare-tracks", {"a.csv", "b.gpx"}); for (auto n : {"compare-tracks-file-type", "read-line"}) line.erase(n), file.erase(n); }
                break;
            case 12:
                if (name == "prepare") { set("graph-file", {"x"}), set("index-file", {"x"}); }
                else if (name == "match") { set("tracks", {c.s.pick({"a.txt", "a", "a.csv.gz"})}); for (auto n : {"tracks-file-type", "read-line"}) line.erase(n), file.erase(n); }
                else { set("compare-tracks", {"a.txt"}); for (auto n : {"compare-tracks-file-type", "read-line"}) line.erase(n), file.erase(n); }
                break;
            default: { // a value is missing at the end of the line
                file.clear(), line.clear(), extra = {};
                const auto &o = of_kind({STR, REAL, SIZE});
                Started s;
                run(c, s, {{"--" + name, "--" + o.name}, "", ""});
                require(not s.accepted, "an option without value was accepted");
                c.nontrivial();
                return;
            }
        }
        auto l = write(c, options, line, file, mode_name, extra, false);
        if (missing_config) {
            std::erase_if(l.arguments, [](auto &w) { return w == "-c" or w.starts_with("--config") or w == "my.conf" or w == "con f.txt"; });
            l.arguments.push_back("--config"), l.arguments.push_back("missing.conf"), l.config.clear();
        }
        Started s;
        run(c, s, l);
        require(not s.accepted, "wrong options were accepted");
        c.nontrivial();
    };
    Chosen line, file;
    if (mode == app::PREPARE) {
        choose(c, prepare_options(), line, file);
        for (auto n : {"file", "output"}) if (not line.contains(n) and not file.contains(n)) line[n].given = {"w"};
        wrong(prepare_options(), "prepare", line, file);
    } else if (mode == app::MATCH) {
        choose(c, match_options(), line, file);
        line["input"].given = {"."};
        track_files(c, line, file, "");
        wrong(match_options(), "match", line, file);
    } else {
        choose(c, compare_options(), line, file);
        track_files(c, line, file, "match-"), track_files(c, line, file, "compare-");
        wrong(compare_options(), "compare", line, file);
    }
}

// help and version start nothing
static void information(Ctx &c) {
    std::vector<std::string> words;
    const auto what = c.s.pick({std::string{"--help"}, std::string{"--version"}});
    const auto mode = c.s.pick({std::string{}, std::string{"--prepare"}, std::string{"--match"}, std::string{"--compare"}});
    if (not mode.empty()) words.push_back(mode);
    words.insert(words.begin() + static_cast<std::ptrdiff_t>(c.s.below(words.size() + 1)), what);
    Started s;
    run(c, s, {words, "", ""});
    require(not s.accepted, "started");
    c.nontrivial(not mode.empty());
}

void pbt::define(Suite &s) {
    s.property = "A01";
    const std::string how = "any subset of the documented options with values in all notations, on the command line, in the configuration file or in both, in any order; non-trivial: five options";
    s.add("prepare", how, 40000, 1200000, prepare_mode);
    s.add("match", how, 40000, 1200000, match_mode);
    s.add("compare", how, 40000, 1200000, compare_mode);
    s.add("refused", "valid options with one mistake: unknown options, bad values, missing or repeated ones, excluded combinations", 40000, 1200000, refused);
    s.add("information", "help and version with and without a mode; non-trivial: with a mode", 500, 5000, information);
    s.assumptions = {"the modes themselves are replaced by functions that process their options as the modes do", "options of another mode in a configuration file are not used", "which time settings comparing uses is not judged"};
}
