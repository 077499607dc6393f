// C01: comparing a route with a ground truth splits both into common and differing parts.
#include "pbt.hpp"
#include <array>
#include <filesystem>
#include <fstream>
#include <thread>
#include "types/geometry/point.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/geometry/algorithm/compare.hpp"
#include "geometry/algorithm/compare.hpp"
#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"
using namespace pbt;
namespace mm = map_matching_2;
namespace geo = mm::geometry;

using P = std::array<double, 2>;
using Line = std::vector<P>;
using Lines = std::vector<Line>;
using Step = std::pair<P, P>;
using Steps = std::multiset<Step>;

template<typename CS>
struct Types {
    using point = typename geo::models<boost::geometry::model::point<double, 2, CS>>::point_type;
    using multi_track = geo::track::multi_track_type<point>;
    using multi_rich_line = typename multi_track::multi_rich_line_type;
    using rich_line = typename multi_track::rich_line_type;
    using line = typename multi_track::line_type;
};

template<typename T>
static typename T::multi_rich_line make(const Lines &ls) {
    std::vector<typename T::rich_line> r;
    for (auto &l : ls) {
        typename T::line line;
        for (auto &p : l) line.push_back(typename T::point{p[0], p[1]});
        r.emplace_back(std::move(line));
    }
    return typename T::multi_rich_line{std::move(r)};
}

static std::string show(const Lines &ls) {
    std::ostringstream o;
    o.precision(12);
    for (auto &l : ls) {
        o << "[";
        for (auto &p : l) o << " (" << p[0] << "," << p[1] << ")";
        o << " ]";
    }
    return o.str();
}

// the size of a lattice step; at 1.5 positions and roads are at least 1.06 apart, the tolerance is 1
static double grid = 10;
static double snap(double v) { return std::round(v / grid) * grid; }

// the lattice steps of a segment, all are in one of eight directions
static void steps(const P &a, const P &b, Steps &all) {
    const double dx = b[0] - a[0], dy = b[1] - a[1], n = std::round(std::max(std::abs(dx), std::abs(dy)) / grid);
    for (int k = 0; k < n; ++k) all.insert({{snap(a[0] + dx * k / n), snap(a[1] + dy * k / n)}, {snap(a[0] + dx * (k + 1) / n), snap(a[1] + dy * (k + 1) / n)}});
}
static Steps steps(const Lines &ls) {
    Steps all;
    for (auto &l : ls) for (std::size_t i = 1; i < l.size(); ++i) steps(l[i - 1], l[i], all);
    return all;
}
static double length(const Steps &s) {
    double r = 0;
    for (auto &[a, b] : s) r += std::hypot(a[0] - b[0], a[1] - b[1]);
    return r;
}
static Steps common(const Steps &a, const Steps &b) {
    Steps r;
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end()));
    return r;
}
static Steps minus(const Steps &a, const Steps &b) {
    Steps r;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end()));
    return r;
}
static std::string show(const Steps &s) {
    Lines ls;
    for (auto &[a, b] : s) ls.push_back({a, b});
    return show(ls);
}

static P move(Src &s, const P &p) {
    static const int ways[8][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {-1, -1}, {1, -1}, {-1, 1}};
    const auto &w = ways[s.below(8)];
    const double k = static_cast<double>(s.range(1, 3)) * grid;
    return {p[0] + w[0] * k, p[1] + w[1] * k};
}
static P anywhere(Src &s) { return {static_cast<double>(s.below(7)) * grid, static_cast<double>(s.below(7)) * grid}; }

// walks that cross and follow themselves, turn back, have gaps, and sometimes repeat a position
static Lines walk(Ctx &c, std::size_t most) {
    auto &s = c.s;
    Lines all;
    const std::size_t parts = s.chance(30) ? s.size(2, 3) : 1;
    for (std::size_t k = 0; k < parts; ++k) {
        Line l{k > 0 and s.flip() ? move(s, all.back().back()) : anywhere(s)};
        const std::size_t n = s.size(1, most);
        for (std::size_t i = 0; i < n; ++i) {
            if (l.size() > 1 and s.chance(10)) l.push_back(l[l.size() - 2]); // back
            else if (l.size() > 2 and s.chance(10)) { for (std::size_t b = l.size() - 1; b-- > 0;) { l.push_back(l[b]); if (s.flip()) break; } }
            else l.push_back(move(s, l.back()));
        }
        all.push_back(l);
    }
    return all;
}

// the same with differences
static Lines changed(Ctx &c, const Lines &of) {
    auto &s = c.s;
    Lines all = of;
    const std::size_t n = s.size(0, 3);
    for (std::size_t e = 0; e < n and not all.empty(); ++e) {
        auto &l = all[s.below(all.size())];
        if (l.size() < 2) continue;
        const std::size_t i = s.below(l.size() - 1);
        switch (s.below(8)) {
            case 0: { // a detour
                const P a = l[i + 1];
                const P b = move(s, a);
                l.insert(l.begin() + static_cast<std::ptrdiff_t>(i) + 2, {b, a});
                break;
            }
            case 1: l.resize(std::max<std::size_t>(2, i + 1)); break; // ends early
            case 2: l.erase(l.begin(), l.begin() + static_cast<std::ptrdiff_t>(i)); break; // begins late
            case 3: { // broken up, with a part missing
                Line rest(l.begin() + static_cast<std::ptrdiff_t>(i) + 1, l.end());
                l.resize(i + 1);
                if (rest.size() > 1) all.push_back(rest);
                std::erase_if(all, [](const Line &x) { return x.size() < 2; });
                break;
            }
            case 4: { // a position in between
                const P a = l[i], b = l[i + 1];
                const double m = std::round(std::max(std::abs(b[0] - a[0]), std::abs(b[1] - a[1])) / grid);
                if (m > 1) l.insert(l.begin() + static_cast<std::ptrdiff_t>(i) + 1, P{a[0] + (b[0] - a[0]) / m, a[1] + (b[1] - a[1]) / m});
                break;
            }
            case 5: std::reverse(l.begin(), l.end()); break;
            case 6: { // another way on
                l.resize(i + 1);
                if (l.empty()) l.push_back(anywhere(s));
                for (std::size_t k = s.size(1, 4); k > 0; --k) l.push_back(move(s, l.back()));
                break;
            }
            default: { // driven again
                Line again(l.begin() + static_cast<std::ptrdiff_t>(i), l.end());
                all.push_back(again);
            }
        }
        std::erase_if(all, [](const Line &x) { return x.size() < 2; });
    }
    return all;
}

struct Result { double correct_fraction, error_fraction, correct, added, missed; Steps corrects, adds, misses; };

template<typename T>
static Result compare(const Lines &a, const Lines &b) {
    const geo::line_comparator<typename T::multi_rich_line> comparator{};
    const auto r = comparator.compare(make<T>(a), make<T>(b));
    Result x{r.correct_fraction, r.error_fraction, r.correct, r.error_added, r.error_missed, {}, {}, {}};
    auto to = [](const auto &list, Steps &all) {
        for (auto &g : list) {
            const P from{boost::geometry::get<0>(g.first()), boost::geometry::get<1>(g.first())}, till{boost::geometry::get<0>(g.second()), boost::geometry::get<1>(g.second())};
            if constexpr (std::is_same_v<T, Types<geo::cs_cartesian>>) steps(from, till, all);
            else all.insert({from, till});
        }
    };
    to(r.corrects, x.corrects);
    to(r.error_adds, x.adds);
    to(r.error_misses, x.misses);
    return x;
}

static void lattice(Ctx &c) {
    auto &s = c.s;
    grid = s.flip() ? 1.5 : 10;
    using T = Types<geo::cs_cartesian>;
    const Lines a = s.chance(3) ? Lines{} : walk(c, 8);
    const Lines b = s.chance(3) ? Lines{} : s.chance(25) ? walk(c, 8) : changed(c, a);
    c.note("truth ", show(a), " route ", show(b));
    const auto r = compare<T>(a, b);
    const Steps x = steps(a), y = steps(b), both = common(x, y);
    const double la = length(x), lb = length(y);
    require(r.corrects == both, "common stretches ", show(r.corrects), ", expected ", show(both));
    require(r.misses == minus(x, both), "missing stretches ", show(r.misses), ", expected ", show(minus(x, both)));
    require(r.adds == minus(y, both), "superfluous stretches ", show(r.adds), ", expected ", show(minus(y, both)));
    require_close(r.correct, length(both), 1e-6, "common length");
    require_close(r.missed, la - length(both), 1e-6, "missing length");
    require_close(r.added, lb - length(both), 1e-6, "superfluous length");
    const double errors = length(minus(x, both)) + length(minus(y, both));
    if (la == 0 and lb > 0) require(std::isinf(r.error_fraction), "error fraction without truth");
    else require_close(r.error_fraction, la > 0 ? errors / la : 0, 1e-9, "error fraction");
    require_close(r.correct_fraction, errors == 0 ? 1 : length(both) / std::max(la, lb), 1e-9, "correct fraction");
    c.nontrivial(not both.empty() and errors > 0);
    if (errors == 0) c.count("equal");
}


// positions deviate by less than the tolerances
static void close_by(Ctx &c) {
    auto &s = c.s;
    grid = 10;
    using T = Types<geo::cs_cartesian>;
    const Lines a = walk(c, 7);
    const Lines b = changed(c, a);
    // turning back with a deviation is simplified away by design
    for (auto &l : b) for (std::size_t i = 2; i < l.size(); ++i) {
        const double ux = l[i - 1][0] - l[i - 2][0], uy = l[i - 1][1] - l[i - 2][1], vx = l[i][0] - l[i - 1][0], vy = l[i][1] - l[i - 1][1];
        if (ux * vx + uy * vy < 0 and std::abs(ux * vy - uy * vx) < 1e-6) throw Discard{};
    }
    // every position of the lattice deviates in its own way
    std::map<P, P> moved;
    const auto move_by = [&](const P &p) {
        auto it = moved.find(p);
        if (it == moved.end()) it = moved.insert({p, P{p[0] + static_cast<double>(s.around(4)) / 128, p[1] + static_cast<double>(s.around(4)) / 128}}).first;
        return it->second;
    };
    Lines d = b;
    for (auto &l : d) for (auto &p : l) p = move_by(p);
    c.note("truth ", show(a), " route ", show(d));
    const geo::line_comparator<typename T::multi_rich_line> comparator{};
    const auto r = comparator.compare(make<T>(a), make<T>(d));
    const Steps x = steps(a), y = steps(b), both = common(x, y);
    const double lax = 0.15 * static_cast<double>(2 + x.size() + y.size());
    require_close(r.correct, length(both), lax, "common length");
    require_close(r.error_missed, length(x) - length(both), lax, "missing length");
    require_close(r.error_added, length(y) - length(both), lax, "superfluous length");
    c.nontrivial(not both.empty() and length(x) + length(y) > 2 * length(both) + 1);
}

// other coordinate systems: same and different routes
template<typename CS>
static void sphere(Ctx &c) {
    auto &s = c.s;
    grid = 1.5;
    using T = Types<CS>;
    const double x0 = 11.5, y0 = 48.1, dx = 2e-4, dy = 2e-4; // steps of about 15 and 22 m per lattice step of 10
    const auto to = [&](Lines ls) { for (auto &l : ls) for (auto &p : l) p = {x0 + p[0] * dx, y0 + p[1] * dy}; return ls; };
    Lines a = walk(c, 8);
    for (auto &l : a) l.erase(std::unique(l.begin(), l.end()), l.end());
    Lines far = walk(c, 8);
    for (auto &l : far) for (auto &p : l) p[0] += 1000;
    c.note("truth ", show(a), " other ", show(far));
    const auto ma = make<T>(to(a)), mb = make<T>(to(far));
    const geo::line_comparator<typename T::multi_rich_line> comparator{};
    const auto same = comparator.compare(ma, ma);
    const double la = ma.has_length() ? ma.length() : 0, lb = mb.has_length() ? mb.length() : 0;
    const double lax = 1e-3 * (la + lb) + 1e-3;
    require(same.correct_fraction == 1 and same.error_fraction == 0 and same.error_added == 0 and same.error_missed == 0, "the same route is not fully correct: ", same.correct_fraction, " ", same.error_added, " ", same.error_missed);
    require_close(same.correct, la, lax, "length of the same route");
    const auto none = comparator.compare(ma, mb);
    require(none.correct == 0 and none.correct_fraction == 0, "routes apart have something in common");
    require_close(none.error_missed, la, lax, "missing length of routes apart");
    require_close(none.error_added, lb, lax, "superfluous length of routes apart");
    // a part of it in front of or behind the rest
    Lines part = a;
    part.resize(1 + s.below(part.size()));
    const auto mp = make<T>(to(part));
    const double lp = mp.length();
    const auto x = comparator.compare(ma, mp), y = comparator.compare(mp, ma);
    require_close(x.correct, lp, lax, "common length with a part");
    require_close(x.error_missed, la - lp, lax, "missing length of a part");
    require_close(x.error_added, 0, lax, "superfluous length of a part");
    require_close(y.correct, lp, lax, "common length of a part");
    require_close(y.error_added, la - lp, lax, "superfluous length with a part");
    require_close(y.error_missed, 0, lax, "missing length with a part");
    c.nontrivial(part.size() < a.size() or a.front().size() > 2);
}

static std::vector<std::vector<std::string>> read_csv(const std::string &file) {
    std::ifstream in{file};
    std::vector<std::vector<std::string>> rows;
    std::vector<std::string> row{""};
    bool quoted = false;
    for (char ch; in.get(ch);) {
        if (quoted) {
            if (ch == '"') { if (in.peek() == '"') { in.get(ch); row.back() += ch; } else quoted = false; }
            else row.back() += ch;
        } else if (ch == '"') quoted = true;
        else if (ch == ',') row.emplace_back();
        else if (ch == '\n') { rows.push_back(row); row = {""}; }
        else if (ch != '\r') row.back() += ch;
    }
    return rows;
}

// the comparison of files: every ground truth once, with its own route, and the totals
static void table(Ctx &c) {
    auto &s = c.s;
    grid = s.flip() ? 1.5 : 10;
    using T = Types<geo::cs_cartesian>;
    struct Entry { Lines truth, route; bool has_truth, has_route; };
    std::map<std::string, Entry> entries;
    const std::size_t n = s.size(1, 12);
    for (std::size_t i = 0; i < n; ++i) {
        Entry e{walk(c, 5), {}, s.chance(90), s.chance(85)};
        e.route = s.chance(10) ? Lines{} : changed(c, e.truth);
        entries[s.chance(20) ? "track, \"" + std::to_string(i) + "\"" : std::to_string(i)] = e;
    }
    const bool ignore = s.flip(), verbose = s.flip();
    const auto threads = static_cast<std::uint32_t>(s.range(1, 4));
    const std::string file = scratch() + "/compare.csv";
    c.note("ignore ", ignore, " threads ", threads, " verbose ", verbose);
    for (auto &[id, e] : entries) c.note(" | ", id, ": ", e.has_truth ? "truth " : "", e.has_truth ? show(e.truth) : "", e.has_route ? " route " : "", e.has_route ? show(e.route) : "");

    std::vector<std::pair<std::string, bool>> order;
    for (auto &[id, e] : entries) { if (e.has_truth) order.push_back({id, true}); if (e.has_route) order.push_back({id, false}); }
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);

    std::ostringstream printed;
    auto *old = std::cout.rdbuf(printed.rdbuf());
    try {
        mm::compare::settings settings;
        settings.ignore_non_existent = ignore;
        const mm::compare::comparator_output_settings output{file, "id,correct,error_missed,match_length,error_added,ground_truth_length,correct_fraction,error_fraction,corrects,error_adds,error_misses,match,ground_truth", false, verbose};
        mm::compare::comparator comparator{output, threads};
        comparator.start();
        mm::compare::comparator_forwarder_data data{comparator, settings};
        const mm::compare::comparator_forwarder_matches matches{data};
        const mm::compare::comparator_forwarder_compares truths{data};
        for (auto &[id, truth] : order) {
            typename T::multi_track track{id, make<T>(truth ? entries[id].truth : entries[id].route)};
            if (truth) truths.pass(std::move(track));
            else matches.pass(std::move(track));
        }
        data.finish();
        comparator.stop();
        comparator.join();
    } catch (...) {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);

    auto rows = read_csv(file);
    std::filesystem::remove(file);
    std::map<std::string, std::vector<std::string>> got;
    for (std::size_t i = 1; i < rows.size(); ++i) {
        require_eq(rows[i].size(), 13u, "columns of row ", i);
        require(got.insert({rows[i][0], rows[i]}).second, "two rows for ", rows[i][0]);
    }
    double correct = 0, missed = 0, added = 0, la = 0, lb = 0, fractions = 0;
    std::size_t count = 0;
    for (auto &[id, e] : entries) {
        if (not e.has_truth or (not e.has_route and ignore)) continue;
        ++count;
        require(got.count(id), "no row for ", id);
        const auto &row = got[id];
        const Steps x = steps(e.truth), y = e.has_route ? steps(e.route) : Steps{}, both = common(x, y);
        const double want[] = {length(both), length(x) - length(both), length(y), length(y) - length(both), length(x)};
        const char *names[] = {"correct", "error_missed", "match_length", "error_added", "ground_truth_length"};
        for (int k = 0; k < 5; ++k) require_close(std::stod(row[1 + k]), want[k], 1e-5, names[k], " of ", id);
        const double errors = want[1] + want[3];
        const double fraction = errors < 1e-9 ? 1 : want[0] / std::max(length(x), length(y));
        require_close(std::stod(row[6]), fraction, 1e-5, "correct_fraction of ", id);
        require_close(std::stod(row[7]), errors / length(x), 1e-5, "error_fraction of ", id);
        correct += want[0], missed += want[1], lb += want[2], added += want[3], la += want[4], fractions += fraction;
        const Steps lists[] = {both, minus(y, both), minus(x, both)};
        for (int k = 0; k < 3; ++k) {
            typename geo::models<typename T::point>::template multi_line_type<typename T::line> parts;
            boost::geometry::read_wkt(row[8 + k], parts);
            Steps all;
            for (auto &l : parts) for (std::size_t q = 1; q < l.size(); ++q) steps({boost::geometry::get<0>(l[q - 1]), boost::geometry::get<1>(l[q - 1])}, {boost::geometry::get<0>(l[q]), boost::geometry::get<1>(l[q])}, all);
            require(all == lists[k], "list ", k, " of ", id);
        }
    }
    require_eq(got.size(), count, "rows");
    if (verbose and count > 0) {
        const auto text = printed.str();
        const auto value = [&](const std::string &name) {
            const auto at = text.rfind(", " + name + ": ");
            require(at != std::string::npos, "no total of ", name);
            return std::stod(text.substr(at + name.size() + 4));
        };
        require_close(std::stod(text.substr(text.rfind("Compares count: ") + 16)), static_cast<double>(count), 0, "count");
        const double errors = added + missed;
        require_close(value("ground truths length"), la, 0.01, "ground truths length");
        require_close(value("matches length"), lb, 0.01, "matches length");
        require_close(value("correct length"), correct, 0.01, "correct length");
        require_close(value("errors added"), added, 0.01, "errors added");
        require_close(value("errors missed"), missed, 0.01, "errors missed");
        require_close(value("mean correct fraction"), fractions / static_cast<double>(count), 2e-5, "mean correct fraction");
        require_close(value("weighted mean correct fraction"), errors < 1e-9 ? 1 : correct / std::max(la, lb), 2e-5, "weighted mean correct fraction");
        require_close(value("weighted mean error fraction"), errors / la, 2e-5, "weighted mean error fraction");
    }
    c.nontrivial(count >= 2);
}

void pbt::define(Suite &s) {
    s.property = "C01";
    s.add("lattice", "walks of up to three parts on a lattice and the same changed; non-trivial: some of it in common and some not", 300000, 4000000, lattice);
    s.add("close", "a walk, and the same changed with every position up to 0.03 beside; non-trivial: some of it in common and some not", 20000, 400000, close_by);
    const char *m = "walks around 11.5/48.1 compared with themselves, a part of them and one far away; non-trivial: a proper part or a bend";
    s.add("spherical", m, 5000, 100000, sphere<geo::cs_spherical_equatorial>);
    s.add("geographic", m, 1500, 30000, sphere<geo::cs_geographic>);
    s.add("table", "comparators with 1 to 4 threads and up to 12 tracks in any order, with and without counterpart; non-trivial: two rows", 6000, 60000, table);
    s.targets.back().tries = 50; // threads
}
