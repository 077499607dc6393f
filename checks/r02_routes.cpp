// R02: routes keep exactly the travelled points through joining, merging, trimming, cutting and converting.
#include <deque>
#include <variant>
#include <vector>

#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/eager_route.hpp"
#include "geometry/algorithm/distance.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;

template<typename CS>
struct Kit {
    using point = geo::point_type<CS>;
    using points = std::vector<point>;
    using lines = std::vector<points>;
    using variant = geo::rich_line_variant<CS>;
    using plain = geo::rich_line_type<point>;
    using eager = geo::eager_rich_line_type<point>;
    using lazy = geo::lazy_rich_line_type<point>;
    static constexpr bool planar = std::is_same_v<CS, MM2_CARTESIAN>;

    static point random(Src &s) {
        if constexpr (planar) return point{static_cast<double>(s.below(5)), static_cast<double>(s.below(5))};
        else return point{11.5 + 0.001 * s.below(5), 48.25 + 0.001 * s.below(5)};
    }
    static bool same(const point &a, const point &b) { return a.template get<0>() == b.template get<0>() and a.template get<1>() == b.template get<1>(); }
    static bool same(const points &a, const points &b) {
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); ++i) if (not same(a[i], b[i])) return false;
        return true;
    }
    static double distance(const point &a, const point &b) {
        if constexpr (planar) return std::hypot(a.template get<0>() - b.template get<0>(), a.template get<1>() - b.template get<1>());
        else return geo::point_distance(a, b);
    }
    static double azimuth(const point &a, const point &b) {
        if constexpr (planar) return std::atan2(b.template get<0>() - a.template get<0>(), b.template get<1>() - a.template get<1>()) * 180 / M_PI;
        else return boost::geometry::azimuth(a, b) * 180 / M_PI;
    }
    static double turn(double a, double b) {
        const double d = a - b;
        return d >= 180 ? d - 360 : d <= -180 ? d + 360 : d;
    }
    static std::string show(const points &p) {
        std::ostringstream o;
        o << "[";
        for (auto &x : p) {
            if constexpr (planar) o << x.template get<0>() << " " << x.template get<1>();
            else o << std::round((x.template get<0>() - 11.5) * 1000) << " " << std::round((x.template get<1>() - 48.25) * 1000);
            if (&x != &p.back()) o << ",";
        }
        o << "]";
        return o.str();
    }
    static std::string show(const lines &l) {
        std::string o = "{";
        for (auto &x : l) o += show(x);
        return o + "}";
    }
};

template<typename K>
struct Model {
    bool invalid = true;
    typename K::lines lines;
    [[nodiscard]] bool attaches(std::size_t i) const { return K::same(lines[i - 1].back(), lines[i].front()); }
    [[nodiscard]] bool connected() const {
        for (std::size_t i = 1; i < lines.size(); ++i) if (not attaches(i)) return false;
        return true;
    }
    [[nodiscard]] bool extended() const {
        if (invalid) return false;
        for (auto &l : lines) for (std::size_t i = 1; i < l.size(); ++i) if (not K::same(l[i - 1], l[i])) return true;
        return false;
    }
    // all points without immediate repetitions
    [[nodiscard]] typename K::points walk() const {
        typename K::points w;
        for (auto &l : lines) for (auto &p : l) if (w.empty() or not K::same(w.back(), p)) w.push_back(p);
        return w;
    }
    // one list of points per connected stretch
    [[nodiscard]] typename K::lines stretches() const {
        typename K::lines r;
        for (std::size_t i = 0; i < lines.size(); ++i) {
            if (i > 0 and attaches(i)) r.back().insert(r.back().end(), lines[i].begin() + 1, lines[i].end());
            else r.push_back(lines[i]);
        }
        return r;
    }
    [[nodiscard]] std::string show() const { return (invalid ? "invalid" : "") + K::show(lines); }
};

template<typename K>
static Model<K> merged(const std::vector<Model<K>> &parts, bool connect) {
    Model<K> m;
    for (auto &p : parts) if (not p.invalid) m.invalid = false;
    for (auto &p : parts) {
        if (not p.extended()) continue;
        if (connect and not m.lines.empty() and not K::same(m.lines.back().back(), p.lines.front().front()))
            m.lines.push_back({m.lines.back().back(), p.lines.front().front()});
        m.lines.insert(m.lines.end(), p.lines.begin(), p.lines.end());
    }
    return m;
}

static bool turn_near(double a, double b) { return near(std::remainder(a - b, 360.0), 0, 1e-6, 0); }

template<typename K>
static bool reverses(const typename K::point &a, const typename K::point &b, const typename K::point &c) {
    return not K::same(a, b) and not K::same(b, c) and std::abs(K::turn(K::azimuth(a, b), K::azimuth(b, c))) > 0.99 * 180;
}

template<typename K, typename R>
static void compare(const R &r, const Model<K> &m, unsigned which, const char *what) {
    const auto name = what + (" " + m.show());
    if (which & 1) {
        require_eq(r.is_invalid(), m.invalid, "whether invalid, ", name);
        require_eq(r.size(), m.lines.size(), "number of lines, ", name, " is ", r.wkt());
        require_eq(r.empty(), m.lines.empty(), "emptiness, ", name);
        for (std::size_t i = 0; i < m.lines.size(); ++i) std::visit([&](auto &&ref) {
            typename K::points got;
            for (const auto &p : ref.get().line()) got.push_back(p);
            require(K::same(got, m.lines[i]), "line ", i, " is ", K::show(got), ", ", name);
        }, r.rich_lines()[i]);
    }
    if (which & 2) require_eq(r.is_connected(), m.connected(), "connectedness, ", name);
    auto total = [](std::optional<double> &sum, double x) { sum = sum.value_or(0) + x; };
    std::optional<double> length, azimuth, directions, absolute;
    for (std::size_t i = 0; i < m.lines.size(); ++i) {
        const auto &l = m.lines[i];
        for (std::size_t k = 1; k < l.size(); ++k) if (not K::same(l[k - 1], l[k])) total(length, K::distance(l[k - 1], l[k]));
        auto around = [&](const typename K::point &x, const typename K::point &y, const typename K::point &z) {
            if (K::same(x, y) or K::same(y, z)) return;
            const double t = K::turn(K::azimuth(x, y), K::azimuth(y, z));
            total(directions, t);
            total(absolute, std::abs(t));
        };
        for (std::size_t k = 2; k < l.size(); ++k) around(l[k - 2], l[k - 1], l[k]);
        if (i > 0 and m.attaches(i) and l.size() >= 2 and m.lines[i - 1].size() >= 2) around(m.lines[i - 1][m.lines[i - 1].size() - 2], l[0], l[1]);
    }
    if (not m.lines.empty() and not K::same(m.lines.front().front(), m.lines.back().back())) azimuth = K::azimuth(m.lines.front().front(), m.lines.back().back());
    auto check = [&](const char *of, bool has, auto &&get, const std::optional<double> &expected, bool turn = false) {
        require_eq(has, expected.has_value(), "whether there is a ", of, ", ", name);
        if (not expected) return;
        const double got = get();
        require(turn ? turn_near(got, *expected) : near(got, *expected, 1e-6, 1e-9), of, " ", got, " instead of ", *expected, ", ", name);
    };
    if (which & 4) check("length", r.has_length(), [&] { return r.length(); }, length);
    if (which & 8) check("azimuth", r.has_azimuth(), [&] { return r.azimuth(); }, azimuth, true);
    if (which & 16) check("turn total", r.has_directions(), [&] { return r.directions(); }, directions, true);
    if (which & 32) check("absolute turn total", r.has_directions(), [&] { return r.absolute_directions(); }, absolute);
}

template<typename K, typename L>
static typename K::points points_of(const L &l) { return typename K::points(l.line().begin(), l.line().end()); }

template<typename K, typename R, typename L, typename ML>
static void history(Ctx &c) {
    using points = typename K::points;
    using lines = typename K::lines;
    using M = Model<K>;
    Src &s = c.s;
    std::deque<typename K::variant> pool; // lines only referred to
    lines pooled;
    auto make_points = [&](const points *before) {
        points p(s.chance(7) ? 1 : s.size(2, 5));
        for (std::size_t i = 0; i < p.size(); ++i) p[i] = i > 0 and s.chance(8) ? p[i - 1] : K::random(s);
        if (before and s.chance(85)) p[0] = before->back();
        return p;
    };
    auto make_line = [&](const points &p) -> typename K::variant {
        switch (s.below(3)) {
            case 0: { typename K::plain::line_type l(p.begin(), p.end()); return typename K::plain{std::move(l)}; }
            case 1: { typename K::eager::line_type l(p.begin(), p.end()); return typename K::eager{std::move(l)}; }
            default: { typename K::lazy::line_type l(p.begin(), p.end()); return typename K::lazy{std::move(l)}; }
        }
    };
    auto make_lines = [&](std::size_t lo, std::size_t hi, const M *after) {
        lines l(s.size(lo, hi));
        if (after and not after->lines.empty() and s.chance(60)) {
            // the way back over the end of the other route
            points back = after->walk();
            std::reverse(back.begin(), back.end());
            back.resize(std::min(back.size(), s.size(1, 6)));
            if (s.chance(60)) back.push_back(K::random(s));
            if (s.chance(40)) back.push_back(K::random(s));
            l.clear();
            for (std::size_t i = 0; i < back.size(); ++i) {
                if (l.empty() or s.chance(25)) { l.emplace_back(); if (i > 0) l.back().push_back(back[i - 1]); }
                l.back().push_back(back[i]);
                if (s.chance(5)) l.back().push_back(back[i]);
            }
            return l;
        }
        for (std::size_t i = 0; i < l.size(); ++i) l[i] = make_points(i > 0 ? &l[i - 1] : nullptr);
        return l;
    };
    auto make = [&](const lines &l) {
        std::list<typename K::variant> own;
        std::vector<typename R::rich_line_reference_variant_type> refs;
        for (auto &p : l) {
            if (s.chance(40)) {
                pool.push_back(make_line(p));
                std::visit([&](const auto &x) { refs.emplace_back(std::cref(x)); }, pool.back());
                if (s.flip()) std::visit([&](const auto &x) { (void) x.has_directions(); }, pool.back());
                pooled.push_back(p);
            } else {
                own.push_back(make_line(p));
                std::visit([&](const auto &x) { refs.emplace_back(std::cref(x)); }, own.back());
            }
        }
        return R{std::move(own), std::move(refs)};
    };
    struct Entry { R r; M m; };
    std::vector<Entry> all;
    const std::size_t n = s.size(2, 4);
    for (std::size_t i = 0; i < n; ++i) {
        if (s.chance(6)) {
            const bool invalid = s.flip();
            all.push_back({R{invalid}, M{invalid, {}}});
        } else {
            const lines l = make_lines(0, 4, i > 0 ? &all.back().m : nullptr);
            all.push_back({make(l), M{false, l}});
        }
        c.note(i ? "; " : "", i, " is ", all.back().m.show());
    }
    const std::size_t ops = s.size(1, 12);
    std::size_t edits = 0, reads = 0, trims = 0;
    for (std::size_t o = 0; o < ops; ++o) {
        const std::size_t i = s.below(all.size()), j = s.below(all.size());
        Entry &e = all[i];
        switch (s.below(12)) {
            case 0: case 1: {
                const unsigned which = static_cast<unsigned>(s.below(64));
                c.note("; read ", which, " of ", i);
                compare<K>(e.r, e.m, which, "route");
                ++reads;
                break;
            }
            case 2: { // copy, assign or move
                if (i == j and s.flip()) { const R &self = e.r; e.r = self; c.note("; assign ", i, " to itself"); break; }
                if (s.flip()) {
                    c.note("; assign ", j, " to ", i);
                    e.r = all[j].r;
                } else {
                    c.note("; move a copy of ", j, " to ", i);
                    R copy{all[j].r};
                    R moved{std::move(copy)};
                    e.r = std::move(moved);
                }
                e.m = all[j].m;
                ++edits;
                break;
            }
            case 3: { // new
                const lines l = make_lines(0, 4, &all[j].m);
                e.m = M{false, l};
                e.r = make(l);
                c.note("; ", i, " is ", e.m.show());
                break;
            }
            case 4: { // part by lines
                if (e.m.lines.empty()) break;
                const std::size_t from = s.below(e.m.lines.size()), to = from + s.below(e.m.lines.size() - from + 1);
                c.note("; ", i, " becomes its lines ", from, " to ", to);
                R r = e.r.sub_route(from, to);
                const M m{false, lines(e.m.lines.begin() + from, e.m.lines.begin() + to)};
                compare<K>(e.r, e.m, 63, "route cut from");
                e.r = std::move(r);
                e.m = m;
                ++edits;
                break;
            }
            case 5: { // part by positions
                if (e.m.lines.empty()) break;
                const std::size_t from = s.below(e.m.lines.size()), to = from + 1 + s.below(e.m.lines.size() - from);
                const std::size_t from_pos = s.below(e.m.lines[from].size());
                const std::size_t to_pos = s.range(from + 1 == to ? from_pos + 1 : 1, e.m.lines[to - 1].size());
                c.note("; ", i, " becomes its part ", from, ":", from_pos, " to ", to, ":", to_pos);
                R r = e.r.template sub_route<L>(from, from_pos, to, to_pos);
                M whole{false, lines(e.m.lines.begin() + from, e.m.lines.begin() + to)};
                whole.lines.back().resize(to_pos);
                whole.lines.front().erase(whole.lines.front().begin(), whole.lines.front().begin() + from_pos);
                // points that remain alone at an end are no part of a drive
                std::vector<M> pieces;
                std::size_t a = 0, b = whole.lines.size();
                const bool head = from_pos > 0, tail = to_pos < e.m.lines[to - 1].size() and not(head and b == 1);
                if (head) { pieces.push_back(M{false, {whole.lines.front()}}); ++a; }
                if (tail) --b;
                pieces.push_back(M{false, a < b ? lines(whole.lines.begin() + a, whole.lines.begin() + b) : lines{}});
                if (tail) pieces.push_back(M{false, {whole.lines.back()}});
                e.r = std::move(r);
                e.m = merged<K>(pieces, false);
                ++edits;
                break;
            }
            case 6: case 7: { // merge
                const std::size_t count = s.size(1, 4);
                const bool connect = s.flip(), except = s.chance(30);
                std::vector<R> routes;
                std::vector<M> models;
                c.note("; ", i, " becomes ", connect ? "connected " : "", except ? "strict " : "", "merge of");
                for (std::size_t k = 0; k < count; ++k) {
                    const std::size_t x = s.below(all.size());
                    c.note(" ", x);
                    routes.push_back(all[x].r);
                    models.push_back(all[x].m);
                }
                bool gap = false;
                const M *last = nullptr;
                for (auto &m : models) if (m.extended()) {
                    if (last and not K::same(last->lines.back().back(), m.lines.front().front())) gap = true;
                    last = &m;
                }
                try {
                    R r = R::template merge<L>(std::move(routes), connect, except);
                    require(connect or not except or not gap, "routes that do not attach were merged in strict mode");
                    e.r = std::move(r);
                    e.m = merged<K>(models, connect);
                } catch (const geo::network::route_merge_exception &) {
                    require(not connect and except and gap, "merge of attached routes refused");
                }
                ++edits;
                break;
            }
            case 8: { // join
                if (i == j) break;
                Entry &f = all[j];
                const bool retain = s.flip();
                const bool both = not e.m.invalid and not f.m.invalid and not e.m.lines.empty() and not f.m.lines.empty();
                if (both and not K::same(e.m.lines.back().back(), f.m.lines.front().front())) break;
                c.note("; join ", i, " and ", j, retain ? " unless turning" : "");
                R::template join<L>(e.r, f.r, retain);
                if (both) {
                    points &a = e.m.lines.back(), &b = f.m.lines.front();
                    if (a.size() >= 2 and b.size() >= 2 and not(retain and reverses<K>(a[a.size() - 2], a.back(), b[1]))) {
                        a.back() = b[1];
                        b.erase(b.begin());
                        if (b.size() < 2) f.m.lines.erase(f.m.lines.begin());
                    }
                }
                ++edits;
                break;
            }
            case 9: { // trim the way back
                const Entry &f = all[j];
                c.note("; trim and merge ", i, " and ", j);
                if (not e.m.connected() or not f.m.connected()) break;
                const R r = e.r.template trim_merge<L>(f.r);
                const L own = e.r.template extract_return_line<L>(f.r, true), other = e.r.template extract_return_line<L>(f.r, false);
                const points a = e.m.walk(), b = f.m.walk();
                if (e.m.invalid or f.m.invalid or a.empty() or b.empty() or not K::same(a.back(), b.front())) {
                    require(r.is_invalid() and r.empty(), "routes that do not attach give ", r.wkt());
                    require(own.empty() and other.empty(), "routes that do not attach have a way back");
                    break;
                }
                ++trims;
                std::size_t k = 1;
                while (k < a.size() and k < b.size() and K::same(a[a.size() - 1 - k], b[k])) ++k;
                if (k > 1) c.count("way back trimmed");
                // what remains
                points left(a.begin(), a.end() - (k - 1)), right(b.begin() + (k - 1), b.end());
                const bool turns = left.size() > 1 and right.size() > 1 and reverses<K>(left[left.size() - 2], left.back(), right[1]);
                points rest = left.size() > 1 ? left : points{};
                if (right.size() > 1) rest.insert(rest.end(), right.begin() + (rest.empty() ? 0 : 1), right.end());
                points cut = rest;
                if (turns) cut.erase(cut.begin() + (left.size() - 1));
                bool repeated = false; // repeated points hide the direction before or after the turning point
                for (const M *m : std::initializer_list<const M *>{&e.m, &f.m}) for (auto &l : m->lines) {
                    if (l.size() < 2) repeated = true;
                    for (std::size_t x = 1; x < l.size(); ++x) if (K::same(l[x - 1], l[x])) repeated = true;
                }
                M got;
                got.invalid = r.is_invalid();
                for (auto &v : r.rich_lines()) std::visit([&](auto &&ref) { got.lines.push_back(points_of<K>(ref.get())); }, v);
                require(not got.invalid, "trimming gives an invalid route");
                require(got.connected(), "trimming tears the route apart: ", K::show(got.lines));
                require(K::same(got.walk(), turns ? cut : rest) or (repeated and K::same(got.walk(), rest)), "trimming ", e.m.show(), " and ", f.m.show(), " gives ", K::show(got.walk()), " instead of ", K::show(turns ? cut : rest));
                auto way = [&](const L &l) { return M{false, l.empty() ? lines{} : lines{points_of<K>(l)}}.walk(); };
                const points back = k > 1 ? points(a.end() - k, a.end()) : points{}, forth = k > 1 ? points(b.begin(), b.begin() + k) : points{};
                require(K::same(way(own), back) and K::same(way(other), forth), "the way back is ", K::show(way(own)), " and ", K::show(way(other)), " instead of ", K::show(back));
                compare<K>(r, got, 63, "trimmed");
                if (s.flip()) { e.r = r; e.m = got; ++edits; }
                break;
            }
            default: { // to lines
                c.note("; lines of ", i);
                points whole;
                for (auto &l : e.m.lines) {
                    const bool attached = not whole.empty() and K::same(whole.back(), l.front());
                    whole.insert(whole.end(), l.begin() + (attached ? 1 : 0), l.end());
                }
                const points got = points_of<K>(e.r.template get_rich_line<L>());
                require(K::same(got, whole), "line of ", e.m.show(), " is ", K::show(got));
                const auto ml = e.r.template get_multi_rich_line<ML>();
                lines parts;
                for (const auto &l : ml.rich_lines()) parts.push_back(points_of<K>(l));
                if (e.m.lines.empty() and parts.size() == 1 and parts[0].empty()) parts.clear();
                const lines expected = e.m.stretches();
                bool same = parts.size() == expected.size();
                for (std::size_t x = 0; same and x < parts.size(); ++x) same = K::same(parts[x], expected[x]);
                require(same, "lines of ", e.m.show(), " are ", K::show(parts));
            }
        }
    }
    for (auto &e : all) compare<K>(e.r, e.m, 63, "route in the end");
    std::size_t most = 0;
    for (auto &e : all) most = std::max(most, e.m.lines.size());
    c.nontrivial(edits >= 1 and reads >= 1 and most >= 2);
    if (trims) c.label("trimmed");
}

template<typename CS, int Route, int Line>
static void kind(Ctx &c) {
    using K = Kit<CS>;
    using R = std::tuple_element_t<Route, std::tuple<geo::network::route_type<CS>, geo::network::lazy_route_type<CS>, geo::network::eager_route_type<CS>>>;
    using L = std::tuple_element_t<Line, std::tuple<typename K::plain, typename K::eager, typename K::lazy>>;
    using ML = std::tuple_element_t<Line, std::tuple<geo::multi_rich_line_type<typename K::point>, geo::eager_multi_rich_line_type<typename K::point>, geo::lazy_multi_rich_line_type<typename K::point>>>;
    history<K, R, L, ML>(c);
}

void pbt::define(Suite &s) {
    s.property = "R02";
    const std::string rule = "2 to 4 routes of up to 4 own or referred lines of 3 kinds, up to 12 reads, copies, assignments, merges, joins, "
                             "trimmings, parts and conversions; non-trivial: a change, a read before it is checked, and a route of two lines";
    s.add("lazy", rule, 600000, 6000000, kind<MM2_CARTESIAN, 1, 2>);
    s.add("lazy-eager-lines", "same, immediate lines made", 250000, 3000000, kind<MM2_CARTESIAN, 1, 1>);
    s.add("plain", "same, routes without stored measures", 250000, 3000000, kind<MM2_CARTESIAN, 0, 0>);
    s.add("eager", "same, routes with immediate measures", 250000, 3000000, kind<MM2_CARTESIAN, 2, 2>);
    s.add("lazy-geographic", "same, geographic coordinates", 150000, 1500000, kind<MM2_GEOGRAPHIC, 1, 2>);
    s.assumptions = {"The direction of a turn by exactly 180 degrees may be given as either side.",
                     "Lines in a route are not empty; parts that shrink to a single place are no part of a drive."};
}
