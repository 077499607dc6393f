// R01: measures of segments, lines and multi-lines equal recomputation, whatever happened before.
#include <list>
#include <variant>
#include <vector>
#include <boost/container/vector.hpp>

#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_segment.hpp"
#include "types/geometry/rich_type/eager_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_rich_segment.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "geometry/algorithm/distance.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;

template<typename T, typename A> using other_vector = boost::container::vector<T, A>;

template<typename Point>
struct Kit {
    using point = Point;
    using points = std::vector<Point>;
    template<template<typename, typename> typename C> using line = geo::linestring<Point, C, std::allocator>;
    using plain = geo::rich_line<Point>;
    using eager = geo::eager_rich_line<Point>;
    using lazy = geo::lazy_rich_line<Point>;
    using plain2 = geo::rich_line<Point, other_vector>;
    using eager2 = geo::eager_rich_line<Point, other_vector>;
    using lazy2 = geo::lazy_rich_line<Point, other_vector>;
    using slot = std::variant<plain, eager, lazy, plain2, eager2, lazy2>;
    static constexpr bool planar = std::is_same_v<Point, geo::point_type<MM2_CARTESIAN>>;

    static Point random(Src &s) {
        if constexpr (planar) return Point{static_cast<double>(s.below(5)), static_cast<double>(s.below(5))};
        else return Point{11.5 + 0.001 * s.below(5), 48.25 + 0.001 * s.below(5)};
    }
    static points some(Src &s, std::size_t lo, std::size_t hi) {
        points p(s.size(lo, hi));
        for (std::size_t i = 0; i < p.size(); ++i) p[i] = i > 0 and s.chance(20) ? p[i - 1] : random(s);
        return p;
    }
    static bool same(const Point &a, const Point &b) { return a.template get<0>() == b.template get<0>() and a.template get<1>() == b.template get<1>(); }
    static double distance(const Point &a, const Point &b) {
        if constexpr (planar) return std::hypot(a.template get<0>() - b.template get<0>(), a.template get<1>() - b.template get<1>());
        else return geo::point_distance(a, b);
    }
    static double azimuth(const Point &a, const Point &b) {
        if constexpr (planar) return std::atan2(b.template get<0>() - a.template get<0>(), b.template get<1>() - a.template get<1>()) * 180 / M_PI;
        else return boost::geometry::azimuth(a, b) * 180 / M_PI;
    }
    static double turn(double a, double b) {
        const double d = a - b;
        return d >= 180 ? d - 360 : d <= -180 ? d + 360 : d;
    }
    static std::string show(const points &p) {
        std::ostringstream o;
        o << "[";
        for (auto &x : p) o << "(" << x.template get<0>() << "," << x.template get<1>() << ")";
        o << "]";
        return o.str();
    }
};

struct Measures {
    std::optional<double> length, azimuth, directions, absolute;
    std::vector<std::optional<double>> lengths, azimuths, turns;
};

template<typename K>
static Measures measure(const typename K::points &p) {
    Measures m;
    for (std::size_t i = 1; i < p.size(); ++i) {
        if (K::same(p[i - 1], p[i])) { m.lengths.push_back({}); m.azimuths.push_back({}); continue; }
        m.lengths.push_back(K::distance(p[i - 1], p[i]));
        m.azimuths.push_back(K::azimuth(p[i - 1], p[i]));
        m.length = m.length.value_or(0) + *m.lengths.back();
    }
    if (p.size() >= 2 and not K::same(p.front(), p.back())) m.azimuth = K::azimuth(p.front(), p.back());
    for (std::size_t i = 1; i < m.azimuths.size(); ++i) {
        if (not m.azimuths[i - 1] or not m.azimuths[i]) { m.turns.push_back({}); continue; }
        m.turns.push_back(K::turn(*m.azimuths[i - 1], *m.azimuths[i]));
        m.directions = m.directions.value_or(0) + *m.turns.back();
        m.absolute = m.absolute.value_or(0) + std::abs(*m.turns.back());
    }
    return m;
}

// turns by 180 degrees may have either sign
static bool turn_near(double a, double b) { return near(std::remainder(a - b, 360.0), 0, 1e-6, 0); }

template<typename L>
constexpr bool data_variant = requires(const L &l) { l.lengths(); };

template<typename K, typename L>
static void compare(Ctx &c, const L &l, const typename K::points &p, const char *what, unsigned which) {
    const Measures m = measure<K>(p);
    const auto name = std::string(what) + " of " + K::show(p);
    auto check = [&](unsigned bit, const char *of, bool has, auto &&get, const std::optional<double> &expected, bool turn = false) {
        if (not(which >> bit & 1)) return;
        require_eq(has, expected.has_value(), "whether there is a ", of, ", ", name);
        if (expected) {
            const double got = get();
            require(turn ? turn_near(got, *expected) : near(got, *expected, 1e-9, 1e-9), of, " ", got, " instead of ", *expected, ", ", name);
        } else if constexpr (data_variant<L>) {
            (void) get();
        }
    };
    if (which & 1) {
        require_eq(l.size(), p.size(), "number of points, ", name);
        for (std::size_t i = 0; i < p.size(); ++i) require(K::same(l[i], p[i]), "point ", i, ", ", name);
        require_eq(l.empty(), p.empty(), "emptiness, ", name);
    }
    if (which >> 1 & 1) check(1, "length", l.has_length(), [&] { return l.length(); }, m.length);
    if (which >> 2 & 1) check(2, "azimuth", l.has_azimuth(), [&] { return l.azimuth(); }, m.azimuth, true);
    if (which >> 3 & 1) check(3, "turn total", l.has_directions(), [&] { return l.directions(); }, m.directions, true);
    if (which >> 4 & 1) check(4, "absolute turn total", l.has_directions(), [&] { return l.absolute_directions(); }, m.absolute);
    for (std::size_t i = 0; i < m.lengths.size(); ++i) {
        if (which >> 5 & 1) check(5, "segment length", l.has_length(i), [&] { return l.length(i); }, m.lengths[i]);
        if (which >> 6 & 1) check(6, "segment azimuth", l.has_azimuth(i), [&] { return l.azimuth(i); }, m.azimuths[i], true);
        if (which >> 8 & 1) {
            const auto s = l.rich_segment(i);
            const auto r = l.rich_referring_segment(i);
            check(8, "length of the segment taken out", s.has_length(), [&] { return s.length(); }, m.lengths[i]);
            check(8, "azimuth of the segment taken out", s.has_azimuth(), [&] { return s.azimuth(); }, m.azimuths[i], true);
            check(8, "length of the segment referred to", r.has_length(), [&] { return r.length(); }, m.lengths[i]);
            check(8, "azimuth of the segment referred to", r.has_azimuth(), [&] { return r.azimuth(); }, m.azimuths[i], true);
            require(K::same(s.first(), p[i]) and K::same(s.second(), p[i + 1]) and K::same(r.first(), p[i]) and K::same(r.second(), p[i + 1]), "points of segment ", i, ", ", name);
        }
    }
    if (which >> 7 & 1) for (std::size_t i = 0; i < m.turns.size(); ++i) {
        check(7, "turn", l.has_direction(i), [&] { return l.direction(i); }, m.turns[i], true);
        if (m.turns[i]) require(near(l.absolute_direction(i), std::abs(*m.turns[i]), 1e-6, 0), "absolute turn ", l.absolute_direction(i), " instead of ", std::abs(*m.turns[i]), ", ", name);
    }
    // beyond the end
    if (which >> 9 & 1) {
        auto throws = [&](auto &&f, const char *of) {
            try { f(); } catch (const std::exception &) { return; }
            fail(of, " beyond the end is not rejected, ", name);
        };
        throws([&] { (void) l.has_direction(m.turns.size()); }, "turn");
        throws([&] { (void) l.has_length(m.lengths.size()); }, "segment length");
        throws([&] { (void) l.has_azimuth(m.lengths.size()); }, "segment azimuth");
        throws([&] { (void) l.segment(m.lengths.size()); }, "segment");
        throws([&] { (void) l.sub_rich_line(0, p.size() + 1); }, "part");
    }
}

static const char *kinds[] = {"line", "immediate line", "on-demand line", "line (other container)", "immediate line (other container)", "on-demand line (other container)"};

template<typename K>
static void lines(Ctx &c) {
    using slot = typename K::slot;
    using points = typename K::points;
    struct Entry { slot s; points p; };
    std::vector<Entry> all;
    Src &s = c.s;
    auto as_line = [](auto &like, const points &p) {
        using L = std::decay_t<decltype(like)>;
        typename L::line_type line(p.begin(), p.end());
        return L{std::move(line)};
    };
    auto create = [&](int kind, const points &p) -> slot {
        switch (kind) {
            case 0: { typename K::plain x; return slot{std::in_place_index<0>, as_line(x, p)}; }
            case 1: { typename K::eager x; return slot{std::in_place_index<1>, as_line(x, p)}; }
            case 2: { typename K::lazy x; return slot{std::in_place_index<2>, as_line(x, p)}; }
            case 3: { typename K::plain2 x; return slot{std::in_place_index<3>, as_line(x, p)}; }
            case 4: { typename K::eager2 x; return slot{std::in_place_index<4>, as_line(x, p)}; }
            default: { typename K::lazy2 x; return slot{std::in_place_index<5>, as_line(x, p)}; }
        }
    };
    auto look = [&](const Entry &e, unsigned which) { std::visit([&](const auto &l) { compare<K>(c, l, e.p, kinds[e.s.index()], which); }, e.s); };
    const std::size_t n = s.size(2, 4);
    for (std::size_t i = 0; i < n; ++i) {
        const int kind = static_cast<int>(s.below(6));
        const points p = K::some(s, 0, 6);
        c.note(i ? "; " : "", i, " is ", kinds[kind], " ", K::show(p));
        all.push_back({create(kind, p), p});
    }
    const std::size_t ops = s.size(1, 14);
    std::size_t edits = 0, reads = 0;
    bool other = false; // edits of the same line after reads
    for (std::size_t o = 0; o < ops; ++o) {
        const std::size_t i = s.below(all.size()), j = s.below(all.size());
        Entry &e = all[i];
        switch (s.below(9)) {
            case 0: case 1: { // reads
                const unsigned which = s.chance(30) ? 0x3ff : static_cast<unsigned>(s.below(0x400));
                c.note("; read ", which, " of ", i);
                look(e, which);
                ++reads;
                break;
            }
            case 2: { // construct from another
                const int kind = static_cast<int>(s.below(6));
                c.note("; ", i, " is ", kinds[kind], " made of ", j);
                const points p = all[j].p;
                slot made = std::visit([&](const auto &l) -> slot {
                    switch (kind) {
                        case 0: return slot{std::in_place_index<0>, l};
                        case 1: return slot{std::in_place_index<1>, l};
                        case 2: return slot{std::in_place_index<2>, l};
                        case 3: return slot{std::in_place_index<3>, l};
                        case 4: return slot{std::in_place_index<4>, l};
                        default: return slot{std::in_place_index<5>, l};
                    }
                }, all[j].s);
                // moving a constructed variant moves the line
                e.s = std::move(made);
                e.p = p;
                ++edits;
                break;
            }
            case 3: { // assign to the existing line
                bool done = false;
                std::visit([&](auto &a, const auto &b) {
                    if constexpr (requires { a = b; }) { a = b; done = true; }
                }, e.s, all[j].s);
                if (not done) break;
                e.p = all[j].p;
                c.note("; assign ", j, " to ", i);
                ++edits;
                break;
            }
            case 4: { // assign points
                const points p = K::some(s, 0, 6);
                c.note("; ", i, " gets ", K::show(p));
                std::visit([&](auto &a) {
                    using L = std::decay_t<decltype(a)>;
                    a = typename L::line_type(p.begin(), p.end());
                }, e.s);
                e.p = p;
                ++edits;
                break;
            }
            case 5: { // part
                if (e.p.empty()) break;
                const std::size_t from = s.below(e.p.size()), to = from + s.below(e.p.size() - from + 1);
                c.note("; ", i, " becomes its part ", from, " to ", to);
                const bool alloc = s.flip();
                std::visit([&](auto &a) {
                    if (alloc) a = a.sub_rich_line(from, to, std::allocator<void>{});
                    else a = a.sub_rich_line(from, to);
                }, e.s);
                e.p = points(e.p.begin() + from, e.p.begin() + to);
                ++edits;
                break;
            }
            case 6: { // erase one
                if (e.p.empty()) break;
                const std::size_t at = s.below(e.p.size());
                c.note("; erase ", at, " of ", i);
                std::visit([&](auto &a) {
                    if constexpr (requires { a.erase(at, true); }) a.erase(at, true);
                    else a.erase(at);
                }, e.s);
                e.p.erase(e.p.begin() + at);
                ++edits;
                break;
            }
            case 7: { // erase several
                std::vector<std::size_t> at;
                points rest;
                for (std::size_t k = 0; k < e.p.size(); ++k) if (s.chance(35)) at.push_back(k); else rest.push_back(e.p[k]);
                c.note("; erase several of ", i, ":");
                for (auto x : at) c.note(" ", x);
                std::visit([&](auto &a) { a.erase(at); }, e.s);
                e.p = rest;
                ++edits;
                break;
            }
            default: { // merge fresh lines of the same kind behind
                const std::size_t count = s.size(1, 3);
                points whole = e.p;
                bool fits = true;
                const bool pack = s.flip() and count <= 2;
                c.note("; merge behind ", i, pack ? " (pack):" : ":");
                std::visit([&](auto &a) {
                    using L = std::decay_t<decltype(a)>;
                    std::vector<L> more;
                    for (std::size_t k = 0; k < count; ++k) {
                        points p = K::some(s, 0, 4);
                        if (not p.empty() and not whole.empty()) {
                            if (not s.chance(8)) p.front() = whole.back();
                            if (not K::same(p.front(), whole.back())) fits = false;
                        }
                        c.note(" ", K::show(p));
                        if (fits) whole.insert(whole.end(), p.empty() or whole.empty() ? p.begin() : p.begin() + 1, p.end());
                        // with data or without
                        L next = as_line(a, p);
                        if (s.flip()) { (void) next.has_length(); }
                        if (s.flip()) { (void) next.has_directions(); }
                        more.push_back(std::move(next));
                    }
                    try {
                        if (pack and count == 1) a.merge(std::move(more[0]));
                        else if (pack) a.merge(std::move(more[0]), std::move(more[1]));
                        else a.merge(std::move(more));
                    } catch (const geo::rich_line_merge_exception &) {
                        require(not fits, "lines that attach were not merged");
                        a = L{};
                        e.p.clear();
                        c.count("merge rejected");
                        return;
                    }
                    require(fits, "lines that do not attach were merged");
                    e.p = whole;
                }, e.s);
                ++edits;
                break;
            }
        }
    }
    for (auto &e : all) look(e, 0x3ff);
    // all kinds agree
    for (std::size_t i = 1; i < all.size(); ++i) if (all[i].s.index() == all[i - 1].s.index()) {
        bool same = all[i].p.size() == all[i - 1].p.size();
        for (std::size_t k = 0; same and k < all[i].p.size(); ++k) same = K::same(all[i].p[k], all[i - 1].p[k]);
        std::visit([&](const auto &a) {
            const auto &b = std::get<std::decay_t<decltype(a)>>(all[i - 1].s);
            require_eq(a == b, same, "equality of lines ", i - 1, " and ", i);
            if (same) require_eq(hash_value(a), hash_value(b), "hash of equal lines");
        }, all[i].s);
    }
    c.nontrivial(edits >= 2 and reads >= 1);
}

template<typename K>
static void segments(Ctx &c) {
    using P = typename K::point;
    using M = geo::models<P>;
    using plain = geo::rich_segment<typename M::segment_type>;
    using eager = geo::eager_rich_segment<typename M::segment_type>;
    using lazy = geo::lazy_rich_segment<typename M::segment_type>;
    using slot = std::variant<plain, eager, lazy>;
    struct Entry { slot s; P a, b; };
    Src &s = c.s;
    auto make = [&](int kind, const P &a, const P &b) -> slot {
        if (kind == 0) return slot{std::in_place_index<0>, a, b};
        if (kind == 1) return slot{std::in_place_index<1>, a, b};
        return slot{std::in_place_index<2>, a, b};
    };
    static const char *names[] = {"segment", "immediate segment", "on-demand segment"};
    auto check = [&](const auto &x, const P &a, const P &b, unsigned which, const char *name) {
        const bool equal = K::same(a, b);
        if (which & 1) { require(K::same(x.first(), a) and K::same(x.second(), b), "points of the ", name); require_eq(x.equals_points(), equal, "equality of the points of the ", name); }
        if (which & 2) {
            require_eq(x.has_length(), not equal, "whether the ", name, " has a length");
            if (not equal) require(near(x.length(), K::distance(a, b), 1e-9, 1e-9), "length of the ", name, " ", x.length(), " instead of ", K::distance(a, b));
        }
        if (which & 4) {
            require_eq(x.has_azimuth(), not equal, "whether the ", name, " has an azimuth");
            if (not equal) require(turn_near(x.azimuth(), K::azimuth(a, b)), "azimuth of the ", name, " ", x.azimuth(), " instead of ", K::azimuth(a, b));
        }
    };
    auto point = [&] { return K::random(s); };
    auto txt = [](const P &a, const P &b) { return K::show({a, b}); };
    std::vector<Entry> all;
    for (std::size_t i = 0, n = s.size(2, 3); i < n; ++i) {
        const P a = point(), b = s.chance(25) ? a : point();
        const int kind = static_cast<int>(s.below(3));
        c.note(i ? "; " : "", i, " is ", names[kind], " ", txt(a, b));
        all.push_back({make(kind, a, b), a, b});
    }
    std::size_t edits = 0;
    for (std::size_t o = 0, n = s.size(1, 12); o < n; ++o) {
        const std::size_t i = s.below(all.size()), j = s.below(all.size());
        Entry &e = all[i];
        switch (s.below(5)) {
            case 0: {
                const unsigned which = static_cast<unsigned>(1 + s.below(7));
                c.note("; read ", which, " of ", i);
                std::visit([&](const auto &x) { check(x, e.a, e.b, which, names[e.s.index()]); }, e.s);
                break;
            }
            case 1: {
                const int kind = static_cast<int>(s.below(3));
                c.note("; ", i, " is ", names[kind], " made of ", j);
                const P a = all[j].a, b = all[j].b;
                e.s = std::visit([&](const auto &x) -> slot {
                    if (kind == 0) return slot{std::in_place_index<0>, x};
                    if (kind == 1) return slot{std::in_place_index<1>, x};
                    return slot{std::in_place_index<2>, x};
                }, all[j].s);
                e.a = a; e.b = b;
                ++edits;
                break;
            }
            case 2: {
                const P a = all[j].a, b = all[j].b;
                c.note("; assign ", j, " to ", i);
                std::visit([&](auto &x, const auto &y) { x = y; }, e.s, all[j].s);
                e.a = a; e.b = b;
                ++edits;
                break;
            }
            case 3: { // from a segment that refers to points elsewhere
                const P a = point(), b = s.chance(25) ? a : point();
                const int kind = static_cast<int>(s.below(3));
                const bool read = s.flip();
                c.note("; assign ", names[kind], " referring to ", txt(a, b), read ? " (read)" : "", " to ", i);
                auto assign = [&](const auto &x) {
                    if (read) check(x, a, b, 7, names[kind]);
                    std::visit([&](auto &y) { y = x; }, e.s);
                };
                using R = typename M::referring_segment_type;
                if (kind == 0) assign(geo::rich_segment<R>{a, b});
                if (kind == 1) assign(geo::eager_rich_segment<R>{a, b});
                if (kind == 2) assign(geo::lazy_rich_segment<R>{a, b});
                e.a = a; e.b = b;
                ++edits;
                break;
            }
            default: { // made of a segment that refers to points elsewhere
                const P a = point(), b = s.chance(25) ? a : point();
                const int kind = static_cast<int>(s.below(3)), target = static_cast<int>(s.below(3));
                const bool read = s.flip();
                c.note("; ", i, " is ", names[target], " made of ", names[kind], " referring to ", txt(a, b), read ? " (read)" : "");
                auto build = [&](const auto &x) {
                    if (read) check(x, a, b, 7, names[kind]);
                    if (target == 0) e.s = slot{std::in_place_index<0>, x};
                    if (target == 1) e.s = slot{std::in_place_index<1>, x};
                    if (target == 2) e.s = slot{std::in_place_index<2>, x};
                };
                using R = typename M::referring_segment_type;
                if (kind == 0) build(geo::rich_segment<R>{a, b});
                if (kind == 1) build(geo::eager_rich_segment<R>{a, b});
                if (kind == 2) build(geo::lazy_rich_segment<R>{a, b});
                e.a = a; e.b = b;
                ++edits;
            }
        }
    }
    for (auto &e : all) std::visit([&](const auto &x) { check(x, e.a, e.b, 7, names[e.s.index()]); }, e.s);
    c.nontrivial(edits >= 2);
}

template<typename K>
static void multi(Ctx &c) {
    using points = typename K::points;
    using Lines = std::vector<points>;
    using plain = geo::multi_rich_line<typename K::plain>;
    using plain_lazy = geo::multi_rich_line<typename K::lazy>;
    using eager = geo::eager_multi_rich_line<typename K::eager>;
    using lazy = geo::lazy_multi_rich_line<typename K::lazy>;
    using slot = std::variant<plain, plain_lazy, eager, lazy>;
    static const char *names[] = {"multi-line", "multi-line of on-demand lines", "immediate multi-line", "on-demand multi-line"};
    struct Entry { slot s; Lines p; };
    Src &s = c.s;
    auto some = [&] {
        Lines l;
        for (std::size_t i = 0, n = s.size(0, 4); i < n; ++i) {
            l.push_back(K::some(s, 1, 4));
            if (i > 0 and s.chance(60)) l.back().front() = l[i - 1].back();
        }
        return l;
    };
    auto txt = [](const Lines &l) { std::string t = "{"; for (auto &p : l) t += K::show(p); return t + "}"; };
    auto build = [&](auto *type, const Lines &l) {
        using X = std::decay_t<decltype(*type)>;
        using L = typename X::rich_line_type;
        std::vector<L> lines;
        for (auto &p : l) lines.push_back(L{typename L::line_type(p.begin(), p.end())});
        return X{std::move(lines)};
    };
    auto make = [&](int kind, const Lines &l) -> slot {
        if (kind == 0) return slot{std::in_place_index<0>, build((plain *) nullptr, l)};
        if (kind == 1) return slot{std::in_place_index<1>, build((plain_lazy *) nullptr, l)};
        if (kind == 2) return slot{std::in_place_index<2>, build((eager *) nullptr, l)};
        return slot{std::in_place_index<3>, build((lazy *) nullptr, l)};
    };
    auto look = [&](const Entry &e, unsigned which) {
        std::optional<double> length, azimuth, directions, absolute;
        std::vector<Measures> ms;
        for (auto &p : e.p) ms.push_back(measure<K>(p));
        for (std::size_t i = 0; i < ms.size(); ++i) {
            if (ms[i].length) length = length.value_or(0) + *ms[i].length;
            auto add = [&](double d, double a) { directions = directions.value_or(0) + d; absolute = absolute.value_or(0) + a; };
            if (ms[i].directions) add(*ms[i].directions, *ms[i].absolute);
            if (i + 1 < ms.size() and K::same(e.p[i].back(), e.p[i + 1].front()) and not ms[i].azimuths.empty() and not ms[i + 1].azimuths.empty() and
                ms[i].azimuths.back() and ms[i + 1].azimuths.front()) {
                const double d = K::turn(*ms[i].azimuths.back(), *ms[i + 1].azimuths.front());
                add(d, std::abs(d));
            }
        }
        if (not e.p.empty() and not K::same(e.p.front().front(), e.p.back().back())) azimuth = K::azimuth(e.p.front().front(), e.p.back().back());
        const std::string name = std::string(names[e.s.index()]) + " " + txt(e.p);
        std::visit([&](const auto &x) {
            if (which & 1) {
                require_eq(x.size(), e.p.size(), "number of lines of ", name);
                std::size_t sum = 0;
                for (std::size_t i = 0; i < e.p.size(); ++i) { compare<K>(c, x[i], e.p[i], "line of a multi-line", 0x1ff); sum += e.p[i].size(); }
                require_eq(x.sizes(), sum, "number of points of ", name);
            }
            if (which & 2) {
                require_eq(x.has_length(), length.has_value(), "whether there is a length of ", name);
                if (length) require(near(x.length(), *length, 1e-9, 1e-9), "length ", x.length(), " instead of ", *length, " of ", name);
            }
            if (which & 4) {
                require_eq(x.has_azimuth(), azimuth.has_value(), "whether there is an azimuth of ", name);
                if (azimuth) require(turn_near(x.azimuth(), *azimuth), "azimuth ", x.azimuth(), " instead of ", *azimuth, " of ", name);
            }
            if (which & 8) {
                require_eq(x.has_directions(), directions.has_value(), "whether there are turns of ", name);
                if (directions) require(turn_near(x.directions(), *directions), "turns ", x.directions(), " instead of ", *directions, " of ", name);
            }
            if (which & 16) {
                require_eq(x.has_directions(), absolute.has_value(), "whether there are turns of ", name);
                if (absolute) require(near(x.absolute_directions(), *absolute, 1e-6, 1e-9), "absolute turns ", x.absolute_directions(), " instead of ", *absolute, " of ", name);
            }
        }, e.s);
    };
    std::vector<Entry> all;
    for (std::size_t i = 0, n = s.size(2, 3); i < n; ++i) {
        const int kind = static_cast<int>(s.below(4));
        const Lines l = some();
        c.note(i ? "; " : "", i, " is ", names[kind], " ", txt(l));
        all.push_back({make(kind, l), l});
    }
    std::size_t edits = 0, reads = 0;
    for (std::size_t o = 0, n = s.size(1, 8); o < n; ++o) {
        const std::size_t i = s.below(all.size()), j = s.below(all.size());
        Entry &e = all[i];
        switch (s.below(3)) {
            case 0: {
                const unsigned which = static_cast<unsigned>(1 + s.below(31));
                c.note("; read ", which, " of ", i);
                look(e, which);
                ++reads;
                break;
            }
            case 1: {
                bool done = false;
                std::visit([&](auto &a, const auto &b) { if constexpr (requires { a = b; }) { a = b; done = true; } }, e.s, all[j].s);
                if (not done) break;
                e.p = all[j].p;
                c.note("; assign ", j, " to ", i);
                ++edits;
                break;
            }
            default: {
                const int kind = static_cast<int>(s.below(4));
                const Lines l = all[j].p;
                bool done = true;
                slot made = std::visit([&](const auto &x) -> slot {
                    using X = std::decay_t<decltype(x)>;
                    if (kind == 0) { if constexpr (std::is_constructible_v<plain, const X &>) return slot{std::in_place_index<0>, x}; }
                    if (kind == 1) { if constexpr (std::is_constructible_v<plain_lazy, const X &>) return slot{std::in_place_index<1>, x}; }
                    if (kind == 2) { if constexpr (std::is_constructible_v<eager, const X &> and not std::is_same_v<X, lazy>) /* does not compile */ return slot{std::in_place_index<2>, x}; }
                    if (kind == 3) { if constexpr (std::is_constructible_v<lazy, const X &>) return slot{std::in_place_index<3>, x}; }
                    done = false;
                    return slot{};
                }, all[j].s);
                if (not done) break;
                c.note("; ", i, " is ", names[kind], " made of ", j);
                e.s = std::move(made);
                e.p = l;
                ++edits;
            }
        }
    }
    for (auto &e : all) look(e, 31);
    c.nontrivial(edits >= 1 and reads >= 1);
}

void pbt::define(Suite &s) {
    s.property = "R01";
    using C = Kit<geo::point_type<MM2_CARTESIAN>>;
    using G = Kit<geo::point_type<MM2_GEOGRAPHIC>>;
    using H = Kit<geo::point_type<MM2_SPHERICAL_EQUATORIAL>>;
    s.add("lines", "up to 4 lines of 6 kinds with up to 6 points each, up to 14 reads, conversions, assignments, parts, erasures and merges; "
          "non-trivial: two edits and a read", 200000, 4000000, lines<C>);
    s.add("lines-geographic", "same in geographic coordinates", 50000, 1000000, lines<G>);
    s.add("lines-spherical", "same in spherical coordinates", 50000, 1000000, lines<H>);
    s.add("segments", "up to 3 segments of 3 kinds, up to 12 reads, conversions and assignments, also of segments referring to other points; "
          "non-trivial: two edits", 200000, 4000000, segments<C>);
    s.add("segments-geographic", "same in geographic coordinates", 50000, 1000000, segments<G>);
    s.add("multi", "up to 3 multi-lines of 4 kinds with up to 4 lines each, up to 8 reads, conversions and assignments; non-trivial: an edit "
          "and a read", 150000, 3000000, multi<C>);
    s.add("multi-geographic", "same in geographic coordinates", 30000, 600000, multi<G>);
    s.assumptions = {"The direction of a turn by exactly 180 degrees may be given as either side.",
                     "Lengths and azimuths of single geographic segments are those of Boost.Geometry (judged by R06)."};
}
