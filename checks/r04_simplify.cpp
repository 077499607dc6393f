// R04: simplifying lines.
#include <list>
#include <memory_resource>
#include <vector>

#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/azimuth.hpp"
#include "geometry/algorithm/simplify.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;

template<typename CS>
struct Kit {
    using point = geo::point_type<CS>;
    using points = std::vector<point>;
    static constexpr bool planar = std::is_same_v<CS, MM2_CARTESIAN>;
    static constexpr double metre = planar ? 1 : 111195; // per degree
    static constexpr double spacing = planar ? 1 : 0.001;
    static constexpr double unit = metre * spacing; // of lengths

    static double x(const point &p) { return p.template get<0>(); }
    static double y(const point &p) { return p.template get<1>(); }
    static point random(Src &s) {
        const bool grid = s.chance(60);
        const double a = grid ? s.below(6) : s.real(0, 5), b = grid ? s.below(6) : s.real(0, 5);
        return planar ? point{a, b} : point{11.5 + spacing * a, 48.25 + spacing * b};
    }
    static bool same(const point &a, const point &b) { return x(a) == x(b) and y(a) == y(b); }
    // in a local plane, exact enough for a few hundred metres
    static std::pair<double, double> plane(const point &p) {
        return planar ? std::pair{x(p), y(p)} : std::pair{(x(p) - 11.5) * metre * std::cos(48.2525 * M_PI / 180), (y(p) - 48.25) * metre};
    }
    static double distance(const point &p, const point &a, const point &b) {
        const auto [px, py] = plane(p);
        const auto [ax, ay] = plane(a);
        const auto [bx, by] = plane(b);
        const double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy;
        const double t = l > 0 ? std::clamp(((px - ax) * dx + (py - ay) * dy) / l, 0.0, 1.0) : 0;
        return std::hypot(px - ax - t * dx, py - ay - t * dy);
    }
    // at the middle point: 180 when turning back
    static double turn(const point &a, const point &b, const point &c) {
        if constexpr (not planar) { // directions at the start of each segment, so the way back is not exactly opposite
            const auto degrees = [](const point &p, const point &q) { return geo::azimuth_deg(p, q); };
            return std::abs(std::remainder(degrees(a, b) - degrees(b, c), 360.0));
        } else {
            const auto [ax, ay] = plane(a);
            const auto [bx, by] = plane(b);
            const auto [cx, cy] = plane(c);
            return std::abs(std::remainder((std::atan2(by - ay, bx - ax) - std::atan2(cy - by, cx - bx)) * 180 / M_PI, 360.0));
        }
    }
    static double slack(double d) { return planar ? 1e-9 : 0.4 + 0.01 * d; }
    static std::string show(const points &p) {
        std::ostringstream o;
        o.precision(12);
        o << "[";
        for (auto &a : p) {
            if (&a != &p.front()) o << ", ";
            if constexpr (planar) o << x(a) << " " << y(a);
            else o << (x(a) - 11.5) / spacing << " " << (y(a) - 48.25) / spacing;
        }
        o << "]";
        return o.str();
    }
};

// what is left of p must be got: a subsequence with the ends, removed points near the line that replaces them.
// Points may coincide, so any way of explaining the result is accepted.
template<typename K>
static void judge(const typename K::points &p, const typename K::points &got, double tolerance, const std::vector<bool> &keep, const char *what, bool effective = true) {
    const auto name = [&] { return std::string(what) + " of " + K::show(p) + " by " + std::to_string(tolerance) + " is " + K::show(got); };
    require(got.size() <= p.size() and (p.size() <= 2 ? got.size() == p.size() : got.size() >= 2), "number of points, ", name());
    if (p.size() <= 2) {
        for (std::size_t i = 0; i < p.size(); ++i) require(K::same(p[i], got[i]), name());
        return;
    }
    // reachable[i]: got[0..k] explained with got[k] being p[i]
    std::vector<bool> reachable(p.size(), false);
    require(K::same(p.front(), got.front()), "the first point is gone, ", name());
    require(K::same(p.back(), got.back()), "the last point is gone, ", name());
    reachable[0] = true;
    std::vector<bool> subsequence = reachable;
    for (std::size_t k = 1; k < got.size(); ++k) {
        std::vector<bool> next(p.size(), false), sub(p.size(), false);
        for (std::size_t i = 0; i < p.size(); ++i) {
            if (not subsequence[i]) continue;
            bool fine = reachable[i];
            for (std::size_t j = i + 1; j < p.size(); ++j) {
                if (K::same(p[j], got[k])) { sub[j] = true; if (fine) {
                    bool near = true;
                    for (std::size_t m = i + 1; near and m < j; ++m) near = not keep[m] and K::distance(p[m], p[i], p[j]) <= tolerance + K::slack(tolerance);
                    if (near) next[j] = true;
                } }
            }
        }
        subsequence = sub;
        reachable = next;
    }
    require(subsequence.back(), "not a subsequence, ", name());
    // a line that is straight within the tolerance becomes its ends
    bool straight = tolerance > 2 * K::slack(tolerance);
    for (std::size_t i = 1; straight and i + 1 < p.size(); ++i) straight = K::distance(p[i], p.front(), p.back()) < tolerance - K::slack(tolerance);
    for (std::size_t i = 1; effective and straight and i + 1 < p.size(); ++i) straight = not keep[i];
    if (straight and effective) require(got.size() == 2, "all points are near the line between the ends but remain, ", name());
    require(reachable.back(), "a removed point is farther than the tolerance from what replaces it, or a place of turning back is gone, ", name());
}

template<typename K>
static double least_deviation(const typename K::points &p) {
    double least = std::numeric_limits<double>::infinity();
    for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = i + 1; j < p.size(); ++j) for (std::size_t k = j + 1; k < p.size(); ++k) least = std::min(least, K::distance(p[j], p[i], p[k]));
    return least;
}

template<typename K>
static typename K::points track(Src &s) {
    typename K::points p(s.size(0, s.chance(10) ? 40 : 12));
    for (std::size_t i = 0; i < p.size(); ++i) {
        if (i > 0 and s.chance(8)) p[i] = p[i - 1];
        else if (i > 1 and s.chance(10)) p[i] = p[i - 2]; // the way back
        else if (i > 1 and s.chance(30)) { // nearly straight on
            const auto &a = p[i - 2], &b = p[i - 1];
            p[i] = typename K::point{K::x(b) + (K::x(b) - K::x(a)) * 0.7 + K::spacing * s.real(-0.1, 0.1), K::y(b) + (K::y(b) - K::y(a)) * 0.7 + K::spacing * s.real(-0.1, 0.1)};
        } else p[i] = K::random(s);
    }
    if (p.size() > 3 and s.chance(10)) p.back() = p.front();
    return p;
}

template<typename K>
static double tolerance_for(Src &s, const typename K::points &p, bool &below) {
    const double least = least_deviation<K>(p);
    below = std::isfinite(least) and least > (K::planar ? 1e-3 : 2) and s.chance(20);
    if (below) return K::planar ? least * 0.999 : least * 0.98 - 1;
    return s.chance(10) ? 0 : K::unit * (s.chance(50) ? s.real(0, 0.3) : s.real(0, 3));
}

template<typename K>
static std::vector<bool> reversals(const typename K::points &p, double tolerance) {
    std::vector<bool> r(p.size(), false);
    for (std::size_t i = 1; i + 1 < p.size(); ++i) r[i] = not K::same(p[i - 1], p[i]) and not K::same(p[i], p[i + 1]) and K::turn(p[i - 1], p[i], p[i + 1]) > 180 - tolerance * 0.9;
    return r;
}

template<typename K, typename L>
static void line(Ctx &c) {
    using points = typename K::points;
    Src &s = c.s;
    const points p = track<K>(s);
    bool below;
    const double tolerance = tolerance_for<K>(s, p, below);
    typename L::line_type plain(p.begin(), p.end());
    const std::vector<bool> none(p.size(), false);
    auto points_of = [](const auto &l) { return points(l.begin(), l.end()); };
    c.note("line ", K::show(p), " tolerance ", tolerance);
    switch (s.below(3)) {
        case 0: { // range of a line
            const std::size_t from = s.below(p.size() + 1), to = s.range(from, p.size());
            c.note(" between ", from, " and ", to);
            geo::simplify(plain, from, to, tolerance);
            const points got = points_of(plain);
            const std::size_t after = p.size() - to;
            require(got.size() >= from + after, "points outside the range are gone: ", K::show(got));
            for (std::size_t i = 0; i < from; ++i) require(K::same(got[i], p[i]), "a point before the range is changed: ", K::show(got));
            for (std::size_t i = 0; i < after; ++i) require(K::same(got[got.size() - 1 - i], p[p.size() - 1 - i]), "a point after the range is changed: ", K::show(got));
            const points part(p.begin() + from, p.begin() + to), left(got.begin() + from, got.end() - after);
            judge<K>(part, left, tolerance, none, "simplification");
            if (below) require(left.size() == part.size(), "points deviating more than the tolerance are removed: ", K::show(left));
            c.nontrivial(left.size() < part.size() and left.size() > 2);
            break;
        }
        default: {
            const bool retain = s.flip();
            const double reverse = s.chance(50) ? 1e-3 : s.real(1, 20);
            L l{std::move(plain)};
            if (s.flip()) (void) l.has_length();
            if (s.flip()) (void) l.has_directions();
            c.note(retain ? " retaining turns" : "", reverse);
            geo::simplify_rich_line(l, retain, tolerance, reverse);
            const points got = points_of(l.line());
            judge<K>(p, got, tolerance, retain ? reversals<K>(p, reverse) : none, "simplification", not retain);
            if (below) require(got.size() == p.size(), "points deviating more than the tolerance are removed: ", K::show(got));
            // measures of what is left
            std::optional<double> length;
            for (std::size_t i = 1; i < got.size(); ++i) if (not K::same(got[i - 1], got[i])) length = length.value_or(0) + geo::point_distance(got[i - 1], got[i]);
            require_eq(l.has_length(), length.has_value(), "whether there is a length of ", K::show(got));
            if (length) require(near(l.length(), *length, 1e-6, 1e-9), "length ", l.length(), " of ", K::show(got), " instead of ", *length);
            c.nontrivial(got.size() < p.size() and got.size() > 2);
            if (retain) c.label("retaining turns");
        }
    }
}

template<typename K, typename L>
static void segments(Ctx &c) {
    using points = typename K::points;
    using segment = typename geo::rich_line_traits<L>::rich_segment_type;
    using plain = typename geo::rich_segment_traits<segment>::segment_type;
    Src &s = c.s;
    points p = track<K>(s);
    if (p.size() < 2) p = {K::random(s), K::random(s)};
    bool below;
    const double tolerance = tolerance_for<K>(s, p, below), reverse = s.chance(50) ? 1e-3 : s.real(1, 20);
    const bool retain = s.flip();
    c.note("segments ", K::show(p), " tolerance ", tolerance, retain ? " retaining turns " : " ", reverse);
    std::pmr::list<segment> list;
    for (std::size_t i = 1; i < p.size(); ++i) list.emplace_back(plain{p[i - 1], p[i]});
    geo::simplify_rich_segments(list, retain, tolerance, reverse);
    require(not list.empty(), "no segment is left");
    points got{list.front().first()};
    for (auto &x : list) {
        require(K::same(x.first(), got.back()), "segments are torn apart after ", K::show(got));
        got.push_back(x.second());
        require_eq(x.has_length(), not K::same(x.first(), x.second()), "whether a segment has a length in ", K::show(got));
        if (x.has_length()) require(near(x.length(), geo::point_distance(x.first(), x.second()), 1e-6, 1e-9), "length ", x.length(), " of the last segment of ", K::show(got));
    }
    judge<K>(p, got, tolerance, retain ? reversals<K>(p, reverse) : std::vector<bool>(p.size(), false), "simplification", not retain);
    if (below) require(got.size() == p.size(), "points deviating more than the tolerance are removed: ", K::show(got));
    c.nontrivial(got.size() < p.size() and got.size() > 2);
}

template<typename CS>
static void lines(Ctx &c) {
    using P = geo::point_type<CS>;
    switch (c.s.below(3)) {
        case 0: line<Kit<CS>, geo::rich_line_type<P>>(c); break;
        case 1: line<Kit<CS>, geo::eager_rich_line_type<P>>(c); break;
        default: line<Kit<CS>, geo::lazy_rich_line_type<P>>(c);
    }
}

void pbt::define(Suite &s) {
    s.property = "R04";
    s.add("lines", "a line of up to 40 points with straight stretches, repeated points, loops and ways back of three kinds, and a tolerance, with or "
          "without retaining turns, or a range of it; non-trivial: some but not all inner points are removed", 300000, 5000000, lines<MM2_CARTESIAN>);
    s.add("lines-geographic", "same in geographic coordinates", 60000, 900000, lines<MM2_GEOGRAPHIC>);
    s.add("lines-spherical", "same in spherical coordinates", 60000, 900000, lines<MM2_SPHERICAL_EQUATORIAL>);
    s.add("segments", "same for chains of segments", 200000, 3000000, segments<Kit<MM2_CARTESIAN>, geo::lazy_rich_line_type<geo::point_type<MM2_CARTESIAN>>>);
    s.add("segments-geographic", "same for chains of segments in geographic coordinates", 50000, 750000, segments<Kit<MM2_GEOGRAPHIC>, geo::lazy_rich_line_type<geo::point_type<MM2_GEOGRAPHIC>>>);
    s.assumptions = {"Tolerances are not negative.", "In geographic and spherical coordinates a deviation is judged in a local plane with a margin of 0.4 m and 1 %."};
}
