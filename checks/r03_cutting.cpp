// R03: parts of lines between two positions.
#include <vector>

#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/algorithm/substring.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;

template<typename CS>
struct Kit {
    using point = geo::point_type<CS>;
    using points = std::vector<point>;
    static constexpr bool planar = std::is_same_v<CS, MM2_CARTESIAN>;
    static constexpr bool spherical = std::is_same_v<CS, MM2_SPHERICAL_EQUATORIAL>;
    // Boost resolves distances on the spheroid and feet on the sphere to a decimetre only
    static constexpr double eps = planar ? 1e-6 : 0.3;

    static point random(Src &s) {
        if constexpr (planar) return s.chance(70) ? point{static_cast<double>(s.below(5)), static_cast<double>(s.below(5))} : point{s.unit() * 4, s.unit() * 4};
        else return point{11.5 + 0.001 * s.below(5), 48.25 + 0.001 * s.below(5)};
    }
    static double x(const point &p) { return p.template get<0>(); }
    static double y(const point &p) { return p.template get<1>(); }
    static double distance(const point &a, const point &b) {
        if constexpr (planar) return std::hypot(x(a) - x(b), y(a) - y(b));
        else if constexpr (spherical) {
            const double r = M_PI / 180, h = std::sin((y(b) - y(a)) * r / 2), w = std::sin((x(b) - x(a)) * r / 2);
            return 2 * 6371000 * std::asin(std::sqrt(h * h + std::cos(y(a) * r) * std::cos(y(b) * r) * w * w));
        } else return boost::geometry::distance(a, b);
    }
    static bool close(const point &a, const point &b) { return distance(a, b) <= eps; }
    static bool same(const point &a, const point &b) { return x(a) == x(b) and y(a) == y(b); }
    static std::string show(const points &p) {
        std::ostringstream o;
        o.precision(10);
        o << "[";
        for (auto &a : p) {
            if (&a != &p.front()) o << ", ";
            if constexpr (planar) o << x(a) << " " << y(a);
            else o << (x(a) - 11.5) * 1000 << " " << (y(a) - 48.25) * 1000;
        }
        o << "]";
        return o.str();
    }
};

template<typename K>
struct Line {
    typename K::points p;
    std::vector<double> at; // distance of every point from the beginning
    explicit Line(typename K::points q) : p{std::move(q)} {
        for (std::size_t i = 0; i < p.size(); ++i) at.push_back(i == 0 ? 0 : at.back() + (K::same(p[i - 1], p[i]) ? 0 : K::distance(p[i - 1], p[i])));
    }
    [[nodiscard]] double length() const { return at.empty() ? 0 : at.back(); }
    // the part between two places
    [[nodiscard]] typename K::points part(double from, double to, const typename K::point &a, const typename K::point &b) const {
        typename K::points r{a};
        for (std::size_t i = 0; i < p.size(); ++i) if (at[i] > from and at[i] < to) r.push_back(p[i]);
        r.push_back(b);
        return r;
    }
    [[nodiscard]] typename K::point place(double d) const {
        if (d <= 0) return p.front();
        for (std::size_t i = 1; i < p.size(); ++i) if (at[i] >= d and at[i] > at[i - 1]) {
            const double t = (d - at[i - 1]) / (at[i] - at[i - 1]);
            return typename K::point{K::x(p[i - 1]) + t * (K::x(p[i]) - K::x(p[i - 1])), K::y(p[i - 1]) + t * (K::y(p[i]) - K::y(p[i - 1]))};
        }
        return p.back();
    }
    // all places that are as near to a point as any
    [[nodiscard]] std::vector<std::pair<double, typename K::point>> nearest(const typename K::point &q, double by = K::eps) const {
        struct Foot { double d, at; typename K::point f; };
        std::vector<Foot> all;
        double best = std::numeric_limits<double>::infinity();
        for (std::size_t i = 1; i < p.size(); ++i) {
            const double ax = K::x(p[i - 1]), ay = K::y(p[i - 1]), scale = K::planar ? 1 : std::cos(ay * M_PI / 180);
            const double dx = (K::x(p[i]) - ax) * scale, dy = K::y(p[i]) - ay, l = dx * dx + dy * dy;
            const double t = l > 0 ? std::clamp(((K::x(q) - ax) * scale * dx + (K::y(q) - ay) * dy) / l, 0.0, 1.0) : 0;
            const typename K::point f{ax + t * (K::x(p[i]) - ax), ay + t * dy};
            const double d = K::distance(f, q);
            all.push_back({d, at[i - 1] + t * (at[i] - at[i - 1]), f});
            best = std::min(best, d);
        }
        std::vector<std::pair<double, typename K::point>> r;
        for (auto &x : all) if (x.d <= best + by) r.push_back({x.at, x.f});
        return r;
    }
};

// the same points, except that repetitions of the ends may be left out or be there
template<typename K>
static bool agree(typename K::points a, typename K::points b, double by = K::eps) {
    auto close = [by](const typename K::point &x, const typename K::point &y) { return K::distance(x, y) <= by; };
    auto trim = [&](typename K::points &p) {
        while (p.size() > 1 and close(p[0], p[1])) p.erase(p.begin() + 1);
        while (p.size() > 1 and close(p[p.size() - 1], p[p.size() - 2])) p.erase(p.end() - 2);
    };
    trim(a), trim(b);
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (not close(a[i], b[i])) return false;
    return true;
}

template<typename K, typename L>
static void cut(Ctx &c, bool on_line_only) {
    using points = typename K::points;
    Src &s = c.s;
    points p(s.chance(5) ? s.size(0, 1) : s.size(2, 9));
    for (std::size_t i = 0; i < p.size(); ++i) p[i] = i > 0 and s.chance(15) ? p[i - 1] : i > 1 and s.chance(15) ? p[s.below(i)] : K::random(s);
    if (p.size() > 2 and s.chance(15)) p.back() = p.front();
    const Line<K> whole{p};
    typename L::line_type line(p.begin(), p.end());
    const L l{std::move(line)};
    c.note("line ", K::show(p));
    if (s.flip()) (void) l.has_length();
    auto got_of = [](const L &x) { return points(x.line().begin(), x.line().end()); };
    if (p.size() < 2) {
        require(agree<K>(got_of(geo::substring(l, 0.5, 1.5)), p), "part of a single point");
        return;
    }
    const bool extended = whole.length() > 0;
    auto fraction = [&] { return s.chance(10) ? 0 : s.chance(10) ? 1 : s.chance(20) ? whole.at[s.below(p.size())] / std::max(whole.length(), 1e-12) : s.chance(60) ? s.below(9) / 8.0 : s.unit(); };
    double from = fraction() * whole.length(), to = fraction() * whole.length();
    if (from > to and s.chance(85)) std::swap(from, to);
    for (double *d : {&from, &to}) {
        // places next to a point cannot be told apart from it
        const auto place = whole.place(*d);
        for (std::size_t i = 0; i < p.size(); ++i) if (K::distance(p[i], place) < (K::planar ? 1e-4 : 3)) { *d = whole.at[i]; break; }
    }
    c.nontrivial(extended and p.size() >= 4 and from > 0 and to < whole.length() and from < to);
    const auto a = whole.place(from), b = whole.place(to);
    auto check = [&](const L &r, const points &expected, const char *what) {
        const points got = got_of(r);
        require(agree<K>(got, expected), what, " is ", K::show(got), " instead of ", K::show(expected));
        const Line<K> e{expected}, g{got};
        require(near(g.length(), e.length(), K::eps * 4, 0), what, " is ", g.length(), " long instead of ", e.length());
        require_eq(r.has_length(), g.length() > 0, "whether there is a length of ", what);
        if (g.length() > 0) require(near(r.length(), g.length(), K::eps, 1e-9), "length ", r.length(), " of ", what, " ", K::show(got), " instead of ", g.length());
    };
    const bool apart = to - from > 4 * K::eps and not K::close(a, b), equal = from == to;
    const bool backwards = from - to > 4 * K::eps;
    switch (s.below(on_line_only ? 3 : 4)) {
        case 0: { // distances and places
            c.note("; from ", from, " to ", to, " with places");
            const L r = geo::substring(l, from, to, a, b, true, true);
            if (not extended or backwards or equal) require(r.empty(), "part from ", from, " to ", to, " is ", K::show(got_of(r)));
            else if (apart) check(r, whole.part(from, to, a, b), "part");
            // before and after
            if (extended) {
                const L before = geo::substring_to(l, to, b, true), after = geo::substring_from(l, to, b, true);
                if (to == 0) require(before.empty(), "nothing is before the beginning");
                else if (not K::close(p.front(), b)) check(before, whole.part(-1, to, p.front(), b), "part before");
                if (to == whole.length()) require(after.empty(), "nothing is after the end");
                else if (not K::close(p.back(), b)) check(after, whole.part(to, whole.length() + 1, b, p.back()), "part after");
            }
            break;
        }
        case 1: { // places on the line
            c.note("; between the places ", K::show(points{a, b}));
            if (not extended) break;
            const double f = geo::distance_from(l, a, true), t = geo::distance_to(l, b, true);
            auto one_of = [&](double d, const typename K::point &q, const char *what) {
                const auto n = whole.nearest(q);
                for (auto &x : n) if (near(x.first, d, 3 * K::eps, 0)) return;
                fail(what, " of ", K::show(points{q}), " is ", d, " instead of ", n.front().first);
            };
            one_of(f, a, "distance from the beginning");
            one_of(t, b, "distance from the beginning");
            auto some = [&](const L &r, const auto &froms, const auto &tos, const char *what) {
                bool any = false;
                for (auto &x : froms) for (auto &y : tos) {
                    // too close to tell
                    if (std::abs(y.first - x.first) <= 8 * K::eps or K::close(x.second, y.second)) any = true;
                    else if (y.first < x.first) any = any or r.empty();
                    else any = any or agree<K>(got_of(r), whole.part(x.first + 2 * K::eps, y.first - 2 * K::eps, x.second, y.second));
                }
                require(any, what, " is ", K::show(got_of(r)));
            };
            const auto froms = whole.nearest(a), tos = whole.nearest(b);
            const std::vector<std::pair<double, typename K::point>> start{{0, p.front()}}, end{{whole.length(), p.back()}};
            some(geo::substring_points(l, a, b, true, true), froms, tos, "part between places");
            some(geo::substring_point_to(l, b, true), start, tos, "part before a place");
            some(geo::substring_point_from(l, a, true), froms, end, "part after a place");
            break;
        }
        case 2: { // distances only
            const bool outside = s.chance(10);
            const double under = outside and s.flip() ? from - whole.length() - 1 : from, over = outside and s.flip() ? to + whole.length() + 1 : to;
            c.note("; from ", under, " to ", over);
            const L r = geo::substring(l, under, over);
            const double f = std::max(under, 0.0), t = std::min(over, whole.length());
            if (not extended) require(r.empty() or agree<K>(got_of(r), p), "part of a line of no length is ", K::show(got_of(r)));
            else if (f - t > 4 * K::eps or f == t) require(r.empty() or f == t, "part from ", f, " to ", t, " is ", K::show(got_of(r)));
            else if (t - f > 4 * K::eps) check(r, whole.part(f, t, whole.place(f), whole.place(t)), "part");
            break;
        }
        default: { // nearest to points beside the line
            if (not extended) break;
            const double by = K::planar ? 10 * K::eps : 5; // the foot is computed in the plane here
            auto beside = [&](const typename K::point &x) {
                const double by = K::planar and s.chance(30) ? 5 : K::planar ? 1 : 0.4, unit = K::planar ? 1 : 0.001;
                return typename K::point{K::x(x) + unit * s.real(-by, by), K::y(x) + unit * s.real(-by, by)};
            };
            const auto q = beside(a), w = beside(b);
            c.note("; between the points ", K::show(points{q, w}));
            const L r = geo::substring_points(l, q, w);
            const auto froms = whole.nearest(q, by), tos = whole.nearest(w, by);
            bool any = false;
            for (auto &x : froms) for (auto &y : tos) {
                if (std::abs(y.first - x.first) <= 8 * by) any = true;
                else if (y.first < x.first) any = any or r.empty();
                else any = any or agree<K>(got_of(r), whole.part(x.first + 2 * K::eps, y.first - 2 * K::eps, x.second, y.second), by);
            }
            require(any, "part nearest to ", K::show(points{q, w}), " is ", K::show(got_of(r)), " instead of from ", froms.front().first, " to ", tos.back().first);
        }
    }
}

template<typename CS, bool OnLine>
static void kinds(Ctx &c) {
    using K = Kit<CS>;
    switch (c.s.below(3)) {
        case 0: cut<K, geo::rich_line_type<typename K::point>>(c, OnLine); break;
        case 1: cut<K, geo::eager_rich_line_type<typename K::point>>(c, OnLine); break;
        default: cut<K, geo::lazy_rich_line_type<typename K::point>>(c, OnLine);
    }
}

void pbt::define(Suite &s) {
    s.property = "R03";
    s.add("cartesian", "a line of up to 9 points, repeated points, loops and places passed twice included, of three kinds, cut at two distances, at two "
          "places on it, or at the places nearest to two points; non-trivial: at least 4 points and both cuts within the line", 400000, 6000000, kinds<MM2_CARTESIAN, false>);
    s.add("spherical", "same on the sphere", 60000, 900000, kinds<MM2_SPHERICAL_EQUATORIAL, false>);
    s.add("geographic", "same on the spheroid, without points beside the line", 40000, 600000, kinds<MM2_GEOGRAPHIC, true>);
    s.assumptions = {"A part between two places at the same position (a closed line included) is empty.",
                     "Where a line passes the position nearest to a point several times, any of these may be taken.",
                     "Repetitions of the very first and last point of a part may be left out."};
}
