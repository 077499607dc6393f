// R06: distances, azimuths, directions, lengths, and the caches in front of them.
#include <list>
#include <memory_resource>
#include <thread>
#include <vector>

#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/algorithm/azimuth.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/length.hpp"
#include "geometry/cache.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;

static constexpr double RAD = M_PI / 180, R = 6371000;

// Vincenty's inverse solution on WGS84, no value when it does not converge
struct Geodesic { double distance, azimuth; };
static std::optional<Geodesic> vincenty(double lon1, double lat1, double lon2, double lat2) {
    const double a = 6378137, f = 1 / 298.257223563, b = a * (1 - f);
    const double L = std::remainder((lon2 - lon1) * RAD, 2 * M_PI);
    const double u1 = std::atan((1 - f) * std::tan(lat1 * RAD)), u2 = std::atan((1 - f) * std::tan(lat2 * RAD));
    const double s1 = std::sin(u1), c1 = std::cos(u1), s2 = std::sin(u2), c2 = std::cos(u2);
    double l = L;
    for (int i = 0; i < 200; ++i) {
        const double sl = std::sin(l), cl = std::cos(l);
        const double ss = std::hypot(c2 * sl, c1 * s2 - s1 * c2 * cl);
        if (ss == 0) return Geodesic{0, 0};
        const double cs = s1 * s2 + c1 * c2 * cl, sigma = std::atan2(ss, cs);
        const double sa = c1 * c2 * sl / ss, ca2 = 1 - sa * sa;
        const double cm = ca2 > 1e-15 ? cs - 2 * s1 * s2 / ca2 : 0;
        const double C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2));
        const double next = L + (1 - C) * f * sa * (sigma + C * ss * (cm + C * cs * (-1 + 2 * cm * cm)));
        if (std::abs(next - l) < 1e-13) {
            const double u = ca2 * (a * a - b * b) / (b * b);
            const double A = 1 + u / 16384 * (4096 + u * (-768 + u * (320 - 175 * u)));
            const double B = u / 1024 * (256 + u * (-128 + u * (74 - 47 * u)));
            const double ds = B * ss * (cm + B / 4 * (cs * (-1 + 2 * cm * cm) - B / 6 * cm * (-3 + 4 * ss * ss) * (-3 + 4 * cm * cm)));
            return Geodesic{b * A * (sigma - ds), std::atan2(c2 * sl, c1 * s2 - s1 * c2 * cl) / RAD};
        }
        l = next;
    }
    return std::nullopt;
}

using V3 = std::array<double, 3>;
static V3 vec(double lon, double lat) { return {std::cos(lat * RAD) * std::cos(lon * RAD), std::cos(lat * RAD) * std::sin(lon * RAD), std::sin(lat * RAD)}; }
static V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double norm(const V3 &a) { return std::sqrt(dot(a, a)); }
static double angle(const V3 &a, const V3 &b) { return std::atan2(norm(cross(a, b)), dot(a, b)); }

template<typename CS>
struct Kit {
    using point = geo::point_type<CS>;
    using line = typename geo::rich_line_type<point>::line_type;
    static constexpr bool planar = std::is_same_v<CS, MM2_CARTESIAN>, round = std::is_same_v<CS, MM2_SPHERICAL_EQUATORIAL>;
    static double x(const point &p) { return p.template get<0>(); }
    static double y(const point &p) { return p.template get<1>(); }
    static std::string show(const point &p) {
        std::ostringstream o;
        o.precision(17);
        o << "(" << x(p) << " " << y(p) << ")";
        return o.str();
    }
    static point random(Src &s) {
        if (planar) {
            if (s.chance(40)) return point{static_cast<double>(s.around(5)), static_cast<double>(s.around(5))};
            const double scale = std::pow(10.0, static_cast<double>(s.below(9)) - 2);
            return point{s.real(-scale, scale), s.real(-scale, scale)};
        }
        if (s.chance(40)) return point{static_cast<double>(s.around(18)) * 10, static_cast<double>(s.around(8)) * 10};
        return point{s.real(-180, 180), s.real(-85, 85)};
    }
    static point beside(Src &s, const point &p) {
        if (planar) { const double d = std::pow(10.0, static_cast<double>(s.below(8)) - 4); return point{x(p) + s.real(-d, d), y(p) + s.real(-d, d)}; }
        const double d = std::pow(10.0, -static_cast<double>(s.below(5)));
        return point{std::clamp(x(p) + s.real(-d, d), -180.0, 180.0), std::clamp(y(p) + s.real(-d, d), -85.0, 85.0)};
    }
    // distance and azimuth, no value where the independent computation is not sure
    static std::optional<Geodesic> reference(const point &a, const point &b) {
        if constexpr (planar) return Geodesic{std::hypot(x(b) - x(a), y(b) - y(a)), std::atan2(x(b) - x(a), y(b) - y(a)) / RAD};
        else if constexpr (round) {
            const V3 p = vec(x(a), y(a)), q = vec(x(b), y(b));
            const double d = angle(p, q), l = (x(b) - x(a)) * RAD;
            return Geodesic{R * d, std::atan2(std::sin(l) * std::cos(y(b) * RAD), std::cos(y(a) * RAD) * std::sin(y(b) * RAD) - std::sin(y(a) * RAD) * std::cos(y(b) * RAD) * std::cos(l)) / RAD};
        } else return vincenty(x(a), y(a), x(b), y(b));
    }
};

static double turned(double a, double b) { return std::abs(std::remainder(a - b, 360.0)); }

template<typename CS>
static void measures(Ctx &c) {
    using K = Kit<CS>;
    using point = typename K::point;
    Src &s = c.s;
    const point a = K::random(s);
    const point b = s.chance(8) ? a : s.flip() ? K::beside(s, a) : K::random(s);
    c.note("points ", K::show(a), " ", K::show(b));
    const auto ref = K::reference(a, b);
    const bool same = K::x(a) == K::x(b) and K::y(a) == K::y(b);
    for (int cached = 0; cached < 2; ++cached) {
        const double d = cached ? geo::point_distance(a, b) : geo::distance(a, b), e = cached ? geo::point_distance(b, a) : geo::distance(b, a);
        require(d >= 0 and std::isfinite(d), "distance ", d);
        require(near(d, e, K::planar or K::round ? 1e-9 : 1e-3, 1e-12), "distance ", d, " but ", e, " the other way around");
        if (same) require(d == 0, "distance ", d, " of equal points");
        if (not ref) continue;
        if constexpr (not K::planar and not K::round) {
            if (ref->distance > 1.5e7) continue;
            require(near(d, ref->distance, 0.2, 1e-4), "distance ", d, " instead of ", ref->distance);
        } else {
            // nearly opposite points are hard for the haversine
            const double rel = K::round and ref->distance > R * 3 ? 1e-5 : 1e-8;
            require(near(d, ref->distance, 1e-6, rel), "distance ", d, " instead of ", ref->distance);
            if (not same and ref->distance > 1e-6) require(d > 0, "distance of different points is ", d);
        }
    }
    if constexpr (K::planar) require(near(geo::euclidean_distance(a, b), ref->distance, 1e-9, 1e-9), "euclidean distance ", geo::euclidean_distance(a, b));
    const double z = geo::azimuth_deg(a, b);
    require(z >= -180 and z <= 180, "azimuth ", z);
    require(near(geo::azimuth_rad(a, b), z * RAD, 1e-12, 1e-12), "azimuth in radians ", geo::azimuth_rad(a, b), " and degrees ", z);
    if (ref and not same) {
        const double d = ref->distance;
        if constexpr (K::planar) require(turned(z, ref->azimuth) < 1e-9, "azimuth ", z, " instead of ", ref->azimuth);
        else if constexpr (K::round) { if (d > 1 and d < R * 3.1) require(turned(z, ref->azimuth) < 1e-4, "azimuth ", z, " instead of ", ref->azimuth); }
        else if (d > 5 and d < 1.5e7) require(turned(z, ref->azimuth) < 0.05 + 2 / d, "azimuth ", z, " instead of ", ref->azimuth, " over ", d);
    }
    c.nontrivial(not same and ref and ref->distance > 1e-3);
}

template<typename CS>
static void lines(Ctx &c) {
    using K = Kit<CS>;
    using point = typename K::point;
    using line = typename K::line;
    using segment = typename geo::models<point>::segment_type;
    using referring = typename geo::models<point>::referring_segment_type;
    Src &s = c.s;
    line l;
    const point base = K::random(s);
    for (std::size_t i = 0, n = s.size(0, 8); i < n; ++i) l.push_back(i > 0 and s.chance(10) ? l.back() : s.chance(30) ? K::random(s) : K::beside(s, i ? l.back() : base));
    c.note("line");
    for (auto &p : l) c.note(" ", K::show(p));
    double length = 0, directions = 0, absolute = 0;
    std::vector<segment> segments;
    bool flips = false;
    for (std::size_t i = 0; i + 1 < l.size(); ++i) {
        const double d = geo::distance(l[i], l[i + 1]);
        length += d;
        segments.emplace_back(l[i], l[i + 1]);
        require(near(geo::length_segment(segments.back()), d, 1e-9, 1e-12), "length of segment ", i);
        require(near(geo::length_segment(referring{l[i], l[i + 1]}), d, 1e-9, 1e-12), "length of referring segment ", i);
        require(near(geo::azimuth_segment_deg(segments.back()), geo::azimuth_deg(l[i], l[i + 1]), 1e-12, 0), "azimuth of segment ", i);
        if (i + 2 < l.size()) {
            const double x = geo::azimuth_deg(l[i], l[i + 1]), y = geo::azimuth_deg(l[i + 1], l[i + 2]), t = geo::direction_deg(l[i], l[i + 1], l[i + 2]);
            require(t >= -180 and t <= 180, "direction ", t);
            require(turned(t, x - y) < 1e-9, "direction ", t, " between azimuths ", x, " and ", y);
            require(geo::direction_deg(x, y) == t, "direction of azimuths ", geo::direction_deg(x, y), " but of points ", t);
            directions += t;
            absolute += std::abs(t);
            flips = flips or std::abs(t) > 180 - 1e-6;
        }
    }
    require(near(geo::length(l), length, 1e-3 * static_cast<double>(not K::planar) + 1e-6, 1e-9), "length ", geo::length(l), " of the line, the segments have ", length);
    typename geo::rich_line_type<point> rich{line{l}};
    const bool has = length > 0;
    if (has) require(near(rich.length(), length, 1e-3, 1e-9), "length ", rich.length(), " of the rich line, the segments have ", length);
    require(near(geo::directions_deg(l), directions, 1e-9, 1e-12), "sum of directions ", geo::directions_deg(l), " instead of ", directions);
    require(near(geo::absolute_directions_deg(l), absolute, 1e-9, 1e-12), "sum of absolute directions ", geo::absolute_directions_deg(l), " instead of ", absolute);
    const auto both = geo::combined_directions_deg(l);
    require(near(both.first, directions, 1e-9, 1e-12) and near(both.second, absolute, 1e-9, 1e-12), "combined directions ", both.first, " ", both.second);
    if (not segments.empty()) {
        const auto lengths = geo::segments_lengths(segments), azimuths = geo::segments_azimuths_deg(segments);
        require(lengths.size() == segments.size() and azimuths.size() == segments.size(), "number of measures");
        for (std::size_t i = 0; i < segments.size(); ++i) {
            require(near(lengths[i], geo::distance(l[i], l[i + 1]), 1e-9, 1e-12), "length ", i);
            require(near(azimuths[i], geo::azimuth_deg(l[i], l[i + 1]), 1e-12, 0), "azimuth ", i);
        }
        const auto d1 = geo::segments_directions_deg(segments), d2 = geo::segments_directions_deg(segments, azimuths), d3 = geo::segments_absolute_directions_deg(segments);
        require(d1.size() + 1 == segments.size() and d2.size() == d1.size() and d3.size() == d1.size(), "number of directions");
        for (std::size_t i = 0; i < d1.size(); ++i) {
            const double t = geo::direction_deg(l[i], l[i + 1], l[i + 2]);
            require(near(d1[i], t, 1e-9, 0) and near(d2[i], t, 1e-9, 0) and near(d3[i], std::abs(t), 1e-9, 0), "direction ", i, " ", d1[i], " ", d2[i], " ", d3[i], " instead of ", t);
        }
    }
    require(near(geo::azimuth_line_deg(l), l.size() >= 2 ? geo::azimuth_deg(l.front(), l.back()) : 0.0, 1e-12, 0), "azimuth of the line");
    c.nontrivial(l.size() >= 4);
    if (flips) c.label("turning back");
}

// distances between points and lines
template<typename CS>
static void to_lines(Ctx &c) {
    using K = Kit<CS>;
    using point = typename K::point;
    using referring = typename geo::models<point>::referring_segment_type;
    Src &s = c.s;
    const point base = K::planar ? point{0, 0} : point{s.real(-170, 170), s.real(-70, 70)};
    auto near_by = [&] { return K::planar ? point{s.real(-9, 9), s.real(-9, 9)} : point{K::x(base) + s.real(-0.05, 0.05), K::y(base) + s.real(-0.05, 0.05)}; };
    typename K::line l;
    for (std::size_t i = 0, n = s.size(2, 5); i < n; ++i) l.push_back(near_by());
    const point p = near_by();
    c.note("point ", K::show(p), " line");
    for (auto &q : l) c.note(" ", K::show(q));
    double best = std::numeric_limits<double>::infinity();
    for (std::size_t i = 0; i + 1 < l.size(); ++i) {
        double d;
        if constexpr (K::planar) {
            const double dx = K::x(l[i + 1]) - K::x(l[i]), dy = K::y(l[i + 1]) - K::y(l[i]), n = dx * dx + dy * dy;
            const double t = n > 0 ? std::clamp(((K::x(p) - K::x(l[i])) * dx + (K::y(p) - K::y(l[i])) * dy) / n, 0.0, 1.0) : 0;
            d = std::hypot(K::x(p) - K::x(l[i]) - t * dx, K::y(p) - K::y(l[i]) - t * dy);
        } else {
            const V3 a = vec(K::x(l[i]), K::y(l[i])), b = vec(K::x(l[i + 1]), K::y(l[i + 1])), q = vec(K::x(p), K::y(p));
            const V3 n = cross(a, b);
            const bool between = norm(n) > 0 and dot(cross(n, a), q) > 0 and dot(cross(b, n), q) > 0;
            d = R * (between ? std::abs(std::asin(std::clamp(dot(n, q) / norm(n), -1.0, 1.0))) : std::min(angle(a, q), angle(b, q)));
        }
        const double got = geo::distance(p, referring{l[i], l[i + 1]});
        if constexpr (K::planar) require(near(got, d, 1e-9, 1e-9), "distance ", got, " to segment ", i, " instead of ", d);
        else if constexpr (K::round) require(near(got, d, 1e-2, 1e-6), "distance ", got, " to segment ", i, " instead of ", d);
        else require(near(got, d, 0.5, 0.01), "distance ", got, " to segment ", i, " instead of about ", d);
        best = std::min(best, got);
    }
    const double got = geo::distance(p, l);
    require(near(got, best, K::planar ? 1e-9 : 0.2, 1e-6), "distance ", got, " to the line, but ", best, " to its nearest segment");
    c.nontrivial(l.size() >= 3);
}

enum Op { DISTANCE, AZIMUTH, RESET_DISTANCE, RESET_AZIMUTH };
struct Step { Op op; std::size_t a, b; };

template<typename CS>
static std::string history(const std::vector<typename Kit<CS>::point> &pool, const std::vector<Step> &steps) {
    for (std::size_t i = 0; i < steps.size(); ++i) {
        const auto &p = pool[steps[i].a], &q = pool[steps[i].b];
        std::ostringstream o;
        o.precision(17);
        switch (steps[i].op) {
            case DISTANCE: {
                const double got = geo::point_distance(p, q), want = geo::distance(p, q);
                if (got != want) { o << "distance of " << Kit<CS>::show(p) << " and " << Kit<CS>::show(q) << " is " << got << " instead of " << want << " at " << i; return o.str(); }
                break;
            }
            case AZIMUTH: {
                const double got = geo::azimuth_rad(p, q), want = boost::geometry::azimuth(p, q);
                const bool apart = boost::geometry::get<0>(p) != boost::geometry::get<0>(q) or boost::geometry::get<1>(p) != boost::geometry::get<1>(q);
                // there is no azimuth between equal points, 0 and -0 may differ then
                if (apart and std::abs(std::remainder(got - want, 2 * M_PI)) > 1e-15) { o << "azimuth from " << Kit<CS>::show(p) << " to " << Kit<CS>::show(q) << " is " << got << " instead of " << want << " at " << i; return o.str(); }
                break;
            }
            case RESET_DISTANCE: geo::reset_distance_cache(); break;
            case RESET_AZIMUTH: geo::reset_azimuth_cache(); break;
        }
    }
    return "";
}

template<typename CS>
static std::vector<typename Kit<CS>::point> pool_of(Ctx &c) {
    Src &s = c.s;
    using point = typename Kit<CS>::point;
    std::vector<double> numbers(s.range(2, 5));
    for (auto &n : numbers) n = s.flip() ? static_cast<double>(s.around(3)) : s.real(-60, 60);
    if (s.chance(20)) numbers.push_back(-0.0);
    std::vector<point> pool;
    for (std::size_t i = 0, n = s.range(2, 6); i < n; ++i) pool.push_back(point{s.pick(numbers), s.pick(numbers)});
    c.note("pool");
    for (auto &p : pool) c.note(" ", Kit<CS>::show(p));
    return pool;
}
static std::vector<Step> steps_of(Ctx &c, std::size_t points) {
    Src &s = c.s;
    std::vector<Step> steps(s.size(1, 60));
    std::size_t repeats = 0;
    std::set<std::tuple<int, std::size_t, std::size_t>> seen;
    for (auto &x : steps) {
        x = {s.chance(5) ? RESET_DISTANCE : s.chance(5) ? RESET_AZIMUTH : s.flip() ? DISTANCE : AZIMUTH, static_cast<std::size_t>(s.below(points)), static_cast<std::size_t>(s.below(points))};
        if (x.op < RESET_DISTANCE and not seen.insert({x.op, x.a, x.b}).second) ++repeats;
        c.note(" ", "daDA"[x.op], x.a, x.b);
    }
    c.nontrivial(repeats >= 3);
    return steps;
}

template<typename CS>
static void histories(Ctx &c) {
    const auto pool = pool_of<CS>(c);
    geo::reset_distance_cache();
    geo::reset_azimuth_cache();
    const auto steps = steps_of(c, pool.size());
    if (c.s.chance(90)) geo::enable_cache(); else geo::disable_cache();
    const auto wrong = history<CS>(pool, steps);
    geo::disable_cache();
    require(wrong.empty(), wrong);
}

template<typename CS>
static void threads(Ctx &c) {
    Src &s = c.s;
    const std::size_t n = s.range(2, 4);
    std::vector<std::vector<typename Kit<CS>::point>> pools;
    std::vector<std::vector<Step>> steps;
    for (std::size_t i = 0; i < n; ++i) { pools.push_back(i and s.flip() ? pools[0] : pool_of<CS>(c)); steps.push_back(steps_of(c, pools.back().size())); }
    std::vector<std::string> wrong(n);
    std::vector<std::thread> running;
    geo::enable_cache();
    for (std::size_t i = 0; i < n; ++i) running.emplace_back([&, i] { for (int k = 0; k < 3 and wrong[i].empty(); ++k) wrong[i] = history<CS>(pools[i], steps[i]); });
    for (auto &t : running) t.join();
    geo::disable_cache();
    for (auto &w : wrong) require(w.empty(), "in a thread: ", w);
}

void pbt::define(Suite &s) {
    s.property = "R06";
    const char *m = "two points all over the plane or the globe, with and without caching; non-trivial: they differ";
    s.add("measures", m, 200000, 4000000, measures<MM2_CARTESIAN>);
    s.add("measures-geographic", m, 100000, 2000000, measures<MM2_GEOGRAPHIC>);
    s.add("measures-spherical", m, 100000, 2000000, measures<MM2_SPHERICAL_EQUATORIAL>);
    const char *l = "lines of up to 8 points with repetitions; non-trivial: at least four points";
    s.add("lines", l, 60000, 1000000, lines<MM2_CARTESIAN>);
    s.add("lines-geographic", l, 40000, 600000, lines<MM2_GEOGRAPHIC>);
    s.add("lines-spherical", l, 40000, 600000, lines<MM2_SPHERICAL_EQUATORIAL>);
    const char *t = "a point and a line of up to 5 points; non-trivial: at least two segments";
    s.add("point-line", t, 100000, 1500000, to_lines<MM2_CARTESIAN>);
    s.add("point-line-geographic", t, 20000, 300000, to_lines<MM2_GEOGRAPHIC>);
    s.add("point-line-spherical", t, 50000, 800000, to_lines<MM2_SPHERICAL_EQUATORIAL>);
    const char *h = "up to 60 queries and resets on points made of few numbers; non-trivial: three repeated queries";
    s.add("histories", h, 60000, 1000000, histories<MM2_CARTESIAN>);
    s.add("histories-geographic", h, 30000, 500000, histories<MM2_GEOGRAPHIC>);
    s.add("histories-spherical", h, 30000, 500000, histories<MM2_SPHERICAL_EQUATORIAL>);
    s.add("threads", "such histories in up to 4 threads at once", 3000, 50000, threads<MM2_GEOGRAPHIC>);
    s.assumptions = {"One coordinate system per thread between two resets, as in the program: the caches are keyed by coordinates only.",
                     "On the spheroid the first-order solution of Boost is accepted: 0.01 % and 0.2 m, 0.05 degrees beyond 5 m, no points more than 15000 km apart."};
}
