// R05: merging nearby points of tracks.
#include <vector>

#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/algorithm/median.hpp"
#include "geometry/algorithm/median_merge.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;

template<typename CS>
struct Kit {
    using point = geo::point_type<CS>;
    using points = std::vector<point>;
    using line = typename geo::rich_line_type<point>::line_type;
    static constexpr bool planar = std::is_same_v<CS, MM2_CARTESIAN>;
    static constexpr bool spherical = std::is_same_v<CS, MM2_SPHERICAL_EQUATORIAL>;
    static constexpr double spacing = planar ? 1 : 0.0001; // about 10 m
    static constexpr double unit = planar ? 1 : 11;
    static constexpr double margin = planar ? 1e-9 : 0.2;

    static double x(const point &p) { return p.template get<0>(); }
    static double y(const point &p) { return p.template get<1>(); }
    static point at(double a, double b) { return planar ? point{a, b} : point{11.5 + spacing * a, 48.25 + spacing * b}; }
    static bool same(const point &a, const point &b) { return x(a) == x(b) and y(a) == y(b); }
    static double distance(const point &a, const point &b) {
        if constexpr (planar) return std::hypot(x(a) - x(b), y(a) - y(b));
        else if constexpr (spherical) {
            const double r = M_PI / 180, h = std::sin((y(b) - y(a)) * r / 2), w = std::sin((x(b) - x(a)) * r / 2);
            return 2 * 6371000 * std::asin(std::sqrt(h * h + std::cos(y(a) * r) * std::cos(y(b) * r) * w * w));
        } else return boost::geometry::distance(a, b);
    }
    static std::string show(const points &p) {
        std::ostringstream o;
        o.precision(12);
        o << "[";
        for (auto &a : p) {
            if (&a != &p.front()) o << ", ";
            if constexpr (planar) o << x(a) << " " << y(a);
            else o << (x(a) - 11.5) / spacing << " " << (y(a) - 48.25) / spacing;
        }
        o << "]";
        return o.str();
    }
};

static double median_of(std::vector<double> v) {
    std::sort(v.begin(), v.end());
    return v.size() % 2 == 1 ? v[v.size() / 2] : (v[v.size() / 2 - 1] + v[v.size() / 2]) / 2;
}

// a road network of a few lines that answers which is the nearest
template<typename K>
struct Roads {
    struct Edge { geo::rich_line_type<typename K::point> rich_line; };
    std::vector<Edge> edges;
    template<typename Query>
    [[nodiscard]] std::vector<std::size_t> query_segments_unique(const Query &query) const {
        std::vector<std::size_t> r;
        double best = std::numeric_limits<double>::infinity();
        for (std::size_t i = 0; i < edges.size(); ++i) {
            const double d = geo::distance(query.point_or_relation, edges[i].rich_line.line());
            if (d < best) { best = d; r = {i}; }
        }
        return r;
    }
    [[nodiscard]] const Edge &edge(std::size_t i) const { return edges[i]; }
};

template<typename K>
static void merge(Ctx &c) {
    using points = typename K::points;
    using line = typename K::line;
    Src &s = c.s;
    points p(s.size(0, s.chance(10) ? 60 : 14));
    double a = 0, b = 0;
    for (std::size_t i = 0; i < p.size(); ++i) {
        if (s.chance(25)) { a += s.real(-6, 6); b += s.real(-6, 6); }
        else if (s.chance(60)) { a += s.real(-1, 1); b += s.real(-1, 1); }
        if (s.chance(30)) { a = std::round(a); b = std::round(b); }
        p[i] = i > 1 and s.chance(10) ? p[s.below(i)] : K::at(a, b);
    }
    const double tolerance = s.chance(7) ? 0 : K::unit * s.real(0.01, s.chance(20) ? 8 : 2);
    Roads<K> roads;
    const unsigned mode = static_cast<unsigned>(s.below(3)); // plain, with adjuster, with roads
    const bool adaptive = s.flip(), given = s.chance(80);
    if (mode == 2) for (std::size_t i = 0, n = s.size(0, 3); i < n; ++i) {
        line l;
        for (std::size_t k = 0, m = s.size(2, 4); k < m; ++k) l.push_back(K::at(s.real(-9, 9), s.real(-9, 9)));
        roads.edges.push_back({geo::rich_line_type<typename K::point>{std::move(l)}});
    }
    auto adjusted = [&](const typename K::point &q, double t) -> double {
        if (mode == 0) return t;
        if (mode == 1) return t * (1 + std::fmod(std::abs(K::x(q)), 1.0));
        double nearest = std::numeric_limits<double>::infinity();
        if (adaptive and given) for (auto &e : roads.edges) nearest = std::min(nearest, static_cast<double>(geo::distance(q, e.rich_line.line())));
        return std::isfinite(nearest) ? std::max(t, nearest / 2) : t;
    };
    c.note("points ", K::show(p), " tolerance ", tolerance, " mode ", mode, adaptive ? " adaptive" : "", given ? "" : " no network");
    const line in(p.begin(), p.end());
    line out;
    if (mode == 0) out = geo::median_merge(in, tolerance);
    else if (mode == 1) out = geo::median_merge(in, adjusted, tolerance);
    else out = geo::median_merge(in, tolerance, adaptive, given ? &roads : nullptr);
    const points got(out.begin(), out.end());
    // groups: every point takes the following ones that are within its tolerance. Where that cannot be decided, both are accepted.
    std::vector<std::vector<char>> known(p.size() + 1, std::vector<char>(got.size() + 1, 0)); // 1 possible, 2 impossible
    std::size_t largest = 0, groups = 0;
    auto fits = [&](auto &&self, std::size_t i, std::size_t k) -> bool {
        if (i == p.size() or k == got.size()) return i == p.size() and k == got.size();
        char &memo = known[i][k];
        if (memo) return memo == 1;
        memo = 2;
        const double t = adjusted(p[i], tolerance);
        std::vector<double> xs, ys;
        for (std::size_t j = i; j < p.size(); ++j) {
            const double d = j == i ? 0 : K::distance(p[i], p[j]);
            if (d > t + K::margin) break;
            xs.push_back(K::x(p[j]));
            ys.push_back(K::y(p[j]));
            const double after = j + 1 < p.size() ? K::distance(p[i], p[j + 1]) : std::numeric_limits<double>::infinity();
            if (after < t - K::margin) continue; // this must be part of the group as well
            const typename K::point m{median_of(xs), median_of(ys)};
            if (near(K::x(m), K::x(got[k]), 1e-12, 1e-12) and near(K::y(m), K::y(got[k]), 1e-12, 1e-12) and self(self, j + 1, k + 1)) {
                largest = std::max(largest, j - i + 1);
                ++groups;
                memo = 1;
                return true;
            }
        }
        return false;
    };
    if (tolerance == 0 and (mode != 2 or not adaptive or not given or roads.edges.empty())) {
        // nothing but equal points can be merged
        points want = got.size() == p.size() ? p : points{};
        if (got.size() != p.size()) for (auto &q : p) if (want.empty() or not K::same(want.back(), q)) want.push_back(q);
        require(got.size() == want.size(), "a tolerance of zero changes the track to ", K::show(got));
        for (std::size_t i = 0; i < got.size(); ++i) require(K::same(got[i], want[i]), "a tolerance of zero changes the track to ", K::show(got));
        return;
    }
    require(got.size() <= p.size(), "there are more points than before");
    require(fits(fits, 0, 0), "merging gives ", K::show(got));
    c.nontrivial(largest >= 2 and groups >= 2);
    if (largest >= 3) c.label("group of three or more");
    if (mode == 2 and adaptive) c.label("adaptive");
}

static void medians(Ctx &c) {
    Src &s = c.s;
    std::vector<double> v(s.size(1, s.chance(20) ? 80 : 12));
    for (auto &x : v) x = s.chance(50) ? static_cast<double>(s.range(0, 4)) : s.real(-3, 3);
    c.note("values");
    for (double x : v) c.note(" ", x);
    auto w = v;
    const double m = geo::median(w);
    require(near(m, median_of(v), 1e-12, 1e-12), "median ", m, " instead of ", median_of(v));
    std::vector<double> deviations;
    for (double x : v) deviations.push_back(std::abs(x - median_of(v)));
    w = v;
    const double d = geo::median_absolute_deviation(w);
    require(near(d, median_of(deviations), 1e-12, 1e-12), "median deviation ", d, " instead of ", median_of(deviations));
    c.nontrivial(v.size() >= 3);
}

void pbt::define(Suite &s) {
    s.property = "R05";
    s.add("cartesian", "tracks of up to 60 points with clusters, repeated points and returns to former places, a tolerance, which is fixed, changes from point to point, "
          "or adapts to a few roads; non-trivial: two groups, one of them of several points", 60000, 1500000, merge<Kit<MM2_CARTESIAN>>);
    s.add("geographic", "same in geographic coordinates", 15000, 300000, merge<Kit<MM2_GEOGRAPHIC>>);
    s.add("spherical", "same in spherical coordinates", 15000, 300000, merge<Kit<MM2_SPHERICAL_EQUATORIAL>>);
    s.add("medians", "up to 80 numbers; non-trivial: at least 3", 100000, 1000000, medians);
    s.assumptions = {"Points whose distance equals the tolerance up to a margin (1e-9, 0.2 m on sphere and spheroid) may be merged or not."};
}
