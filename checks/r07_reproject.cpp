// R07: choosing and applying transformations between spatial reference systems.
#include <array>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

#include "geometry/srs.hpp"
#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/models.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "geometry/algorithm/srs_dispatch.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/geometry/network/node.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
namespace geo = map_matching_2::geometry;
using namespace pbt;
using geo::SRS;

static constexpr double RAD = M_PI / 180;

// ---------------------------------------------------------------- independent projections
struct Ellipsoid { double a, f; };
static constexpr Ellipsoid WGS84{6378137, 1 / 298.257223563}, GRS80{6378137, 1 / 298.257222101};
using XY = std::array<double, 2>;

static XY web_mercator(double lon, double lat) {
    return {6378137 * lon * RAD, 6378137 * std::asinh(std::tan(lat * RAD))};
}

static XY mercator(const Ellipsoid &el, double lon, double lat) {
    const double e = std::sqrt(el.f * (2 - el.f)), p = lat * RAD;
    return {el.a * lon * RAD, el.a * (std::asinh(std::tan(p)) - e * std::atanh(e * std::sin(p)))};
}

// Krueger's series (Karney 2011) to sixth order
static XY utm(const Ellipsoid &el, int zone, bool south, double lon, double lat) {
    const double n = el.f / (2 - el.f), n2 = n * n, n3 = n2 * n, n4 = n3 * n, n5 = n4 * n, n6 = n5 * n;
    const double A = el.a / (1 + n) * (1 + n2 / 4 + n4 / 64 + n6 / 256);
    const double al[6] = {
        n / 2 - 2 * n2 / 3 + 5 * n3 / 16 + 41 * n4 / 180 - 127 * n5 / 288 + 7891 * n6 / 37800,
        13 * n2 / 48 - 3 * n3 / 5 + 557 * n4 / 1440 + 281 * n5 / 630 - 1983433 * n6 / 1935360,
        61 * n3 / 240 - 103 * n4 / 140 + 15061 * n5 / 26880 + 167603 * n6 / 181440,
        49561 * n4 / 161280 - 179 * n5 / 168 + 6601661 * n6 / 7257600,
        34729 * n5 / 80640 - 3418889 * n6 / 1995840, 212378941 * n6 / 319334400};
    const double e = std::sqrt(el.f * (2 - el.f));
    const double l = std::remainder(lon - (zone * 6 - 183), 360) * RAD, p = lat * RAD;
    const double psi = std::asinh(std::tan(p)) - e * std::atanh(e * std::sin(p));
    const double xi = std::atan2(std::sinh(psi), std::cos(l)), eta = std::atanh(std::sin(l) / std::cosh(psi));
    double x = eta, y = xi;
    for (int j = 1; j <= 6; ++j) {
        x += al[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
        y += al[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
    }
    return {500000 + 0.9996 * A * x, (south ? 10000000 : 0) + 0.9996 * A * y};
}

static XY laea(const Ellipsoid &el, double lon0, double lat0, double fe, double fn, double lon, double lat) {
    const double e2 = el.f * (2 - el.f), e = std::sqrt(e2);
    auto q = [&](double p) {
        const double s = std::sin(p);
        return (1 - e2) * (s / (1 - e2 * s * s) + std::atanh(e * s) / e);
    };
    const double qp = q(M_PI / 2), b0 = std::asin(q(lat0 * RAD) / qp), b = std::asin(q(lat * RAD) / qp);
    const double Rq = el.a * std::sqrt(qp / 2), l = (lon - lon0) * RAD;
    const double s0 = std::sin(lat0 * RAD), D = el.a * std::cos(lat0 * RAD) / std::sqrt(1 - e2 * s0 * s0) / (Rq * std::cos(b0));
    const double B = Rq * std::sqrt(2 / (1 + std::sin(b0) * std::sin(b) + std::cos(b0) * std::cos(b) * std::cos(l)));
    return {fe + B * D * std::cos(b) * std::sin(l), fn + B / D * (std::cos(b0) * std::sin(b) - std::sin(b0) * std::cos(b) * std::cos(l))};
}

static XY lcc(const Ellipsoid &el, double lon0, double lat0, double lat1, double lat2, double fe, double fn, double lon, double lat) {
    const double e = std::sqrt(el.f * (2 - el.f));
    auto m = [&](double p) { return std::cos(p) / std::sqrt(1 - e * e * std::sin(p) * std::sin(p)); };
    auto t = [&](double p) { return std::exp(-(std::asinh(std::tan(p)) - e * std::atanh(e * std::sin(p)))); };
    const double m1 = m(lat1 * RAD), m2 = m(lat2 * RAD), t1 = t(lat1 * RAD), t2 = t(lat2 * RAD);
    const double n = std::log(m1 / m2) / std::log(t1 / t2), F = m1 / (n * std::pow(t1, n));
    const double r = el.a * F * std::pow(t(lat * RAD), n), r0 = el.a * F * std::pow(t(lat0 * RAD), n);
    const double th = n * (lon - lon0) * RAD;
    return {fe + r * std::sin(th), fn + r0 - r * std::cos(th)};
}

struct System {
    int code;
    bool geographic;
    double lon0, lon1, lat0, lat1; // where it is meant to be used
    std::function<XY(double, double)> to; // from degrees
};

static System utm_system(Src &s, int zone, bool south, bool etrs) {
    const double mid = zone * 6 - 183;
    (void) s;
    if (etrs) return {25800 + zone, false, mid - 3.5, mid + 3.5, 0.5, 84, [zone](double x, double y) { return utm(GRS80, zone, false, x, y); }};
    return {(south ? 32700 : 32600) + zone, false, std::max(-180., mid - 3.5), std::min(180., mid + 3.5), south ? -80. : 0., south ? 0. : 84.,
        [zone, south](double x, double y) { return utm(WGS84, zone, south, x, y); }};
}

static System system(Src &s) {
    auto same = [](double x, double y) { return XY{x, y}; };
    switch (s.below(9)) {
        case 0: return {4326, true, -180, 180, -85, 85, same};
        case 1: return {4258, true, -16, 40, 33, 84, same};
        case 2: return {4269, true, -172, -47, 24, 84, same};
        case 3: return {3857, false, -180, 180, -85, 85, web_mercator};
        case 4: return {3395, false, -180, 180, -80, 84, [](double x, double y) { return mercator(WGS84, x, y); }};
        case 5: return utm_system(s, int(s.range(1, 60)), s.chance(40), false);
        case 6: return utm_system(s, int(s.range(28, 37)), false, true);
        case 7: return {3035, false, -16, 40, 33, 71, [](double x, double y) { return laea(GRS80, 10, 52, 4321000, 3210000, x, y); }};
        default: return {2154, false, -9, 10, 41, 52, [](double x, double y) { return lcc(GRS80, 3, 46.5, 49, 44, 700000, 6600000, x, y); }};
    }
}

template<typename CS> using P = geo::point_type<CS>;
template<typename CS> constexpr bool is_cartesian = std::same_as<CS, geo::cs_cartesian>;

// coordinates in metres of the surface, so that degrees and metres are judged alike
static double off(bool geographic, const XY &a, const XY &b, double lat) {
    double dx = a[0] - b[0], dy = a[1] - b[1];
    if (geographic) {
        dx = std::remainder(dx, 360) * 111320 * std::cos(lat * RAD);
        dy *= 111320;
    }
    return std::hypot(dx, dy);
}

template<typename PT>
static XY xy(const PT &p) { return {boost::geometry::get<0>(p), boost::geometry::get<1>(p)}; }

static std::string type_name(SRS t) {
    return t == SRS::CS_GEOGRAPHIC ? "geographic" : t == SRS::CS_CARTESIAN ? "cartesian" : t == SRS::CS_SPHERICAL_EQUATORIAL ? "spherical-equatorial" : "";
}

static void fill_types(Src &s, const System &sys, std::string &type) {
    type = "";
    if (sys.geographic) {
        const auto k = s.below(3);
        type = k == 0 ? "" : k == 1 ? "geographic" : "spherical-equatorial";
    } else if (s.flip()) type = "cartesian";
}

static bool inside(const System &a, double lon, double lat) { return lon >= a.lon0 && lon <= a.lon1 && lat >= a.lat0 && lat <= a.lat1; }

// a coordinate value both systems are meant for
static std::pair<double, double> place(Src &s, const System &a, const System &b) {
    const double l0 = std::max(a.lon0, b.lon0), l1 = std::min(a.lon1, b.lon1), p0 = std::max(a.lat0, b.lat0), p1 = std::min(a.lat1, b.lat1);
    if (l0 >= l1 || p0 >= p1) throw Discard{};
    const double eps = 1e-7;
    auto at = [&](double x0, double x1) {
        switch (s.below(6)) {
            case 0: return x0 + eps;
            case 1: return x1 - eps;
            case 2: return std::clamp(0., x0 + eps, x1 - eps);
            default: return x0 + eps + (x1 - x0 - 2 * eps) * s.unit();
        }
    };
    return {at(l0, l1), at(p0, p1)};
}

static double tolerance(double lat) { return 0.005 / std::cos(lat * RAD); } // metres in the plane

static void reproject(Ctx &c) {
    Src &s = c.s;
    const System a = system(s), b = s.chance(10) ? a : system(s);
    std::string at, bt;
    fill_types(s, a, at);
    fill_types(s, b, bt);
    const geo::srs_transform tr = geo::compute_srs_transform(a.code, at, b.code, bt);
    const geo::srs_transform back = geo::compute_srs_transform(b.code, type_name(tr.transform_srs_type), a.code, type_name(tr.srs_type));
    c.note("from", std::to_string(a.code) + " " + at);
    c.note("to", std::to_string(b.code) + " " + bt);
    c.label(a.geographic ? (b.geographic ? "degrees to degrees" : "degrees to metres") : b.geographic ? "metres to degrees" : "metres to metres");
    c.label(tr.transform ? "transformed" : "unchanged");
    require_eq(tr.srs_type == SRS::CS_CARTESIAN, !a.geographic, "kind of the source");
    require_eq(tr.transform_srs_type == SRS::CS_CARTESIAN, !b.geographic, "kind of the target");

    std::vector<std::vector<std::pair<double, double>>> places(1 + s.below(4));
    size_t total = 0;
    for (auto &part : places) {
        const auto n = s.chance(15) ? 0 : 1 + s.below(6);
        for (size_t i = 0; i < n; ++i) part.push_back(place(s, a, b));
        total += n;
    }
    if (tr.transform && total > 1) c.nontrivial();

    const auto rep = geo::create_point_reprojector(tr);
    const auto rep_back = geo::create_point_reprojector(back);
    geo::srs_dispatch(tr, [&]<typename A, typename B>() {
        using PA = P<A>;
        using PB = P<B>;
        using LA = geo::linestring_type<PA>;
        using LB = geo::linestring_type<PB>;
        geo::multi_linestring_type<LA> in;
        for (const auto &part : places) {
            LA line;
            for (const auto &[lon, lat] : part) {
                const XY v = a.to(lon, lat);
                line.emplace_back(PA{v[0], v[1]});
            }
            in.emplace_back(std::move(line));
        }
        const auto before = in;
        auto same_point = [](const auto &x, const auto &y) { return xy(x) == xy(y); };

        auto judge = [&](const auto &p, size_t i, size_t j, const std::string &what) {
            const auto [lon, lat] = places[i][j];
            const XY want = b.to(lon, lat), got = xy(p);
            require(std::isfinite(got[0]) && std::isfinite(got[1]), what + ": finite coordinates");
            if (!tr.transform) {
                require(got == xy(before[i][j]), what + ": unchanged without a transformation");
                return;
            }
            const double d = off(b.geographic, got, want, lat);
            if (!(d < tolerance(lat))) fail(what + ": " + std::to_string(d) + " m off, got " + std::to_string(got[0]) + " " + std::to_string(got[1]) + " want " + std::to_string(want[0]) + " " + std::to_string(want[1]));
        };

        geo::multi_linestring_type<LB> out;
        geo::reproject_multi_line(in, out, rep);
        require_eq(out.size(), in.size(), "parts");
        for (size_t i = 0; i < in.size(); ++i) {
            require_eq(out[i].size(), in[i].size(), "points of a part");
            for (size_t j = 0; j < in[i].size(); ++j) judge(out[i][j], i, j, "multi-line");
            LB line;
            geo::reproject_line(in[i], line, rep);
            require_eq(line.size(), in[i].size(), "points of a line");
            for (size_t j = 0; j < in[i].size(); ++j) {
                require(same_point(line[j], out[i][j]), "line and multi-line agree");
                PB p;
                geo::reproject_point(in[i][j], p, rep);
                require(same_point(p, out[i][j]), "point and multi-line agree");
                require(same_point(in[i][j], before[i][j]), "source kept");
            }
        }

        geo::multi_linestring_type<LA> again;
        geo::reproject_multi_line(out, again, rep_back);
        require_eq(again.size(), in.size(), "parts after the way back");
        for (size_t i = 0; i < in.size(); ++i) {
            require_eq(again[i].size(), in[i].size(), "points after the way back");
            for (size_t j = 0; j < in[i].size(); ++j) {
                const double d = off(a.geographic, xy(again[i][j]), xy(in[i][j]), places[i][j].second);
                if (!(d < tolerance(places[i][j].second))) fail("way back: " + std::to_string(d) + " m off");
            }
        }

        // the places where data enter the program
        const auto node_id = s.below(1000);
        for (size_t i = 0; i < in.size(); ++i)
            for (size_t j = 0; j < in[i].size(); ++j) {
                const geo::network::node_type<PB> node{node_id, in[i][j], rep};
                require_eq(node.id, node_id, "node id");
                require(same_point(node.point, out[i][j]), "node at the transformed place");
            }
        auto parts = in;
        auto filled = out;
        std::erase_if(parts, [](const auto &l) { return l.empty(); });
        std::erase_if(filled, [](const auto &l) { return l.empty(); });
        const geo::track::multi_track_type<PB> track{"t", parts, rep};
        require_eq(track.id, std::string{"t"}, "track id");
        const auto &ml = track.multi_rich_line.multi_line();
        if (!in.front().empty()) {
            const geo::track::multi_track_type<PB> one{"o", in.front(), rep};
            const auto &ol = one.multi_rich_line.multi_line();
            require_eq(ol.size(), size_t{1}, "parts of a track of one line");
            require_eq(ol.front().size(), out.front().size(), "points of a track of one line");
            for (size_t j = 0; j < ol.front().size(); ++j) require(same_point(ol.front()[j], out.front()[j]), "track of one line at the transformed place");
        }
        require_eq(ml.size(), filled.size(), "parts of the track");
        for (size_t i = 0; i < filled.size(); ++i) {
            require_eq(ml[i].size(), filled[i].size(), "points of the track");
            for (size_t j = 0; j < filled[i].size(); ++j) require(same_point(ml[i][j], filled[i][j]), "track at the transformed place");
        }
    });
}

// ---------------------------------------------------------------- choosing the transformation
static SRS named(const std::string &t) {
    return t == "geographic" ? SRS::CS_GEOGRAPHIC : t == "cartesian" ? SRS::CS_CARTESIAN : t == "spherical-equatorial" ? SRS::CS_SPHERICAL_EQUATORIAL : SRS::CS_INVALID;
}

struct Code { int code; bool geographic; };
static const std::vector<Code> CODES{{4326, true}, {4258, true}, {4269, true}, {3857, false}, {32632, false}, {32733, false}, {25832, false}, {3035, false}, {2154, false}, {3395, false}};
static const std::vector<std::string> TYPES{"", "geographic", "spherical-equatorial", "cartesian"};

static SRS kind(const Code &c, const std::string &t) {
    if (const SRS n = named(t); n != SRS::CS_INVALID) return n;
    return c.geographic ? SRS::CS_GEOGRAPHIC : SRS::CS_CARTESIAN;
}

static void selection(Ctx &c) {
    Src &s = c.s;
    const Code a = s.pick(CODES);
    const std::string at = s.pick(TYPES), bt = s.pick(TYPES);
    const bool given = s.chance(60);
    const Code b = given ? s.pick(CODES) : Code{-1 - int(s.below(3)), false};
    c.note("from", std::to_string(a.code) + " " + at);
    c.note("to", std::to_string(b.code) + " " + bt);
    if (given || !bt.empty()) c.nontrivial();

    const geo::srs base = geo::compute_srs(a.code, at);
    require_eq(base.srs_code, a.code, "code of the source");
    require(base.srs_type == kind(a, at), "kind of the source");
    require_eq(int(base.proj.code), a.code, "projection of the source");
    const int bad = -1 - int(s.below(5));
    bool thrown = false;
    const std::string other = s.pick(std::vector<std::string>{"something", "Cartesian", "geographic ", "spherical"});
    try { (void) geo::compute_srs(a.code, other); } catch (const std::invalid_argument &) { thrown = true; }
    require(thrown, "a kind of that name is refused: ", other);
    thrown = false;
    try { (void) geo::compute_srs_transform(a.code, at, b.code, other); } catch (const std::invalid_argument &) { thrown = true; }
    require(thrown, "a target kind of that name is refused: ", other);
    thrown = false;
    try { (void) geo::compute_srs(bad, at); } catch (const std::invalid_argument &) { thrown = true; }
    require(thrown, "a negative source code is refused");
    thrown = false;
    try { (void) geo::compute_srs_transform(bad, at, b.code, bt); } catch (const std::invalid_argument &) { thrown = true; }
    require(thrown, "a negative source code is refused with a target");

    const geo::srs_transform tr = geo::compute_srs_transform(a.code, at, b.code, bt);
    require_eq(tr.srs_code, a.code, "source code of the transformation");
    require(tr.srs_type == base.srs_type, "source kind of the transformation");
    int code;
    SRS type;
    if (given) {
        code = b.code;
        type = kind(b, bt);
    } else if (const SRS n = named(bt); n != SRS::CS_INVALID) {
        type = n;
        code = n == SRS::CS_GEOGRAPHIC ? 4326 : n == SRS::CS_CARTESIAN ? 3857 : a.code;
    } else {
        type = base.srs_type;
        code = a.code;
    }
    require_eq(tr.transform_srs_code, code, "target code");
    require(tr.transform_srs_type == type, "target kind is " + geo::to_string(tr.transform_srs_type) + ", expected " + geo::to_string(type));
    require_eq(int(tr.transform_proj.code), code, "target projection");
    require_eq(int(tr.proj.code), a.code, "source projection");
    require_eq(tr.transform, !(code == a.code && type == base.srs_type), "transforming");
    c.label(tr.transform ? "transforming" : "not transforming");

    // a following transformation starts from where the first one ended
    const Code n = s.pick(CODES);
    const SRS nt = n.geographic ? (s.chance(30) ? SRS::CS_SPHERICAL_EQUATORIAL : SRS::CS_GEOGRAPHIC) : SRS::CS_CARTESIAN;
    c.note("then", std::to_string(n.code) + " " + type_name(nt));
    const geo::srs_transform next = geo::compute_next_srs_transform(tr, n.code, nt);
    require_eq(next.srs_code, code, "the following transformation starts with the first one's target code");
    require(next.srs_type == type, "the following transformation starts with the first one's target kind");
    require_eq(next.transform_srs_code, n.code, "target of the following transformation");
    require(next.transform_srs_type == nt, "target kind of the following transformation");
    require_eq(next.transform, !(code == n.code && type == nt), "the following transformation transforms");

    // the kind of point each end gets
    geo::srs_dispatch(tr, [&]<typename A, typename B>() {
        auto is = []<typename CS>(SRS t) {
            return std::same_as<CS, geo::cs_geographic> ? t == SRS::CS_GEOGRAPHIC : std::same_as<CS, geo::cs_cartesian> ? t == SRS::CS_CARTESIAN : t == SRS::CS_SPHERICAL_EQUATORIAL;
        };
        require(is.template operator()<A>(tr.srs_type) && is.template operator()<B>(tr.transform_srs_type), "coordinate systems dispatched");
    });
}

void pbt::define(Suite &s) {
    s.property = "R07";
    s.add("reproject", "up to 4 lines of up to 6 points within the area of use of two systems out of 3 geographic ones, two Mercator projections, UTM (WGS84 and ETRS89), LAEA "
          "and Lambert conformal conic; non-trivial: a transformation takes place on at least two points", 400000, 6000000, reproject);
    s.add("selection", "codes and kinds given or not for the source, the target, and a following target; non-trivial: a target is asked for", 40000, 400000, selection);
    s.assumptions = {"WGS84, ETRS89 and NAD83 are taken to coincide, as in the EPSG parameters Boost uses; 5 mm on the ground are accepted.",
                     "Codes are combined with kinds of coordinates that fit when coordinates are transformed; the selection is checked for all combinations."};
}
