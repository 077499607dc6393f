// What track importers pass on, and files and times for them.
#ifndef VERIF_TRACKGEN_HPP
#define VERIF_TRACKGEN_HPP
#include "pbt.hpp"
#include <array>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include "types/geometry/point.hpp"
#include "types/geometry/reprojector.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "geometry/algorithm/srs_dispatch.hpp"

namespace tg {

    namespace mm = map_matching_2;
    namespace geo = mm::geometry;

    using P = std::array<double, 2>;
    using Line = std::vector<P>;
    using Lines = std::vector<Line>;

    struct Got {
        std::string id;
        Lines parts; // without the empty ones
        std::size_t cs; // alternative of the variant
        friend auto operator<=>(const Got &, const Got &) = default;
    };

    inline std::string show(const Lines &ls) {
        std::ostringstream o;
        o.precision(17);
        for (auto &l : ls) {
            o << "[";
            for (auto &p : l) o << " (" << p[0] << " " << p[1] << ")";
            o << " ]";
        }
        return o.str();
    }

    inline std::string show(const std::vector<Got> &all) {
        std::ostringstream o;
        for (auto &g : all) o << " '" << g.id << "': " << show(g.parts) << " of kind " << g.cs << ";";
        return o.str().substr(0, 1500);
    }

    struct Forwarder {
        using multi_track_variant_type = geo::track::multi_track_variant_type;
        std::vector<Got> got;

        void pass(multi_track_variant_type track) {
            Got g;
            g.cs = track.index();
            std::visit([&](auto &&t) {
                g.id = t.id;
                for (const auto &rl : t.multi_rich_line.rich_lines()) {
                    Line l;
                    for (const auto &p : rl.line()) l.push_back({boost::geometry::get<0>(p), boost::geometry::get<1>(p)});
                    if (not l.empty()) g.parts.push_back(std::move(l));
                }
            }, track);
            got.push_back(std::move(g));
        }
    };

    template<typename Point>
    std::size_t kind_of() {
        return geo::track::multi_track_variant_type{geo::track::multi_track_type<Point>{}}.index();
    }

    // the reference systems of a file and of the tracks
    struct Systems {
        geo::srs_transform tr;
        geo::point_reprojector_variant reprojector;
        bool transforms;

        // expected position and kind
        [[nodiscard]] P map(const P &p) const {
            P r{};
            geo::srs_dispatch(tr, [&]<typename A, typename B>() {
                geo::point_type<A> in{p[0], p[1]};
                geo::point_type<B> out;
                geo::reproject_point(in, out, reprojector);
                r = {boost::geometry::get<0>(out), boost::geometry::get<1>(out)};
            });
            return r;
        }
        [[nodiscard]] std::size_t kind() const {
            std::size_t k = 0;
            geo::srs_dispatch(tr, [&]<typename A, typename B>() { k = kind_of<geo::point_type<B>>(); });
            return k;
        }
    };

    inline Systems systems(pbt::Src &s) {
        const int k = static_cast<int>(s.weighted({50, 15, 15, 20}));
        const auto tr = k == 0 ? geo::compute_srs_transform(4326, "", 4326, "")
            : k == 1 ? geo::compute_srs_transform(4326, "", 3857, "")
            : k == 2 ? geo::compute_srs_transform(3857, "", 4326, "")
            : geo::compute_srs_transform(3857, "", 3857, "");
        return Systems{tr, geo::create_point_reprojector(tr), k == 1 or k == 2};
    }

    // a position with few decimals, exactly written
    inline P position(pbt::Src &s, const Systems &sys) {
        const bool metres = sys.tr.srs_type == geo::SRS::CS_CARTESIAN;
        if (s.chance(70)) return {static_cast<double>(s.around(40)), static_cast<double>(s.around(40))};
        const double d = metres ? 1000 : 1e6;
        return {static_cast<double>(s.range(-170000000, 170000000)) / d, static_cast<double>(s.range(-80000000, 80000000)) / d};
    }

    inline std::string text(double v) {
        std::ostringstream o;
        o << std::setprecision(17) << v;
        double back = 0;
        for (int p = 1; p <= 17; ++p) {
            std::ostringstream q;
            q << std::setprecision(p) << v;
            back = std::stod(q.str());
            if (back == v and q.str().find('e') == std::string::npos) return q.str();
        }
        return o.str();
    }

    // seconds since 1970 in civil notation, own computation
    struct Civil { int year, month, day, hour, minute, second; };
    inline Civil civil(std::int64_t t) {
        std::int64_t days = t / 86400, rest = t % 86400;
        Civil c{1970, 1, 1, static_cast<int>(rest / 3600), static_cast<int>(rest / 60 % 60), static_cast<int>(rest % 60)};
        const auto leap = [](int y) { return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0; };
        while (days >= (leap(c.year) ? 366 : 365)) days -= leap(c.year) ? 366 : 365, ++c.year;
        const int len[] = {31, leap(c.year) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        while (days >= len[c.month - 1]) days -= len[c.month - 1], ++c.month;
        c.day = static_cast<int>(days) + 1;
        return c;
    }
    inline std::string two(int v) { return (v < 10 ? "0" : "") + std::to_string(v); }

    // a time as text; with is 0: date and time, 1: only the date, 2: only the time
    struct TimeNotation {
        std::string format, date_format, time_format;
        int kind;
        bool zone;
    };
    inline std::string date_text(const Civil &c, int kind) {
        if (kind == 1) return two(c.day) + "." + two(c.month) + "." + std::to_string(c.year);
        if (kind == 2) return std::to_string(c.year) + "/" + two(c.month) + "/" + two(c.day);
        return std::to_string(c.year) + "-" + two(c.month) + "-" + two(c.day);
    }
    inline std::string time_text(const Civil &c) { return two(c.hour) + ":" + two(c.minute) + ":" + two(c.second); }
    inline const char *date_format(int kind) { return kind == 1 ? "%d.%m.%Y" : kind == 2 ? "%Y/%m/%d" : "%F"; }

}

#endif
