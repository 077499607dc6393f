// Tracks, settings and matchings for the checks of the matching.
#ifndef VERIF_MATCHGEN_HPP
#define VERIF_MATCHGEN_HPP
#include "netgen.hpp"
#include "matching/traits/network.hpp"
#include "matching/settings.hpp"
#include "types/matching/algorithm/detect.hpp"
#include "types/matching/algorithm/route.hpp"
#include "matching/algorithm/candidate_search.hpp"
#include "matching/algorithm/algorithms.hpp"

namespace mg {
    using namespace ng;
    using settings = mm::matching::settings;

    template<typename S> using track_t = typename mm::matching::network_traits<typename S::network>::track_type;

    template<typename S>
    track_t<S> make_track(const std::vector<P> &pts, std::string id = "t") {
        typename track_t<S>::line_type line;
        for (auto &p : pts) line.push_back({p[0], p[1]});
        return track_t<S>{std::move(id), std::move(line)};
    }

    // nearest position on a road, by its own computation in the plane
    struct Nearest { double distance{inf}; std::size_t segment{0}; P p{}; double along{0}; };
    inline Nearest nearest(const P &p, const std::vector<P> &line) {
        Nearest r;
        double along = 0;
        for (std::size_t i = 1; i < line.size(); ++i) {
            const P &a = line[i - 1], &b = line[i];
            const double dx = b[0] - a[0], dy = b[1] - a[1], q = dx * dx + dy * dy;
            const double t = q == 0 ? 0 : std::clamp(((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / q, 0.0, 1.0);
            const P x{a[0] + t * dx, a[1] + t * dy};
            const double d = std::hypot(p[0] - x[0], p[1] - x[1]);
            if (d < r.distance) r = {d, i - 1, x, along + t * std::sqrt(q)};
            along += std::sqrt(q);
        }
        return r;
    }

    // a track around the network: points on nodes, on roads, beside roads and anywhere
    template<typename S>
    std::vector<P> random_track(pbt::Ctx &c, const Model &m, const Opt &o, std::size_t lo, std::size_t hi) {
        auto &s = c.s;
        std::vector<P> pts;
        const std::size_t n = s.size(lo, hi);
        auto wobble = [&](P p) { return P{p[0] + S::dx * static_cast<double>(s.around(8)) / 8, p[1] + S::dy * static_cast<double>(s.around(8)) / 8}; };
        while (pts.size() < n) {
            P p;
            switch (s.below(5)) {
                case 0: p = m.nodes[s.below(m.nodes.size())].p; break;
                case 1: p = wobble(m.nodes[s.below(m.nodes.size())].p); break;
                case 2: case 3: {
                    if (m.roads.empty()) { p = m.nodes[0].p; break; }
                    const auto &r = m.roads[s.below(m.roads.size())];
                    const std::size_t i = s.below(r.pts.size() - 1);
                    const double t = static_cast<double>(s.below(9)) / 8;
                    p = {r.pts[i][0] + t * (r.pts[i + 1][0] - r.pts[i][0]), r.pts[i][1] + t * (r.pts[i + 1][1] - r.pts[i][1])};
                    if (s.flip()) p = wobble(p);
                    break;
                }
                default: p = {S::x0 + S::dx * static_cast<double>(s.range(-8, 4 * o.grid + 8)) / 4, S::y0 + S::dy * static_cast<double>(s.range(-8, 4 * o.grid + 8)) / 4};
            }
            pts.push_back(p);
            if (s.chance(12)) pts.push_back(p);
        }
        return pts;
    }

    inline void describe(pbt::Ctx &c, const std::vector<P> &t) {
        c.note(" track:");
        for (auto &p : t) c.note(" (", p[0], ",", p[1], ")");
    }
}
#endif
