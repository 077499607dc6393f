// M03: preparing a track removes exactly the repeated points.
#include "matchgen.hpp"
#include "geometry/algorithm/simplify.hpp"
#include "geometry/algorithm/median_merge.hpp"
#include "types/environment/environments/single.hpp"
#include "types/environment/environments/hmm.hpp"
using namespace pbt;
using namespace mg;
using mm::matching::defect;

using Line = std::vector<P>;

static std::string show(const Line &l) {
    std::ostringstream o;
    o.precision(12);
    for (auto &p : l) o << " (" << p[0] << "," << p[1] << ")";
    return o.str();
}

template<typename L>
static Line plain(const L &l) {
    Line r;
    for (const auto &p : l) r.push_back(to_p(p));
    return r;
}

// runs of equal points anywhere, also of points that come back later
static Line repeated_points(Ctx &c, double x0, double y0, double dx, double dy) {
    Line pts;
    const std::size_t n = c.s.size(0, 12);
    while (pts.size() < n) {
        if (not pts.empty() and c.s.chance(40)) pts.push_back(pts.back());
        else if (pts.size() > 1 and c.s.chance(30)) pts.push_back(pts[c.s.below(pts.size())]);
        else pts.push_back({x0 + dx * static_cast<double>(c.s.below(4)), y0 + dy * static_cast<double>(c.s.below(4))});
    }
    return pts;
}

static Line without_repetitions(const Line &l) {
    Line r;
    for (auto &p : l) if (r.empty() or r.back() != p) r.push_back(p);
    return r;
}

template<typename S>
static void detection(Ctx &c) {
    const Line pts = repeated_points(c, S::x0, S::y0, S::dx, S::dy);
    describe(c, pts);
    auto track = make_track<S>(pts);
    auto &rich = track.rich_line;
    using rich_line_type = std::remove_reference_t<decltype(rich)>;
    using detector = mm::matching::detector<rich_line_type>;
    const bool on = not c.s.chance(25);
    if (not on) c.note(" off");
    if (c.s.flip() and rich.size() > 1) { // measures known or not before
        (void) rich.has_length();
        for (std::size_t i = 0; i + 1 < rich.size(); ++i) if (rich.has_length(i)) (void) rich.length(i);
    }
    const auto defects = detector::detect(rich, on);
    require_eq(defects.size(), pts.size(), "as many entries as points");
    std::size_t repetitions = 0;
    for (std::size_t i = 0; i < pts.size(); ++i) {
        const bool repeated = on and i > 0 and pts[i] == pts[i - 1];
        repetitions += repeated;
        require_eq(defects[i].contains(defect::equal), repeated, "repetition at point ", i);
        require_eq(defects[i].contains(defect::none), not repeated, "no defect at point ", i);
        require(not defects[i].contains(defect::forward_backward), "not asked for at point ", i);
    }
    require(plain(rich.line()) == pts, "detection changes nothing");
    detector::remove_defects(rich, defects);
    const Line want = on ? without_repetitions(pts) : pts;
    require(plain(rich.line()) == want, "removed exactly the repetitions: ", show(plain(rich.line())), " expected ", show(want));
    require_eq(rich.size(), want.size(), "size");
    const auto fresh = make_track<S>(want);
    for (std::size_t i = 0; i + 1 < want.size(); ++i) {
        require_eq(rich.has_length(i), fresh.rich_line.has_length(i), "length known ", i);
        if (rich.has_length(i)) require_close(rich.length(i), fresh.rich_line.length(i), 1e-9, 1e-9, "length ", i);
        require_eq(rich.has_azimuth(i), fresh.rich_line.has_azimuth(i), "azimuth known ", i);
        if (rich.has_azimuth(i)) require_close(rich.azimuth(i), fresh.rich_line.azimuth(i), 1e-9, 1e-9, "azimuth ", i);
    }
    for (std::size_t i = 0; i + 2 < want.size(); ++i) {
        require_eq(rich.has_direction(i), fresh.rich_line.has_direction(i), "direction known ", i);
        if (rich.has_direction(i)) require_close(rich.direction(i), fresh.rich_line.direction(i), 1e-9, 1e-9, "direction ", i);
    }
    require_eq(rich.has_length(), fresh.rich_line.has_length(), "length of all known");
    if (rich.has_length()) require_close(rich.length(), fresh.rich_line.length(), 1e-9, 1e-9, "length of all");

    // any choice of points to be removed
    auto other = make_track<S>(pts);
    std::vector<typename detector::set_type> chosen(pts.size());
    Line kept;
    for (std::size_t i = 0; i < pts.size(); ++i) {
        switch (c.s.below(4)) {
            case 0: chosen[i].emplace(defect::equal); break;
            case 1: chosen[i].emplace(defect::forward_backward); break;
            default: chosen[i].emplace(defect::none); kept.push_back(pts[i]);
        }
    }
    detector::remove_defects(other.rich_line, chosen);
    require(plain(other.rich_line.line()) == kept, "removed exactly the chosen points: ", show(plain(other.rich_line.line())), " expected ", show(kept));
    if (repetitions and repetitions + 2 <= pts.size()) c.nontrivial();
}

template<typename S, template<typename> typename Environment>
static void prepared(Ctx &c) {
    using network_type = typename S::network;
    Opt o;
    o.grid = 3;
    o.max_nodes = 6;
    o.max_ways = 3;
    o.tags = false;
    const Model m = generate<S>(c, o);
    typename S::import import;
    fill(import, m);
    network_type net;
    prepare(net, import);
    const double unit = S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0});
    const Line pts = c.s.flip() ? random_track<S>(c, m, o, 1, 6) : repeated_points(c, S::x0, S::y0, S::dx, S::dy);
    if (pts.empty()) throw Discard{};
    describe(c, m);
    describe(c, pts);
    settings st;
    st.candidate_search = c.s.pick({settings::CIRCLE, settings::NEAREST});
    st.k_nearest = 2;
    st.radius = unit;
    st.radius_lower_limit = unit / 2;
    st.radius_upper_limit = 4 * unit;
    st.filter_duplicates = not c.s.chance(30);
    st.simplify_track = c.s.chance(30);
    st.simplify_track_distance_tolerance = unit * c.s.pick({0.0, 0.3, 1.0});
    st.median_merge = c.s.chance(30);
    st.adaptive_median_merge = c.s.flip();
    st.median_merge_distance_tolerance = unit * c.s.pick({0.0, 0.3, 1.0});
    c.note(st.filter_duplicates ? " filter" : "", st.simplify_track ? " simplify" : "", st.median_merge ? " merge" : "");
    const Line filtered = st.filter_duplicates ? without_repetitions(pts) : pts;
    if (filtered.size() < pts.size() and filtered.size() > 1) c.nontrivial();

    auto expected = make_track<S>(filtered);
    if (st.simplify_track) mm::geometry::simplify_rich_line(expected.rich_line, false, st.simplify_track_distance_tolerance);
    if (st.median_merge)
        expected.rich_line = mm::geometry::median_merge(expected.rich_line.line(), st.median_merge_distance_tolerance, st.adaptive_median_merge, &net);
    const Line want = plain(expected.rich_line.line());

    mm::util::time_helper time;
    mm::matching::algorithms<network_type> algorithms{net, time};
    Environment<network_type> environment{net, algorithms, st};
    if (c.s.chance(30)) { // used before
        environment.set(make_track<S>({{S::x0, S::y0}, {S::x0, S::y0}, {S::x0 + S::dx, S::y0 + S::dy}}));
        c.note(" after another track");
    }
    environment.set(make_track<S>(pts));
    const auto &t = environment.track();
    require_eq(t.id, std::string{"t"}, "id");
    require(plain(t.rich_line.line()) == want, "prepared track: ", show(plain(t.rich_line.line())), " expected ", show(want));
    if constexpr (requires { environment.init(); }) environment.init();

    // the matching works on the prepared track
    const auto &candidates = environment.candidates();
    require_eq(candidates.size(), want.size(), "candidates for every prepared point");
    for (std::size_t i = 0; i < candidates.size(); ++i) {
        require_eq(candidates[i].index, i, "index of candidate");
        require(candidates[i].track == &t, "candidate of the prepared track");
        require(to_p(candidates[i].point()) == want[i], "place of candidate ", i);
    }
}

void pbt::define(Suite &s) {
    s.property = "M03";
    const char *r = "up to 12 points with runs of equal points and returns to earlier ones, filter on or off; non-trivial: repetitions and two further points";
    s.add("detection", r, 200000, 3000000, detection<Cartesian>);
    s.add("detection-geographic", r, 60000, 900000, detection<Geographic>);
    const char *e = "tracks on small networks prepared by the environments of both models, with and without filtering, simplifying and merging; non-trivial: repetitions are removed and two points remain";
    s.add("single", e, 60000, 900000, prepared<Cartesian, mm::environment::single>);
    s.add("hmm", e, 60000, 900000, prepared<Cartesian, mm::environment::hmm>);
    s.add("single-geographic", e, 20000, 300000, prepared<Geographic, mm::environment::single>);
    s.add("hmm-geographic", e, 20000, 300000, prepared<Geographic, mm::environment::hmm>);
    s.assumptions = {"What simplifying and merging do to the filtered track is R04's and R05's subject; here only the order of the steps and their input is judged.",
                     "Points moving back and forth are not looked for by the program and not judged, beyond removing what is flagged."};
}
