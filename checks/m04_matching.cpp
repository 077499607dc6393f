// M04: a matched route is a drive on the network that fits the track, for all models and solvers.
#include <chrono>
#include "matchgen.hpp"
#include "types/environment/environments/single.hpp"
#include "types/environment/environments/hmm.hpp"
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
#include "learning/algorithms/q_learning.hpp"
#include "learning/algorithms/viterbi.hpp"
using namespace pbt;
using namespace mg;

using Line = std::vector<P>;
using Policy = std::vector<std::pair<std::size_t, std::size_t>>;

template<typename Route>
static std::vector<Line> parts(const Route &route) {
    std::vector<Line> all;
    for (const auto &variant : route.rich_lines()) {
        all.emplace_back();
        std::visit([&](const auto &ref) { for (const auto &p : ref.get().line()) all.back().push_back(to_p(p)); }, variant);
    }
    return all;
}

// drives: parts that follow each other without a gap are one drive
static std::vector<Line> drives(const std::vector<Line> &all) {
    std::vector<Line> r;
    for (auto &x : all) {
        if (x.empty()) continue;
        if (r.empty() or r.back().back() != x.front()) r.emplace_back();
        for (auto &p : x) if (r.back().empty() or r.back().back() != p) r.back().push_back(p);
    }
    std::erase_if(r, [](const Line &l) { return l.size() < 2; });
    return r;
}

static std::string show(const Line &l) {
    std::ostringstream o;
    o.precision(12);
    o << "[";
    for (auto &p : l) o << " (" << p[0] << "," << p[1] << ")";
    o << " ]";
    return o.str();
}
static std::string show(const std::vector<Line> &all) {
    std::string s;
    for (auto &l : all) s += show(l);
    return s;
}

// without the positions in between on a straight way on
static Line corners(const Line &l) {
    Line r;
    for (auto &p : l) {
        while (r.size() >= 2) {
            const P &a = r[r.size() - 2], &b = r.back();
            const double ux = b[0] - a[0], uy = b[1] - a[1], vx = p[0] - b[0], vy = p[1] - b[1], q = std::hypot(ux, uy) * std::hypot(vx, vy);
            if (std::abs(ux * vy - uy * vx) > 1e-7 * q or ux * vx + uy * vy < 0) break;
            r.pop_back();
        }
        r.push_back(p);
    }
    return r;
}

template<typename N> using Single = mm::environment::single<N>;
template<typename N> using Hmm = mm::environment::hmm<N>;

struct Matched {
    Policy policy;
    bool invalid;
    bool broken{false};                   // whether a leg is impossible
    std::vector<Line> route;              // the result
    std::vector<Line> legs;               // its expected parts: routes between the chosen candidates, an empty one for a break
    std::vector<P> places;                // of the chosen candidates
    std::vector<bool> node_ends;          // per leg, whether it ends at a point of the network
    std::size_t candidates, with_roads;
    bool whole;                           // whether some choice of candidates connects all positions
    std::vector<P> ends;                  // of the first and last chosen candidate
};

static void note(Ctx &c, const settings &st) {
    c.note(" model ", std::array{"policy iteration", "value iteration", "q-learning", "viterbi"}[st.model], " search ",
            std::array{"circle", "nearest", "combined", "next"}[st.candidate_search], st.skip_errors ? " skip" : "", " states ", st.state_size, st.join_merges ? " join" : "",
            st.within_edge_turns ? " turns" : "", st.a_star ? " directed" : "", " factor ", st.routing_max_distance_factor, " radius ", st.radius);
}

// what the policy means: a candidate for each position it names; a repeated entry marks a position left out, the route is interrupted there
template<typename S, typename Environment>
static void expect(Matched &r, const Environment &e, const mm::matching::router<typename S::network> &router, const typename S::network &net, const settings &st) {
    // asks the router that was used, how far it searches may depend on what it found before
    const auto &cs = e.candidates();
    r.candidates = cs.size();
    r.with_roads = 0;
    for (auto &x : cs) r.with_roads += not x.edges.empty();
    if (st.model == settings::VITERBI) {
        std::vector<bool> reached(cs.empty() ? 0 : cs.front().edges.size(), true);
        for (std::size_t i = 1; i < cs.size(); ++i) {
            std::vector<bool> next(cs[i].edges.size());
            for (std::size_t a = 0; a < reached.size(); ++a) if (reached[a])
                for (std::size_t b = 0; b < next.size(); ++b)
                    if (not next[b]) next[b] = not router.candidate_route(cs, i - 1, a, i, b, st.within_edge_turns, st.a_star, st.routing_max_distance_factor).is_invalid();
            reached = next;
        }
        r.whole = std::find(reached.begin(), reached.end(), true) != reached.end();
    }
    bool left_out = false;
    for (std::size_t i = 0; i < r.policy.size(); ++i) {
        const auto [position, edge] = r.policy[i];
        require(position < cs.size(), "the policy names position ", position, " of ", cs.size());
        require(edge < cs[position].edges.size(), "the policy names candidate ", edge, " of ", cs[position].edges.size(), " at ", position);
        r.places.push_back(to_p(cs[position].edges[edge].projection_point));
        if (i == 0) continue;
        const auto [before, edge_before] = r.policy[i - 1];
        require(before <= position, "the policy goes back from ", before, " to ", position);
        if (before == position) {
            require_eq(edge, edge_before, "candidate of a repeated position ", position);
            left_out = true;
            continue;
        }
        if (left_out) { r.legs.emplace_back(); r.node_ends.push_back(true); }
        else {
            const auto route = router.candidate_route(cs, before, edge_before, position, edge, st.within_edge_turns, st.a_star, st.routing_max_distance_factor);
            Line l;
            if (not route.is_invalid()) for (auto &x : parts(route)) for (auto &p : x) if (l.empty() or l.back() != p) l.push_back(p);
            r.broken = r.broken or route.is_invalid();
            if (route.is_invalid() or l.size() > 1) {
                if (l.size() < 2) l.clear();
                if (not l.empty()) {
                    require(l.front() == r.places[r.places.size() - 2] and l.back() == r.places.back(), "a leg does not connect its candidates: ", show(l));
                    r.node_ends.push_back(net.point_in_edges(typename track_t<S>::point_type{l.back()[0], l.back()[1]}).first);
                } else r.node_ends.push_back(true);
                r.legs.push_back(l);
            }
        }
        left_out = false;
    }
}

template<typename S, typename Learner>
static Matched match_with(const typename S::network &net, const std::vector<P> &pts, const settings &st) {
    using network_type = typename S::network;
    using Environment = typename Learner::environment_type;
    mm::util::time_helper time;
    mm::matching::algorithms<network_type> algorithms{net, time};
    Environment environment{net, algorithms, st};
    Learner learner{environment, st};
    environment.set(make_track<S>(pts));
    Matched r;
    r.policy = learner();
    const auto route = environment.result(r.policy);
    r.invalid = route.is_invalid();
    r.route = parts(route);
    expect<S>(r, environment, algorithms.router, net, st);
    // asked again with what was learned and found before
    if (st.model != settings::Q_LEARNING) {
        environment.set(make_track<S>(pts));
        const Policy again = learner();
        require(again == r.policy, "the same track gives another policy");
        require(parts(environment.result(again)) == r.route, "the same track gives another route");
    }
    return r;
}

template<typename S>
static Matched match(const typename S::network &net, const std::vector<P> &pts, const settings &st) {
    using N = typename S::network;
    switch (st.model) {
        case settings::POLICY_ITERATION: return match_with<S, mm::learning::policy_iteration<Single<N>>>(net, pts, st);
        case settings::VALUE_ITERATION: return match_with<S, mm::learning::value_iteration<Single<N>>>(net, pts, st);
        case settings::Q_LEARNING: return match_with<S, mm::learning::q_learning<Single<N>>>(net, pts, st);
        default: return match_with<S, mm::learning::viterbi<Hmm<N>>>(net, pts, st);
    }
}

template<typename S>
struct Roads {
    static constexpr bool planar = std::is_same_v<S, Cartesian>;
    const Model &r;
    std::vector<std::pair<P, P>> segs;
    double lax{0};

    explicit Roads(const Model &m) : r{m} {
        for (auto &x : r.roads) for (std::size_t k = 1; k < x.pts.size(); ++k) if (x.pts[k - 1] != x.pts[k]) segs.push_back({x.pts[k - 1], x.pts[k]});
        // turns within roads are taken between segments in opposite directions up to 1.8 degrees
        for (auto &[x, y] : segs) for (auto &[v, w] : segs) if (y == v and w != x) {
            const double ax = x[0] - y[0], ay = x[1] - y[1], bx = w[0] - v[0], by = w[1] - v[1];
            if (std::abs(std::atan2(ax * by - ay * bx, ax * bx + ay * by)) < (planar ? 0.032 : 0.06)) lax = std::max({lax, S::dist(x, y), S::dist(v, w)});
        }
    }

    double base(bool turn) const { return (planar ? 1e-6 : 0.25) + (turn ? 0.064 * lax : 0); }

    // both on the segment, in its direction
    bool covers(const std::pair<P, P> &s, const P &a, const P &b, bool turn) const {
        const auto &[x, y] = s;
        const double l = S::dist(a, b), eps = base(turn) + (planar ? 0 : 1e-2 * S::dist(x, y));
        return S::dist(x, a) + S::dist(a, y) <= S::dist(x, y) + eps and S::dist(x, b) + S::dist(b, y) <= S::dist(x, y) + eps and S::dist(x, a) + l <= S::dist(x, b) + eps;
    }

    bool on_road(const P &a, const P &b, bool turn) const {
        if (S::dist(a, b) <= base(turn)) return true;
        for (auto &s : segs) if (covers(s, a, b, turn)) return true;
        return false;
    }

    bool bend(const P &p) const {
        for (auto &[x, y] : segs) if (S::dist(x, p) <= base(false) or S::dist(y, p) <= base(false)) return true;
        return false;
    }

    // whether a road passes the place more than once, then the ways to and from a candidate there may use different passes
    bool passed_again(const P &p) const {
        for (auto &x : r.roads) {
            std::vector<std::size_t> at;
            for (std::size_t k = 1; k < x.pts.size(); ++k) if (x.pts[k - 1] != x.pts[k] and covers({x.pts[k - 1], x.pts[k]}, p, p, false)) at.push_back(k);
            for (std::size_t i = 1; i < at.size(); ++i) {
                const P &end = x.pts[at[i] - 1];
                if (S::dist(end, p) > base(false) or S::dist(x.pts[at[i - 1]], end) > base(false)) return true;
            }
            if (at.size() > 1 and at.front() == 1 and at.back() + 1 == x.pts.size() and S::dist(x.pts.front(), x.pts.back()) <= base(false)) return true;
        }
        return false;
    }

    // whether a drive may lead from one segment to the next: on the same road, at an end of road segments, or by turning at the candidate or back
    bool follow(const P &a, const P &b, const P &d, const std::vector<P> &places, bool turn) const {
        if (bend(b)) return true;
        for (auto &s : segs) if (covers(s, a, b, turn) and covers(s, b, d, turn)) return true;
        for (auto &p : places) if (S::dist(p, b) <= base(turn)) return true;
        if (turn) for (auto &s : segs) if (covers(s, a, b, turn) and covers(s, d, b, turn)) return true;
        if (turn and lax > 0) return true;
        return false;
    }
};

template<typename S>
static settings any_settings(Ctx &c, double unit) {
    auto &s = c.s;
    settings st;
    st.model = s.pick({settings::VALUE_ITERATION, settings::VITERBI, settings::POLICY_ITERATION, settings::Q_LEARNING});
    st.candidate_search = s.pick({settings::NEAREST, settings::CIRCLE, settings::COMBINED, settings::NEXT});
    st.k_nearest = st.candidate_search == settings::NEXT ? 1 : static_cast<std::size_t>(s.range(1, 4));
    st.radius = unit * s.pick({0.5, 1.0, 2.0});
    st.adaptive_radius = s.flip();
    st.radius_lower_limit = unit / 4;
    st.radius_upper_limit = unit * 2;
    st.candidate_adoption_siblings = s.flip();
    st.candidate_adoption_nearby = s.flip();
    st.candidate_adoption_reverse = s.flip();
    st.filter_duplicates = s.flip();
    st.simplify_track = s.chance(20);
    st.simplify_track_distance_tolerance = unit / 4;
    st.median_merge = s.chance(20);
    st.median_merge_distance_tolerance = unit / 4;
    st.join_merges = s.flip();
    st.within_edge_turns = s.chance(30);
    st.a_star = s.flip();
    st.skip_errors = s.chance(70);
    st.state_size = s.chance(30) ? 3 : 2;
    st.routing_max_distance_factor = s.pick({5.0, 2.0, 10.0, -1.0});
    st.episodes = 300;
    note(c, st);
    return st;
}

template<typename S>
static void matching(Ctx &c) {
    using network_type = typename S::network;
    Opt o;
    o.grid = static_cast<int>(c.s.pick({3, 6}));
    o.max_nodes = 12;
    o.max_ways = 6;
    o.coincident = c.s.chance(15);
    o.tags = false;
    const Model m = generate<S>(c, o);
    describe(c, m);
    typename S::import import;
    fill(import, m);
    network_type net;
    prepare(net, import);
    const Model read_model = read(net, "prepared");
    const double unit = S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0});
    const settings st = any_settings<S>(c, unit);
    auto pts = random_track<S>(c, m, o, 1, 6);
    if (c.s.chance(15)) for (auto &p : pts) if (c.s.flip()) p = {p[0] + 40 * S::dx, p[1]}; // out of reach
    describe(c, pts);

    const Matched r = match<S>(net, pts, st);
    require(not r.invalid or r.route.empty(), "an invalid result with a route");
    if (r.with_roads == 0) {
        require(r.route.empty(), "a route without any candidate: ", show(r.route));
        c.count("no candidates");
        return;
    }
    const Roads<S> roads{read_model};
    const auto got = drives(r.route);
    const auto want = drives(r.legs);
    std::size_t legs = 0;
    for (auto &l : r.legs) legs += not l.empty();

    c.note(" legs ", show(r.legs), " policy");
    for (auto &[x, y] : r.policy) c.note(" ", x, "/", y);
    if (st.model == settings::VITERBI and r.whole) {
        require_eq(r.policy.size(), r.candidates, "positions of a whole choice of candidates");
        for (std::size_t i = 0; i < r.policy.size(); ++i) require_eq(r.policy[i].first, i, "position of the choice");
        require(not r.broken, "an impossible way was chosen, though there is a choice without");
        c.count("whole");
    }
    const bool turn = st.within_edge_turns or st.join_merges;
    if (st.join_merges) for (auto &p : r.places) if (roads.passed_again(p)) {
        c.count("road passes its candidate again");
        return;
    }
    for (auto &d : got) {
        for (std::size_t i = 1; i < d.size(); ++i) require(roads.on_road(d[i - 1], d[i], turn), "the result leaves the roads at ", i, ": ", show(d));
        for (std::size_t i = 1; i + 1 < d.size(); ++i)
            require(roads.follow(d[i - 1], d[i], d[i + 1], r.places, turn), "the result changes roads at ", i, " away from every node and candidate: ", show(d));
    }
    // a part may only end or begin where the drive is interrupted
    bool joints = false;
    if (st.join_merges) for (std::size_t i = 0; i + 1 < r.legs.size(); ++i) joints = joints or (not r.legs[i].empty() and not r.legs[i + 1].empty() and not r.node_ends[i]);
    if (not joints) {
        require(got == want, "the result ", show(got), " is not what the chosen candidates say: ", show(want));
        c.count("as chosen");
    } else {
        // ways back and forth at candidates may be left out
        std::vector<std::pair<P, P>> asked;
        for (auto &d : want) for (std::size_t i = 1; i < d.size(); ++i) asked.push_back({d[i - 1], d[i]});
        double all = 0, less = 0;
        for (auto &d : want) all += length<S>(d);
        for (auto &d : got) {
            less += length<S>(d);
            for (std::size_t i = 1; i < d.size(); ++i) {
                for (int k = 0; k <= 8; ++k) {
                    const P p{d[i - 1][0] + (d[i][0] - d[i - 1][0]) * k / 8, d[i - 1][1] + (d[i][1] - d[i - 1][1]) * k / 8};
                    bool found = false;
                    for (auto &s : asked) found = found or roads.covers(s, p, p, true);
                    require(found, "the result drives where the chosen candidates do not, at ", i, ": ", show(d), ", chosen ", show(want));
                }
            }
        }
        require(less <= all * (1 + 1e-9) + roads.base(true) * static_cast<double>(2 + asked.size()), "the result is longer than what the chosen candidates say: ", less, " instead of ", all);
        require(got.size() <= want.size(), "joining splits the result: ", show(got), " instead of ", show(want));
        // only positions where the drive goes straight on are left out, not those where it turns back
        if constexpr (Roads<S>::planar) {
            const auto bends = [](const std::vector<Line> &all) { std::vector<Line> b; for (auto &l : all) b.push_back(corners(l)); return b; };
            const auto a = bends(got), b = bends(want);
            bool same = a.size() == b.size();
            for (std::size_t i = 0; same and i < a.size(); ++i) {
                same = a[i].size() == b[i].size();
                for (std::size_t k = 0; same and k < a[i].size(); ++k) same = S::dist(a[i][k], b[i][k]) <= roads.base(false);
            }
            require(same, "the joined result ", show(got), " is not the way the chosen candidates say: ", show(want));
        }
        if (less < all - roads.base(true) * 4) c.count("joined"); else c.count("nothing to join");
    }
    c.nontrivial(legs >= 2);
    c.count(std::array{"policy iteration", "value iteration", "q-learning", "viterbi"}[st.model]);
}

// a drive on the network recorded exactly, at every bend, is found again: nothing fits better
template<typename S>
static void found_again(Ctx &c) {
    using network_type = typename S::network;
    auto &s = c.s;
    Opt o;
    o.grid = static_cast<int>(s.pick({4, 6}));
    o.max_nodes = 12;
    o.max_ways = 7;
    o.tags = false;
    const Model m = generate<S>(c, o);
    describe(c, m);
    typename S::import import;
    fill(import, m);
    network_type net;
    prepare(net, import);
    const Model r = read(net, "prepared");
    if (r.roads.empty()) throw Discard{};
    const double unit = S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0});

    Line pts;
    auto add = [&](const P &p) {
        if (not pts.empty() and pts.back() == p) return;
        // further positions only in the plane, where they lie on the road
        if constexpr (std::is_same_v<S, Cartesian>) if (not pts.empty() and s.chance(25)) pts.push_back({(pts.back()[0] + p[0]) / 2, (pts.back()[1] + p[1]) / 2});
        pts.push_back(p);
    };
    std::size_t road = s.below(r.roads.size());
    const std::size_t length = s.size(1, 4);
    const std::size_t first = s.below(r.roads[road].pts.size() - 1);
    for (std::size_t i = 0; i < length; ++i) {
        const auto &x = r.roads[road];
        const std::size_t last = i + 1 == length and s.flip() ? (i == 0 ? first : 0) + 1 + s.below(x.pts.size() - 1 - (i == 0 ? first : 0)) : x.pts.size() - 1;
        for (std::size_t k = i == 0 ? first : 0; k <= last; ++k) add(x.pts[k]);
        std::vector<std::size_t> on;
        for (std::size_t k = 0; k < r.roads.size(); ++k) if (r.roads[k].s == x.t) on.push_back(k);
        if (on.empty() or last + 1 != x.pts.size()) break;
        road = s.pick(on);
    }
    if (pts.size() < 2) throw Discard{};
    const Roads<S> roads{r};
    for (auto &p : pts) if (roads.passed_again(p)) throw Discard{};

    settings st = any_settings<S>(c, unit);
    if (st.model == settings::Q_LEARNING) st.model = s.pick({settings::VALUE_ITERATION, settings::VITERBI, settings::POLICY_ITERATION});
    if (st.candidate_search == settings::NEXT) st.candidate_search = settings::CIRCLE;
    st.k_nearest = 400;
    st.radius = unit * (s.flip() ? 0.5 : 1.0);
    // the number of states grows with the number of candidates
    if (pts.size() > 5 or m.roads.size() > 10) st.state_size = 2;
    if (st.state_size == 3) {
        st.candidate_search = settings::CIRCLE;
        st.radius = unit / 4;
    }
    if (st.candidate_search == settings::NEAREST) st.k_nearest = 40;
    // with more of the past in a state, driving back is rated lower by design
    for (std::size_t i = 2; i < pts.size(); ++i) {
        const double ux = pts[i - 1][0] - pts[i - 2][0], uy = pts[i - 1][1] - pts[i - 2][1], vx = pts[i][0] - pts[i - 1][0], vy = pts[i][1] - pts[i - 1][1];
        if (ux * vx + uy * vy < 0 and std::abs(ux * vy - uy * vx) < 0.1 * std::hypot(ux, uy) * std::hypot(vx, vy)) st.state_size = 2;
    }
    st.simplify_track = st.median_merge = false;
    if (st.routing_max_distance_factor > 0) st.routing_max_distance_factor = 10;
    note(c, st);
    describe(c, pts);

    const Matched got = match<S>(net, pts, st);
    Line all;
    bool one = true;
    for (auto &d : drives(got.route)) {
        one = one and all.empty();
        for (auto &p : d) all.push_back(p);
    }
    c.note(" legs ", show(got.legs), " policy");
    for (auto &[x, y] : got.policy) c.note(" ", x, "/", y);
    require(one, "the drive was broken up: ", show(drives(got.route)));
    const Line a = corners(all), b = corners(pts);
    bool same = a.size() == b.size();
    for (std::size_t i = 0; same and i < a.size(); ++i) same = S::dist(a[i], b[i]) <= roads.base(false);
    require(same, "the drive ", show(b), " was not found again but ", show(a));
    c.nontrivial(b.size() > 2);
    c.count(std::array{"policy iteration", "value iteration", "q-learning", "viterbi"}[st.model]);
}

// beside one of several equal roads, the nearest one is driven
static void nearer(Ctx &c) {
    using S = Cartesian;
    using network_type = typename S::network;
    auto &s = c.s;
    Model m;
    const int roads = static_cast<int>(s.range(2, 4)), parts = static_cast<int>(s.range(1, 4)), steps = static_cast<int>(s.range(1, 3));
    const bool both = s.flip(), linked = s.flip(), tall = s.flip(), mirrored = s.flip();
    const double gap = 20, part = 300; // giving up on a position must be worse than being beside the road
    const auto at = [&](double along, double aside) -> P {
        if (mirrored) along = -along;
        return tall ? P{aside, along} : P{along, aside};
    };
    auto node = [&](double along, double aside) {
        m.nodes.push_back({100 + m.nodes.size(), at(along, aside), {}});
        return static_cast<int>(m.nodes.size()) - 1;
    };
    auto road = [&](int a, int b, std::uint64_t id, bool back) {
        m.roads.push_back({a, b, id, {m.nodes[a].p, m.nodes[b].p}});
        if (back) m.roads.push_back({b, a, id, {m.nodes[b].p, m.nodes[a].p}});
    };
    std::vector<std::vector<int>> nodes(roads);
    for (int r = 0; r < roads; ++r) for (int k = -1; k <= parts + 1; ++k) nodes[r].push_back(node(k * part, r * gap));
    for (int r = 0; r < roads; ++r) for (std::size_t k = 1; k < nodes[r].size(); ++k) road(nodes[r][k - 1], nodes[r][k], 1 + static_cast<std::uint64_t>(r), both);
    if (linked) for (int r = 1; r < roads; ++r) {
        road(nodes[r - 1].front(), nodes[r].front(), 10, true);
        road(nodes[r - 1].back(), nodes[r].back(), 11, true);
    }
    describe(c, m);
    typename S::import import;
    fill(import, m);
    network_type net;
    prepare(net, import);
    const int mine = static_cast<int>(s.below(static_cast<std::uint64_t>(roads)));
    Line pts;
    const bool same_side = s.flip();
    const double side = static_cast<double>(s.around(7));
    double lo = inf, hi = -inf;
    for (int k = 0; k <= parts * steps; ++k) {
        const double along = k * part / steps, aside = mine * gap + (same_side ? side : static_cast<double>(s.around(7)));
        lo = std::min(lo, along), hi = std::max(hi, along);
        pts.push_back(at(along, aside));
    }
    settings st = any_settings<S>(c, gap);
    if (st.model == settings::Q_LEARNING) st.model = s.pick({settings::VALUE_ITERATION, settings::VITERBI, settings::POLICY_ITERATION});
    st.candidate_search = s.flip() ? settings::CIRCLE : settings::NEAREST;
    st.k_nearest = 40;
    st.radius = gap * s.pick({1.0, 2.0});
    st.adaptive_radius = false;
    st.simplify_track = st.median_merge = false;
    st.state_size = pts.size() <= 4 and s.flip() ? 3 : 2;
    note(c, st);
    describe(c, pts);
    const Matched got = match<S>(net, pts, st);
    c.note(" legs ", show(got.legs), " policy");
    for (auto &[x, y] : got.policy) c.note(" ", x, "/", y);
    const auto ds = drives(got.route);
    require(ds.size() == 1, "the drive was broken up: ", show(ds));
    const Line a = corners(ds.front()), b{at(lo, mine * gap), at(hi, mine * gap)};
    require(a.size() == 2 and S::dist(a[0], b[0]) < 1e-6 and S::dist(a[1], b[1]) < 1e-6, "the drive is ", show(a), ", not ", show(b));
    c.nontrivial(not same_side or side != 0);
    c.count(std::array{"policy iteration", "value iteration", "q-learning", "viterbi"}[st.model]);
}

void pbt::define(Suite &s) {
    s.property = "M04";
    const char *m = "networks of up to 12 nodes, tracks of up to 6 points or more, on, beside and far from roads, any settings, four solvers; non-trivial: two legs";
    s.add("matching", m, 50000, 400000, matching<Cartesian>);
    s.add("matching-geographic", m, 12000, 80000, matching<Geographic>);
    const char *f = "a drive over up to four roads of a network, recorded at every bend; non-trivial: it bends";
    s.add("nearer", "two to four parallel roads, linked or not, and a track beside one of them; non-trivial: it is not exactly on the road", 1500, 20000, nearer);
    s.add("found-again", f, 36000, 240000, found_again<Cartesian>);
    s.add("found-again-geographic", f, 9000, 60000, found_again<Geographic>);
}
