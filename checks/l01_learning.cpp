// L01: the learning algorithms return an optimal policy.
#include <chrono>
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <numeric>
#include <string>
#include <tuple>
#include <vector>
#include <algorithm>
#include <cassert>

#include <boost/unordered/unordered_flat_set.hpp>

#include "matching/settings.hpp"
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
#include "learning/algorithms/q_learning.hpp"
#include "learning/algorithms/viterbi.hpp"
#include "pbt.hpp"

namespace mm = map_matching_2;
using namespace pbt;

using Internal = std::vector<std::int64_t>; // position, choice, position, ...
using Policy = std::vector<std::pair<std::size_t, std::size_t>>;

enum Kind { NORMAL, SKIP, FAIL };
struct Outcome { Kind kind; double reward; };

// A decision process of the shape of map matching: positions with choices, a memory of one or two former choices,
// choices that lead to forgetting the oldest former choice (skip), and choices that end it.
struct Process {
    std::vector<std::size_t> choices; // per position
    std::size_t memory;               // size of a full state: 1, 3 or 5
    std::uint64_t salt;
    std::vector<double> values;       // rewards to draw from
    int skips, fails;                 // percentages

    static std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 29);
    }
    [[nodiscard]] Outcome outcome(const Internal &s, std::int64_t action) const {
        if (action < 0) return {NORMAL, 0};
        std::uint64_t h = salt;
        for (auto v : s) h = mix(h, static_cast<std::uint64_t>(v));
        h = mix(h, static_cast<std::uint64_t>(action));
        const double r = values[(h >> 8) % values.size()];
        const bool known = s.size() >= 3 and s[s.size() - 2] >= 0;
        const int dice = static_cast<int>((h >> 33) % 100);
        if (known and dice < skips) return {SKIP, r};
        if (known and dice < skips + fails) return {FAIL, r};
        return {NORMAL, r};
    }
    [[nodiscard]] Internal next(const Internal &s, std::int64_t action, Kind kind) const {
        Internal n = s;
        if (kind == SKIP) n.erase(n.begin(), n.begin() + 2);
        else if (kind == FAIL) n.back() = static_cast<std::int64_t>(choices.size());
        else {
            if (n.size() >= memory) n.erase(n.begin(), n.begin() + 2);
            if (memory == 1) n.clear();
            n.push_back(action);
            n.push_back(s.back() + 1);
            if (memory == 1) n.erase(n.begin());
        }
        return n;
    }
    [[nodiscard]] bool done(const Internal &s) const { return s.back() >= static_cast<std::int64_t>(choices.size()); }
    [[nodiscard]] std::vector<std::int64_t> actions(const Internal &s) const {
        std::vector<std::int64_t> a;
        if (s.back() < static_cast<std::int64_t>(choices.size())) for (std::size_t i = 0; i < choices[s.back()]; ++i) a.push_back(static_cast<std::int64_t>(i));
        if (a.empty()) a.push_back(-1);
        return a;
    }
};

struct Environment {
    using state_type = std::size_t;
    using action_type = std::size_t;
    using reward_type = double;
    using reward_tuple = std::tuple<state_type, action_type, reward_type, bool>;

    const Process &p;
    std::vector<Internal> states;
    std::map<Internal, state_type> index;
    state_type state{};
    bool intelligent_action{false};
    const std::size_t special_actions{2};
    long calls_until_abort{-1};
    std::size_t inits{0};
    std::vector<int> dummy;

    explicit Environment(const Process &process) : p{process} {}
    state_type number(const Internal &s) {
        auto [it, fresh] = index.emplace(s, states.size());
        if (fresh) states.push_back(s);
        return it->second;
    }
    void init() { states.clear(); index.clear(); ++inits; dummy.resize(p.choices.size()); }
    bool abort() { return calls_until_abort >= 0 and calls_until_abort-- == 0 ? (calls_until_abort = 0, true) : false; }
    state_type reset() { return state = number({0}); }
    std::vector<action_type> actions() {
        std::vector<action_type> r;
        for (auto a : p.actions(states.at(state))) r.push_back(a < 0 ? 0 : static_cast<std::size_t>(a) + special_actions);
        return r;
    }
    reward_tuple step(action_type action) {
        const Internal s = states.at(state);
        const auto a = action2internal(action);
        require(a != -2, "a skip was chosen as an action");
        const auto allowed = p.actions(s);
        require(std::find(allowed.begin(), allowed.end(), a) != allowed.end(), "action ", a, " was chosen where it does not exist");
        const Outcome o = p.outcome(s, a);
        const Internal n = p.next(s, a, o.kind);
        state = number(n);
        return {state, o.kind == SKIP ? 1 : action, o.reward, p.done(n)};
    }
    const Internal &state2internal(state_type s) const { return states.at(s); }
    std::int64_t action2internal(action_type a) const { return a == 0 ? -1 : a == 1 ? -2 : static_cast<std::int64_t>(a - special_actions); }
    std::size_t edges() const { return std::accumulate(p.choices.begin(), p.choices.end(), std::size_t{0}); }
    const std::vector<int> &candidates() const { return dummy; }
};

struct Reference {
    const Process &p;
    double discount;
    std::map<Internal, double> memo;
    double best(const Internal &s) {
        auto it = memo.find(s);
        if (it != memo.end()) return it->second;
        double b = -std::numeric_limits<double>::infinity();
        for (auto a : p.actions(s)) b = std::max(b, value(s, a));
        return memo[s] = b;
    }
    double value(const Internal &s, std::int64_t a) {
        const Outcome o = p.outcome(s, a);
        const Internal n = p.next(s, a, o.kind);
        return o.reward + (p.done(n) ? 0 : discount * best(n));
    }
    // the best value of a sequence of actions that gives this policy, nothing when there is none
    std::map<std::pair<Internal, std::size_t>, double> seen;
    double along(const Internal &s, const Policy &policy, std::size_t k) {
        auto key = std::pair{s, k};
        if (auto it = seen.find(key); it != seen.end()) return it->second;
        double b = -std::numeric_limits<double>::infinity();
        for (auto a : p.actions(s)) {
            const Outcome o = p.outcome(s, a);
            const Internal n = p.next(s, a, o.kind);
            std::size_t used = k;
            if (a >= 0 and o.kind != SKIP) {
                if (k >= policy.size() or policy[k] != std::pair{static_cast<std::size_t>(s.back()), static_cast<std::size_t>(a)}) continue;
                used = k + 1;
            } else if (k > 0) { // the former choice once more
                if (k >= policy.size() or policy[k] != policy[k - 1]) continue;
                used = k + 1;
            }
            if (p.done(n)) { if (used == policy.size()) b = std::max(b, o.reward); }
            else b = std::max(b, o.reward + discount * along(n, policy, used));
        }
        return seen[key] = b;
    }
};

static Process process(Ctx &c, bool small) {
    Src &s = c.s;
    Process p;
    p.choices.resize(s.chance(85) ? s.range(2, small ? 4 : 7) : s.size(0, 2));
    for (auto &n : p.choices) n = s.chance(8) ? 0 : s.range(1, small ? 3 : 4);
    p.memory = s.chance(15) ? 1 : s.chance(70) ? 3 : 5;
    p.salt = s.below(1u << 30);
    const std::size_t kinds = s.range(1, 12);
    const bool whole = s.flip();
    for (std::size_t i = 0; i < kinds; ++i) p.values.push_back(whole ? -static_cast<double>(s.below(10)) : s.real(-100, 0));
    p.skips = s.flip() ? static_cast<int>(s.below(60)) : 0;
    p.fails = s.chance(30) ? static_cast<int>(s.below(40)) : 0;
    c.note("choices");
    for (auto n : p.choices) c.note(" ", n);
    c.note(" memory ", p.memory, " skips ", p.skips, " fails ", p.fails, " salt ", p.salt, " rewards");
    for (auto v : p.values) c.note(" ", v);
    return p;
}

static void valid(const Process &p, const Policy &policy) {
    for (std::size_t i = 0; i < policy.size(); ++i) {
        require(policy[i].first < p.choices.size(), "policy names position ", policy[i].first);
        require(policy[i].second < p.choices[policy[i].first], "policy names choice ", policy[i].second, " of position ", policy[i].first);
        if (i > 0) require(policy[i - 1].first < policy[i].first or policy[i - 1] == policy[i], "policy is not in order at ", i);
    }
}

template<template<typename> typename Learner>
static void optimal(Ctx &c) {
    Src &s = c.s;
    const Process p = process(c, false);
    mm::matching::settings settings;
    settings.discount = s.chance(40) ? 0.99 : s.flip() ? 1.0 : s.real(0.1, 1);
    settings.threshold = s.flip() ? 1e-3 : s.chance(50) ? 0.0 : 1e-9;
    c.note(" discount ", settings.discount, " threshold ", settings.threshold);
    Environment e{p};
    const bool again = s.chance(20), aborted = s.chance(10);
    if (aborted) { e.calls_until_abort = static_cast<long>(s.size(0, 200)); c.note(" abort after ", e.calls_until_abort); }
    Learner<Environment> learner{e, settings};
    Policy policy = learner();
    if (again) policy = learner();
    valid(p, policy);
    if (aborted and policy.empty()) return;
    Reference r{p, settings.discount};
    const double best = r.best({0}), got = r.along({0}, policy, 0);
    require(got > -std::numeric_limits<double>::infinity(), "the policy is not a sequence of choices of the process");
    // a sweep of a sum of values below the threshold leaves at most that many further ones
    const double accuracy = 1e-9 * (1 + std::abs(best)) + settings.threshold * 2 * static_cast<double>(e.states.size() + 1) * static_cast<double>(p.choices.size() * 2 + 2);
    require(got <= best + 1e-9 * (1 + std::abs(best)), "oracle: a policy is better than the best");
    require(got >= best - accuracy, "value ", got, " of the policy, but ", best, " is possible");
    c.nontrivial(policy.size() >= 3 and e.states.size() >= 8);
    if (p.skips) c.label("skips");
    if (p.memory == 5) c.label("memory of two choices");
    if (aborted) c.label("abort");
}

static void q_learning(Ctx &c) {
    Src &s = c.s;
    const Process p = process(c, true);
    mm::matching::settings settings;
    settings.early_stop_factor = s.real(0.5, 4);
    settings.epsilon = s.real(0.1, 0.9);
    settings.learning_rate = s.real(0.1, 1);
    settings.episodes = s.size(1, 400);
    Environment e{p};
    if (s.chance(10)) e.calls_until_abort = static_cast<long>(s.size(0, 100));
    mm::learning::q_learning<Environment> learner{e, settings};
    const Policy policy = learner();
    valid(p, policy);
    if (not policy.empty() and e.calls_until_abort < 0) {
        // may be cut short where nothing was learned, so only the order of choices is judged
        std::size_t ok = 0;
        for (std::size_t i = 1; i < policy.size(); ++i) ok += policy[i].first > policy[i - 1].first;
        c.nontrivial(ok >= 2);
    }
}

struct Chain {
    using action_type = std::int64_t;
    const action_type no_action = -1;
    std::vector<std::vector<double>> o;
    std::vector<std::vector<std::vector<double>>> t;
    long calls_until_abort{-1};
    bool abort() { return calls_until_abort >= 0 and calls_until_abort-- == 0 ? (calls_until_abort = 0, true) : false; }
    const auto &observations() const { return o; }
    const auto &transitions() const { return t; }
};

static void viterbi(Ctx &c) {
    Src &s = c.s;
    Chain e;
    const double never = std::log(0.0);
    const std::size_t n = s.chance(80) ? s.range(3, 7) : s.size(0, 4);
    std::vector<double> levels(s.range(1, 8));
    for (auto &l : levels) l = std::log(s.chance(15) ? 1.0 : s.real(1e-6, 1));
    const int gaps = s.chance(40) ? 40 : s.chance(50) ? 10 : 0;
    auto level = [&] { return levels[s.below(levels.size())]; };
    std::size_t first = 0;
    const bool late = s.chance(15);
    if (late) first = s.below(n + 1);
    for (std::size_t i = 0; i < n; ++i) {
        const std::size_t m = i < first ? 0 : s.range(s.chance(5) ? 0 : 1, 4);
        std::vector<double> obs;
        std::vector<std::vector<double>> trans(m);
        for (std::size_t g = 0; g < m; ++g) obs.push_back(level());
        if (i == 0) for (auto &x : trans) x = {std::log(1.0 / static_cast<double>(m))};
        else for (auto &x : trans) for (std::size_t k = 0; k < e.o.back().size(); ++k) x.push_back(s.chance(gaps) ? never : level());
        e.o.push_back(obs);
        e.t.push_back(trans);
    }
    c.note("chain");
    for (std::size_t i = 0; i < n; ++i) {
        c.note(" |");
        for (std::size_t g = 0; g < e.o[i].size(); ++g) { c.note(" ", e.o[i][g], " ("); for (double x : e.t[i][g]) c.note(" ", x); c.note(")"); }
    }
    const bool aborted = s.chance(5);
    if (aborted) e.calls_until_abort = static_cast<long>(s.below(20));
    mm::matching::settings settings;
    mm::learning::viterbi<Chain> learner{e, settings};
    const Policy policy = learner();
    // the best sequence from the first position with candidates, tried one by one
    std::size_t start = 0;
    while (start < n and e.o[start].empty()) ++start;
    auto initial = [&](std::size_t g) { return (start == 0 ? e.t[0][g][0] : std::log(1.0 / static_cast<double>(e.o[start].size()))) + e.o[start][g]; };
    double best = -std::numeric_limits<double>::infinity();
    std::size_t sequences = 0;
    auto walk = [&](auto &&self, std::size_t i, std::size_t g, double sum) -> void {
        if (sum == -std::numeric_limits<double>::infinity()) return;
        if (i + 1 == n) { best = std::max(best, sum); ++sequences; return; }
        for (std::size_t k = 0; k < e.o[i + 1].size(); ++k) self(self, i + 1, k, sum + e.t[i + 1][k][g] + e.o[i + 1][k]);
    };
    if (start < n) for (std::size_t g = 0; g < e.o[start].size(); ++g) walk(walk, start, g, initial(g));
    if (aborted and policy.empty()) return;
    if (best == -std::numeric_limits<double>::infinity()) {
        require(policy.empty(), "there is no possible sequence, but a policy of ", policy.size());
        return;
    }
    require_eq(policy.size(), n - start, "length of the policy");
    double sum = 0;
    for (std::size_t i = 0; i < policy.size(); ++i) {
        require_eq(policy[i].first, start + i, "position in the policy");
        require(policy[i].second < e.o[start + i].size(), "choice ", policy[i].second, " at ", start + i);
        sum = i == 0 ? initial(policy[0].second) : sum + e.t[start + i][policy[i].second][policy[i - 1].second] + e.o[start + i][policy[i].second];
    }
    require(near(sum, best, 1e-9, 1e-9), "likelihood ", sum, " of the policy, but ", best, " is possible");
    c.nontrivial(sequences >= 8);
    if (gaps) c.label("impossible steps");
}

void pbt::define(Suite &s) {
    s.property = "L01";
    s.add("value-iteration", "decision processes of up to 7 positions with up to 4 choices each, memory of none, one or two former choices, skips, early ends and "
          "positions without choices; non-trivial: three choices, eight states", 60000, 1200000, optimal<mm::learning::value_iteration>);
    s.add("policy-iteration", "same", 60000, 1200000, optimal<mm::learning::policy_iteration>);
    s.add("viterbi", "chains of up to 7 positions with up to 4 candidates each, impossible steps and positions without candidates; non-trivial: eight possible sequences",
          100000, 2000000, viterbi);
    s.add("q-learning", "decision processes of up to 4 positions; only the validity of the policy is judged; non-trivial: three choices", 5000, 60000, q_learning);
    s.assumptions = {"Rewards are not positive, as in map matching.", "Processes are free of cycles: a position is never returned to."};
}
