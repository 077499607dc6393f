// A small property-based testing engine.
//  * A case is a function of a tape of bounded integers; random generation records the tape, so that shrinking works
//    on the tape (delete, zero, minimise) whatever the generators build from it, and a replay file is the tape.
//  * Cases run in forked workers; a crash, a failed assertion, an exhausted CPU or memory budget is a failure of
//    the case that was running. A failure is confirmed three times in fresh processes before it is reported.
//  * Everything is derived from the seed and the case number, hence reproducible.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

    struct Fail : std::runtime_error {
        using std::runtime_error::runtime_error;
    };

    // A failure that is recorded in the known-findings file under `id`; everything else about the case is unaffected.
    struct Known : std::runtime_error {
        std::string id;
        Known(std::string i, const std::string &m) : std::runtime_error{m}, id{std::move(i)} {}
    };

    struct Discard {};

    class Src {
    public:
        explicit Src(std::uint64_t seed) : _state{seed} {}
        explicit Src(std::vector<std::uint64_t> tape) : _tape{std::move(tape)}, _replay{true} {}

        // uniform in [0, bound)
        std::uint64_t below(std::uint64_t bound) {
            if (bound <= 1) return 0;
            if (_replay) {
                std::uint64_t v = _pos < _tape.size() ? _tape[_pos] % bound : 0;
                _pos++;
                _used.push_back(v);
                return v;
            }
            std::uint64_t v = next() % bound;
            _used.push_back(v);
            return v;
        }
        // inclusive range, shrinks towards lo
        std::int64_t range(std::int64_t lo, std::int64_t hi) {
            return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
        }
        // inclusive range, shrinks towards zero
        std::int64_t around(std::int64_t max) {
            auto v = static_cast<std::int64_t>(below(static_cast<std::uint64_t>(2 * max + 1)));
            return (v & 1) ? (v + 1) / 2 : -(v / 2);
        }
        // a size that is often small
        std::size_t size(std::size_t lo, std::size_t hi) {
            switch (below(4)) {
                case 0: return static_cast<std::size_t>(range(lo, std::min(hi, lo + 2)));
                case 1: return static_cast<std::size_t>(range(lo, lo + (hi - lo) / 4));
                case 2: return static_cast<std::size_t>(range(lo, lo + (hi - lo) / 2));
                default: return static_cast<std::size_t>(range(lo, hi));
            }
        }
        bool chance(unsigned percent) { return below(100) >= 100 - percent; } // shrinks to false
        std::size_t weighted(std::initializer_list<unsigned> w) {
            std::uint64_t sum = 0;
            for (auto v : w) sum += v;
            std::uint64_t at = below(sum);
            std::size_t i = 0;
            for (auto v : w) { if (at < v) return i; at -= v; ++i; }
            return 0;
        }
        bool flip() { return below(2) != 0; }
        double unit() { return static_cast<double>(below(1u << 30)) / static_cast<double>(1u << 30); }
        double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
        template<typename C>
        const auto &pick(const C &c) { return c[below(c.size())]; }
        template<typename T>
        T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }

        [[nodiscard]] const std::vector<std::uint64_t> &used() const { return _used; }

    private:
        std::uint64_t _state{0};
        std::vector<std::uint64_t> _tape, _used;
        std::size_t _pos{0};
        bool _replay{false};

        std::uint64_t next() {
            std::uint64_t z = (_state += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
    };

    class Ctx {
    public:
        Src &s;
        explicit Ctx(Src &src) : s{src} {}

        // text of the case, for samples and replays
        template<typename... Ts>
        void note(const Ts &...ts) {
            if (_note.size() > 6000) return;
            std::ostringstream o;
            o.precision(17);
            (o << ... << ts);
            _note += o.str();
        }
        void nontrivial(bool v = true) { _nontrivial = _nontrivial or v; }
        void label(const std::string &l) { _labels.insert(l); }
        // evidence that a deep part of the behaviour was actually exercised
        void count(const std::string &l, std::uint64_t n = 1) { _counts[l] += n; }

        [[nodiscard]] const std::string &text() const { return _note; }
        [[nodiscard]] bool is_nontrivial() const { return _nontrivial; }
        [[nodiscard]] const std::set<std::string> &labels() const { return _labels; }
        [[nodiscard]] const std::map<std::string, std::uint64_t> &counts() const { return _counts; }

    private:
        std::string _note;
        bool _nontrivial{false};
        std::set<std::string> _labels;
        std::map<std::string, std::uint64_t> _counts;
    };

    using TargetFn = std::function<void(Ctx &)>;

    struct Target {
        std::string name, rule;
        TargetFn fn;
        std::uint64_t quick, thorough;
        unsigned jobs; // 0: all cores
        unsigned cpu_limit_s;
        // above 1: the schedule matters, a case is run up to this often when a failure is to be reproduced, and one
        // failing run is reported even when no other run fails
        unsigned tries{1};
    };

    struct KnownFinding {
        std::string id, what;
        std::function<bool()> still_fails; // run in a child process
    };

    struct Suite {
        std::string property;
        std::vector<std::string> assumptions;
        std::vector<Target> targets;
        std::vector<KnownFinding> known;

        void add(std::string name, std::string rule, std::uint64_t quick, std::uint64_t thorough, TargetFn fn,
                unsigned jobs = 0, unsigned cpu_limit_s = 60) {
            for (char &ch : name) if (ch == ' ' or ch == ',') ch = '-';
            targets.push_back({std::move(name), std::move(rule), std::move(fn), quick, thorough, jobs, cpu_limit_s});
        }
    };

    // defined by each check
    void define(Suite &suite);

    template<typename... Ts>
    [[noreturn]] void fail(const Ts &...ts) {
        std::ostringstream o;
        o.precision(17);
        (o << ... << ts);
        throw Fail{o.str()};
    }

    template<typename... Ts>
    void require(bool ok, const Ts &...ts) {
        if (not ok) fail(ts...);
    }

    template<typename A, typename B, typename... Ts>
    void require_eq(const A &a, const B &b, const Ts &...ts) {
        if (not(a == b)) fail(ts..., " (got ", a, ", expected ", b, ")");
    }

    inline bool near(double a, double b, double abs_tol, double rel_tol = 1e-9) {
        if (std::isnan(a) or std::isnan(b)) return std::isnan(a) and std::isnan(b);
        if (a == b) return true;
        return std::abs(a - b) <= std::max(abs_tol, rel_tol * std::max(std::abs(a), std::abs(b)));
    }

    template<typename... Ts>
    void require_close(double a, double b, double abs_tol, const Ts &...ts) {
        if (not near(a, b, abs_tol)) fail(ts..., " (got ", a, ", expected ", b, ")");
    }

    // a scratch directory of this process that is removed at its end
    const std::string &scratch();

}

#endif
