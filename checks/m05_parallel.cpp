// M05: many workers do what one does: everything once, with the same result.
#include <random>
#include "resultgen.hpp"
#include "compare/comparator.hpp"
#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
using namespace pbt;
using namespace rg;

// built with the thread sanitizer: two threads that touch the same data without order are a failure of the case
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:die_after_fork=0:atexit_sleep_ms=0"; }

struct Job {
    std::size_t number{0};
    unsigned work{0};
    bool fails{false};
    std::shared_ptr<int> payload{};
};

class Pool : public mm::util::coordinator<Job> {
public:
    using base = mm::util::coordinator<Job>;
    Pool(std::size_t jobs, std::uint32_t threads) : base{threads}, ran(jobs), results(jobs) {}
    Pool(std::size_t jobs, std::uint32_t threads, std::uint32_t queue) : base{threads, queue}, ran(jobs), results(jobs) {}
    std::vector<std::atomic<unsigned>> ran;
    std::vector<std::atomic<long>> results;
    std::atomic<int> at_once{0}, most{0};
protected:
    void execute(Job &&job) override {
        const int now = ++at_once;
        for (int m = most; now > m and not most.compare_exchange_weak(m, now);) {}
        ran[job.number]++;
        long x = static_cast<long>(job.number) + 1;
        for (unsigned i = 0; i < job.work; ++i) { x = x * 31 % 1000003; if (i % 64 == 63) std::this_thread::yield(); }
        results[job.number] = x + (job.payload ? *job.payload : 0);
        --at_once;
        if (job.fails) {
            if (job.number % 2) throw std::runtime_error{"job fails"};
            throw 7;
        }
    }
};

// the pool below all of them
static void pool(Ctx &c) {
    auto &s = c.s;
    const auto threads = static_cast<std::uint32_t>(s.range(1, 8));
    const bool sized = s.flip();
    const std::uint32_t queue = sized ? static_cast<std::uint32_t>(s.range(1, 12)) : threads == 1 ? 1 : 2 * threads;
    const std::size_t n = s.size(0, 60), producers = s.size(1, 3);
    const unsigned fails = static_cast<unsigned>(s.pick({0, 20, 60, 100})), heavy = static_cast<unsigned>(s.pick({0, 200, 3000}));
    std::vector<Job> jobs;
    for (std::size_t i = 0; i < n; ++i) jobs.push_back({i, static_cast<unsigned>(s.below(heavy + 1)), s.chance(fails), std::make_shared<int>(static_cast<int>(i) * 1000)});
    // how much is handed over before it starts
    const std::size_t early = std::min<std::size_t>({n, queue, static_cast<std::size_t>(s.below(4) == 0 ? queue : 0)});
    const bool moved = s.flip(), started = s.chance(95) or n > queue, wait_first = s.flip();
    c.note("threads ", threads, " queue ", queue, " jobs ", n, " producers ", producers, " failing ", fails, "% work ", heavy, " early ", early, started ? "" : " never started");
    auto instance = sized ? std::make_shared<Pool>(n, threads, queue) : std::make_shared<Pool>(n, threads);
    Pool &p = *instance;
    if (not started) {
        // only handed over: nothing may run, and it ends all the same
        watched([instance, &jobs] { for (auto &j : jobs) instance->queue(j); instance->stop(); });
        for (auto &r : p.ran) require_eq(r.load(), 0u, "runs of a job before the start");
        return;
    }
    watched([&, instance] {
        for (std::size_t i = 0; i < early; ++i) p.queue(jobs[i]);
        p.start();
        std::vector<std::thread> hands;
        for (std::size_t k = 0; k < producers; ++k) hands.emplace_back([&, k] {
            for (std::size_t i = early + k; i < n; i += producers) {
                if (moved) { Job j = jobs[i]; p.queue(std::move(j)); }
                else p.queue(jobs[i]);
            }
        });
        for (auto &h : hands) h.join();
        if (wait_first) std::this_thread::yield();
        p.stop();
        p.join();
    }, 60);
    require_eq(p.at_once.load(), 0, "jobs running after the end");
    for (std::size_t i = 0; i < n; ++i) {
        require_eq(p.ran[i].load(), 1u, "runs of job ", i, jobs[i].fails ? " (failing)" : "");
        long x = static_cast<long>(i) + 1;
        for (unsigned k = 0; k < jobs[i].work; ++k) x = x * 31 % 1000003;
        require_eq(p.results[i].load(), x + static_cast<long>(i) * 1000, "result of job ", i);
    }
    require(p.most <= static_cast<int>(threads), "more jobs at once than threads: ", p.most.load(), " of ", threads);
    instance.reset();
    for (auto &j : jobs) require_eq(j.payload.use_count(), 1l, "copies of job ", j.number, " left");
    c.count("at once " + std::to_string(std::min(8, static_cast<int>(threads))));
    c.nontrivial(n > queue and threads > 1);
}

static std::map<std::string, Table> by_id(const Table &t, const char *what) {
    std::map<std::string, Table> m;
    for (std::size_t i = 1; i < t.size(); ++i) {
        require_eq(t[i].size(), t[0].size(), "columns of row ", i, " of ", what);
        m[t[i][0]].push_back(t[i]);
    }
    return m;
}

template<typename S>
static void matcher(Ctx &c) {
    auto &s = c.s;
    any_cache(c);
    Opt o;
    o.grid = static_cast<int>(s.pick({3, 6}));
    o.max_nodes = 12;
    o.max_ways = 6;
    o.tags = false;
    const Model m = generate<S>(c, o);
    describe(c, m);
    typename S::import import;
    fill(import, m);
    typename S::network net;
    prepare(net, import);
    const double unit = S::dist({S::x0, S::y0}, {S::x0 + S::dx, S::y0});
    std::vector<Item> items;
    const std::size_t n = s.size(1, 10);
    for (std::size_t i = 0; i < n; ++i) {
        Item x;
        x.id = "track" + std::to_string(i);
        x.alien = s.chance(10);
        c.note(" | ", x.id, x.alien ? " of another system" : "");
        // tracks alike, so that what is kept of one fits another
        if (i > 0 and s.chance(30)) { x.parts = items[s.below(i)].parts; c.note(" again"); }
        else for (std::size_t k = s.chance(20) ? s.size(0, 3) : 1; k > 0; --k) { x.parts.push_back(random_track<S>(c, m, o, 1, 5)); describe(c, x.parts.back()); }
        x.st = any_settings<S>(c, unit, true);
        items.push_back(x);
    }
    const auto threads = static_cast<std::uint32_t>(s.range(2, 6));
    c.note(" threads ", threads);
    Output all = run_matcher<S>(net, items, threads);
    const auto rows = by_id(all.matches, "matches"), candidates = by_id(all.candidates, "candidates");
    std::size_t expected = 0;
    for (auto &x : items) {
        if (x.alien) {
            require(not rows.count(x.id), "a row for a track of another system");
            continue;
        }
        ++expected;
        require(rows.count(x.id), "no row for ", x.id);
        require_eq(rows.at(x.id).size(), 1u, "rows for ", x.id);
        if (x.st.model == settings::Q_LEARNING) continue; // by chance
        const Output one = run_matcher<S>(net, {x}, 1);
        require_eq(one.matches.size(), 2u, "rows of ", x.id, " alone");
        require(one.matches[1] == rows.at(x.id)[0], "the result of ", x.id, " alone is another: ", [&] {
            std::string t;
            for (std::size_t k = 0; k < one.matches[1].size(); ++k) if (one.matches[1][k] != rows.at(x.id)[0][k]) t += one.matches[0][k] + ": " + rows.at(x.id)[0][k] + " / " + one.matches[1][k] + " ";
            return t;
        }());
        const auto alone = by_id(one.candidates, "candidates");
        require_eq(alone.count(x.id), candidates.count(x.id), "candidates of ", x.id, " alone");
        if (alone.count(x.id)) require(alone.at(x.id) == candidates.at(x.id), "the candidates of ", x.id, " alone are others");
    }
    require_eq(rows.size(), expected, "results");
    for (auto &[id, r] : candidates) require(rows.count(id), "candidates without a result for ", id);
    c.nontrivial(expected >= 3);
}

static void comparator(Ctx &c) {
    auto &s = c.s;
    using S = Cartesian;
    any_cache(c);
    struct Pair { std::string id; Lines truth, match; bool alien; };
    auto walk = [&] {
        Lines all;
        for (std::size_t k = s.chance(20) ? 2 : 1; k > 0; --k) {
            all.emplace_back();
            for (std::size_t i = s.size(2, 6); i > 0; --i) all.back().push_back({static_cast<double>(s.below(5)) * 10, static_cast<double>(s.below(5)) * 10});
        }
        return all;
    };
    std::vector<Pair> pairs;
    const std::size_t n = s.size(1, 10);
    for (std::size_t i = 0; i < n; ++i) {
        Pair p{"track" + std::to_string(i), walk(), {}, s.chance(10)};
        p.match = s.chance(60) ? p.truth : walk();
        if (s.flip() and p.match[0].size() > 2) p.match[0].pop_back();
        pairs.push_back(p);
    }
    auto run = [&](const std::vector<Pair> &some, std::uint32_t threads) {
        const std::string file = scratch() + "/compare.csv";
        Captured captured;
        watched([&] {
            mm::compare::settings st;
            const mm::compare::comparator_output_settings output{file, "id,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed,corrects,error_adds,error_misses", false, false};
            mm::compare::comparator comparator{output, threads};
            comparator.start();
            for (auto &p : some) {
                if (p.alien) {
                    auto alien = make_multi<multi_t<Geographic>>(p.id, p.match);
                    mm::geometry::reset_distance_cache();
                    mm::geometry::reset_azimuth_cache();
                    comparator.compare(std::move(alien), make_multi<multi_t<S>>(p.id, p.truth), st);
                }
                else comparator.compare(make_multi<multi_t<S>>(p.id, p.match), make_multi<multi_t<S>>(p.id, p.truth), st);
            }
            comparator.stop();
            comparator.join();
        });
        return read_csv(file);
    };
    const auto threads = static_cast<std::uint32_t>(s.range(2, 6));
    c.note("threads ", threads, " comparisons ", n);
    const auto rows = by_id(run(pairs, threads), "comparisons");
    std::size_t expected = 0;
    for (auto &p : pairs) {
        if (p.alien) { require(not rows.count(p.id), "a row for a comparison between systems"); continue; }
        ++expected;
        require(rows.count(p.id) and rows.at(p.id).size() == 1, "not one row for ", p.id);
        const Table one = run({p}, 1);
        require_eq(one.size(), 2u, "rows of ", p.id, " alone");
        require(one[1] == rows.at(p.id)[0], "the comparison of ", p.id, " alone is another");
    }
    require_eq(rows.size(), expected, "comparisons");
    c.nontrivial(expected >= 3);
}

void pbt::define(Suite &s) {
    s.property = "M05";
    s.add("pool", "pools of 1 to 8 threads with queues of 1 to 12, up to 60 jobs of any length and up to 3 hands, failing ones among them; non-trivial: several threads and more jobs than the queue holds", 20000, 300000, pool);
    s.targets.back().tries = 50;
    const char *m = "up to 10 tracks, each with its own settings, matched by 2 to 6 threads and each alone; non-trivial: three results or more";
    s.add("cartesian", m, 3000, 40000, matcher<Cartesian>);
    s.targets.back().tries = 50;
    s.add("geographic", m, 1000, 15000, matcher<Geographic>);
    s.targets.back().tries = 50;
    s.add("comparator", "up to 10 comparisons by 2 to 6 threads and each alone; non-trivial: three results or more", 2000, 40000, comparator);
    s.targets.back().tries = 50;
}
