// Results of the matcher and other tables: running the matcher, reading its tables and geometries independently.
#ifndef VERIF_RESULTGEN_HPP
#define VERIF_RESULTGEN_HPP
#include <charconv>
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <mutex>
#include <thread>
#include "matchgen.hpp"
#include "matching/matcher.hpp"
#include "matching/matcher/matcher_forwarder.hpp"

namespace rg {
    using namespace mg;
    using Line = std::vector<P>;
    using Lines = std::vector<Line>;

    template<typename S> using multi_t = mm::geometry::track::multi_track_type<mm::geometry::point_type<typename S::cs>>;

    template<typename Multi>
    Multi make_multi(const std::string &id, const Lines &parts) {
        if (parts.empty()) return Multi{id, typename Multi::multi_rich_line_type{}};
        if (parts.size() == 1) {
            typename Multi::line_type line;
            for (auto &p : parts.front()) line.push_back({p[0], p[1]});
            return Multi{id, std::move(line)};
        }
        typename Multi::multi_line_type lines;
        for (auto &l : parts) {
            lines.emplace_back();
            for (auto &p : l) lines.back().push_back({p[0], p[1]});
        }
        return Multi{id, std::move(lines)};
    }

    using Table = std::vector<std::vector<std::string>>;

    // fields separated by commas; quoted ones may contain commas, line breaks and doubled quotes
    inline Table read_csv(const std::string &file) {
        std::ifstream in{file, std::ios::binary};
        Table rows;
        std::vector<std::string> row{""};
        bool quoted = false, any = false;
        for (char ch; in.get(ch);) {
            any = true;
            if (quoted) {
                if (ch == '"') { if (in.peek() == '"') { in.get(ch); row.back() += ch; } else quoted = false; }
                else row.back() += ch;
            } else if (ch == '"') quoted = true;
            else if (ch == ',') row.emplace_back();
            else if (ch == '\n') { rows.push_back(row); row = {""}; any = false; }
            else if (ch != '\r') row.back() += ch;
        }
        pbt::require(not any and not quoted, "the table does not end with a whole row");
        return rows;
    }

    // POINT, LINESTRING and MULTILINESTRING; empty parts stay
    inline Lines parse_wkt(const std::string &text) {
        std::size_t at = 0;
        auto space = [&] { while (at < text.size() and text[at] == ' ') ++at; };
        auto word = [&](const char *w) { if (text.compare(at, std::strlen(w), w) != 0) return false; at += std::strlen(w); space(); return true; };
        auto number = [&] {
            space();
            double v = 0;
            const auto r = std::from_chars(text.data() + at, text.data() + text.size(), v);
            pbt::require(r.ec == std::errc{}, "not a number in the geometry ", text);
            at = static_cast<std::size_t>(r.ptr - text.data());
            space();
            return v;
        };
        auto line = [&] {
            Line l;
            pbt::require(word("("), "no list of positions in the geometry ", text);
            if (word(")")) return l;
            do { const double x = number(), y = number(); l.push_back({x, y}); } while (word(","));
            pbt::require(word(")"), "open list of positions in the geometry ", text);
            return l;
        };
        Lines all;
        if (word("MULTILINESTRING")) {
            if (word("EMPTY")) return all;
            pbt::require(word("("), "no list of lines in the geometry ", text);
            if (not word(")")) { do all.push_back(line()); while (word(",")); pbt::require(word(")"), "open list of lines in the geometry ", text); }
        } else if (word("LINESTRING") or word("POINT")) {
            if (not word("EMPTY")) all.push_back(line());
        } else pbt::fail("unknown geometry ", text);
        pbt::require_eq(at, text.size(), "length of the geometry ", text);
        std::erase_if(all, [](const Line &l) { return l.empty(); });
        return all;
    }

    // runs the body aside; a schedule in which it never ends is a failure
    inline void watched(const std::function<void()> &body, unsigned seconds = 120) {
        struct State { std::mutex m; std::condition_variable cv; bool done{false}; std::exception_ptr error; };
        auto state = std::make_shared<State>();
        std::thread runner([state, body] {
            std::exception_ptr e;
            try { body(); } catch (...) { e = std::current_exception(); }
            std::lock_guard lock{state->m};
            state->done = true;
            state->error = e;
            state->cv.notify_all();
        });
        bool done;
        {
            std::unique_lock lock{state->m};
            done = state->cv.wait_for(lock, std::chrono::seconds(seconds), [&] { return state->done; });
        }
        if (not done) {
            runner.detach();
            throw pbt::Fail{"it does not end"};
        }
        runner.join();
        if (state->error) std::rethrow_exception(state->error);
    }

    struct Captured {
        std::ostringstream out;
        std::streambuf *old;
        Captured() : old{std::cout.rdbuf(out.rdbuf())} {}
        ~Captured() { std::cout.rdbuf(old); }
    };

    // distances and azimuths are kept by the program, but need not be
    inline void any_cache(pbt::Ctx &c) {
        mm::geometry::reset_distance_cache();
        mm::geometry::reset_azimuth_cache();
        if (c.s.chance(70)) { mm::geometry::enable_cache(); c.note("cached "); }
        else mm::geometry::disable_cache();
    }

    struct Item {
        std::string id;
        Lines parts;
        settings st;
        bool alien{false};          // of another coordinate system, cannot be processed
    };

    struct Output {
        Table matches, candidates;
        std::string printed;
    };

    struct Columns {
        std::string match{"id,aborted,track,prepared,match,track_length,prepared_length,match_length,edge_ids"};
        std::string candidates{mm::matching::DEFAULT_CANDIDATE_COLUMNS};
        bool with_candidates{true}, console{false}, verbose{false};
    };

    // as the program does it
    template<typename S>
    Output run_matcher(const typename S::network &net, const std::vector<Item> &items, std::uint32_t threads, const Columns &columns = {}) {
        using matcher_type = mm::matching::matcher<typename S::network>;
        using Alien = std::conditional_t<std::is_same_v<S, Cartesian>, Geographic, Cartesian>;
        static std::size_t runs = 0;
        const std::string base = pbt::scratch() + "/run" + std::to_string(++runs);
        std::filesystem::create_directory(base);
        const std::string file = base + "/matches.csv", candidates = columns.with_candidates ? base + "/candidates.csv" : base + "/";
        Output o;
        {
            Captured captured;
            watched([&] {
                const mm::matching::matcher_output_settings output{file, columns.match, candidates, columns.candidates, columns.console, columns.verbose};
                auto matcher = std::make_unique<matcher_type>(net, output, threads);
                matcher->start();
                for (auto &x : items) {
                    mm::matching::matcher_forwarder<matcher_type> forwarder{*matcher, x.st};
                    if (x.alien) {
                        forwarder.pass(make_multi<multi_t<Alien>>(x.id, x.parts));
                        // lengths are kept by position only, a program reads tracks of one system
                        mm::geometry::reset_distance_cache();
                        mm::geometry::reset_azimuth_cache();
                    }
                    else forwarder.pass(make_multi<multi_t<S>>(x.id, x.parts));
                }
                matcher->stop();
                matcher->join();
                matcher.reset();
            });
            o.printed = captured.out.str();
        }
        o.matches = read_csv(file);
        if (columns.with_candidates) o.candidates = read_csv(candidates);
        std::error_code ec;
        std::filesystem::remove_all(base, ec);
        return o;
    }

    template<typename S>
    settings any_settings(pbt::Ctx &c, double unit, bool q_learning) {
        auto &s = c.s;
        settings st;
        if (q_learning) st.model = s.pick({settings::VALUE_ITERATION, settings::VITERBI, settings::POLICY_ITERATION, settings::Q_LEARNING});
        else st.model = s.pick({settings::VALUE_ITERATION, settings::VITERBI, settings::POLICY_ITERATION});
        st.candidate_search = s.pick({settings::NEAREST, settings::CIRCLE, settings::COMBINED, settings::NEXT});
        st.k_nearest = st.candidate_search == settings::NEXT ? 1 : static_cast<std::size_t>(s.range(1, 4));
        st.radius = unit * s.pick({0.5, 1.0, 2.0});
        st.adaptive_radius = s.flip();
        st.radius_lower_limit = unit / 4;
        st.radius_upper_limit = unit * 2;
        st.candidate_adoption_siblings = s.flip();
        st.candidate_adoption_nearby = s.flip();
        st.candidate_adoption_reverse = s.flip();
        st.filter_duplicates = s.flip();
        st.simplify_track = s.chance(20);
        st.simplify_track_distance_tolerance = unit / 4;
        st.median_merge = s.chance(20);
        st.median_merge_distance_tolerance = unit / 4;
        st.join_merges = s.flip();
        st.within_edge_turns = s.chance(30);
        st.a_star = s.flip();
        st.skip_errors = s.chance(70);
        st.state_size = s.chance(30) ? 3 : 2;
        st.routing_max_distance_factor = s.pick({5.0, 2.0, 10.0, -1.0});
        st.episodes = 300;
        st.export_edge_ids = s.flip();
        st.export_edges = s.chance(30);
        c.note(" {model ", std::array{"policy iteration", "value iteration", "q-learning", "viterbi"}[st.model], " search ",
                std::array{"circle", "nearest", "combined", "next"}[st.candidate_search], " k ", st.k_nearest, st.skip_errors ? " skip" : "", " states ", st.state_size,
                st.join_merges ? " join" : "", st.within_edge_turns ? " turns" : "", st.a_star ? " directed" : "", " factor ", st.routing_max_distance_factor, " radius ", st.radius,
                st.adaptive_radius ? " adaptive" : "", st.filter_duplicates ? " filter" : "", st.simplify_track ? " simplify" : "", st.median_merge ? " median" : "",
                st.export_edge_ids ? " edge-ids" : "", st.export_edges ? " edges" : "", "}");
        return st;
    }
}
#endif
