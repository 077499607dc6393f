#include "pbt.hpp"

#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

    namespace fs = std::filesystem;
    using clock_type = std::chrono::steady_clock;

    static std::string g_root; // scratch of the whole run
    static std::string g_scratch;

    const std::string &scratch() {
        if (g_scratch.empty()) {
            g_scratch = g_root + "/p" + std::to_string(getpid());
            fs::create_directories(g_scratch);
        }
        return g_scratch;
    }

    static std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
        std::uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static std::uint64_t hash_str(const std::string &s) {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return h;
    }
    static std::uint64_t case_seed(std::uint64_t seed, const Target &t, std::uint64_t i) {
        return mix(mix(seed, hash_str(t.name)), i);
    }
    static std::uint64_t hash_tape(const std::vector<std::uint64_t> &t) {
        std::uint64_t h = 1469598103934665603ull;
        for (auto v : t) h = mix(h, v);
        return h;
    }

    static std::string json_escape(const std::string &s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' or c == '\\') { o += '\\'; o += static_cast<char>(c); }
            else if (c == '\n') o += "\\n";
            else if (c < 0x20 or c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += static_cast<char>(c);
        }
        return o;
    }

    struct Outcome {
        enum Kind { PASS, DISCARD, KNOWN, FAIL } kind{PASS};
        std::string message, known_id;
    };

    static Outcome run_case(const Target &t, Ctx &ctx) {
        Outcome o;
        try {
            t.fn(ctx);
        } catch (const Discard &) {
            o.kind = Outcome::DISCARD;
        } catch (const Known &k) {
            o.kind = Outcome::KNOWN; o.message = k.what(); o.known_id = k.id;
        } catch (const Fail &f) {
            o.kind = Outcome::FAIL; o.message = f.what();
        } catch (const std::exception &e) {
            o.kind = Outcome::FAIL; o.message = std::string{"unexpected exception: "} + e.what();
        } catch (...) {
            o.kind = Outcome::FAIL; o.message = "unexpected exception of unknown type";
        }
        return o;
    }

    static void limits(unsigned cpu_s) {
        rlimit r{};
#if not __has_feature(thread_sanitizer) // it maps much more than it uses
        r.rlim_cur = r.rlim_max = 6ull << 30;
        setrlimit(RLIMIT_AS, &r);
#endif
        r.rlim_cur = r.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &r);
        (void) cpu_s;
    }
    static void arm(unsigned cpu_s) {
        itimerval v{};
        v.it_value.tv_sec = cpu_s;
        setitimer(ITIMER_PROF, &v, nullptr); // CPU time of the process: SIGPROF ends it
    }
    static void quiet(const std::string &err_file) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (err_file.empty()) dup2(n, 2);
        else {
            int e = open(err_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(e, 2);
            close(e);
        }
        close(n);
        n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        close(n);
    }

    struct Shared {
        std::atomic<std::uint64_t> next, done, stop;
        struct W { std::atomic<std::uint64_t> current, running; } w[64];
    };

    struct Stats {
        std::uint64_t cases{0}, discarded{0}, nontrivial{0};
        std::set<std::uint64_t> hashes;
        std::map<std::string, std::uint64_t> labels, counts, known;
        std::vector<std::string> samples;
        void merge_line(const std::string &line) {
            std::istringstream in(line);
            std::string k; in >> k;
            if (k == "C") { std::uint64_t a, b, c; in >> a >> b >> c; cases += a; discarded += b; nontrivial += c; }
            else if (k == "H") { std::uint64_t h; in >> h; hashes.insert(h); }
            else if (k == "L") { std::uint64_t n; in >> n; in.get(); std::string l; std::getline(in, l); labels[l] += n; }
            else if (k == "N") { std::uint64_t n; in >> n; in.get(); std::string l; std::getline(in, l); counts[l] += n; }
            else if (k == "K") { std::uint64_t n; in >> n; in.get(); std::string l; std::getline(in, l); known[l] += n; }
            else if (k == "S") { in.get(); std::string l; std::getline(in, l); samples.push_back(l); }
        }
    };

    static std::string one_line(std::string s) {
        std::string o;
        for (char c : s) { if (c == '\n') o += " | "; else o += c; }
        return o;
    }

    [[noreturn]] static void worker(const Target &t, std::uint64_t seed, std::uint64_t total, Shared *sh, int w,
            const std::string &out, clock_type::time_point deadline, const std::set<std::string> &listed) {
        limits(t.cpu_limit_s);
        quiet("");
        Stats st;
        std::vector<std::uint64_t> hashes;
        std::ofstream f(out);
        auto flush = [&] {
            f << "C " << st.cases << ' ' << st.discarded << ' ' << st.nontrivial << "\n";
            for (auto h : hashes) f << "H " << h << "\n";
            for (auto &p : st.labels) f << "L " << p.second << ' ' << p.first << "\n";
            for (auto &p : st.counts) f << "N " << p.second << ' ' << p.first << "\n";
            for (auto &p : st.known) f << "K " << p.second << ' ' << p.first << "\n";
            for (auto &s : st.samples) f << "S " << s << "\n";
            f.flush();
        };
        std::vector<std::uint64_t> history;
        int code = 0;
        while (not sh->stop.load() and clock_type::now() < deadline) {
            std::uint64_t i = sh->next.fetch_add(1);
            if (i >= total) break;
            sh->w[w].current = i;
            sh->w[w].running = 1;
            arm(t.cpu_limit_s);
            Src src{case_seed(seed, t, i)};
            Ctx ctx{src};
            const Outcome o = run_case(t, ctx);
            sh->w[w].running = 0;
            st.cases++;
            history.push_back(i);
            bool failed = o.kind == Outcome::FAIL;
            if (o.kind == Outcome::DISCARD) st.discarded++;
            else if (o.kind == Outcome::KNOWN) {
                if (listed.contains(o.known_id)) st.known[o.known_id]++;
                else failed = true;
            }
            if (failed) {
                std::uint64_t expected = 0;
                sh->stop.compare_exchange_strong(expected, i + 1);
                std::ofstream ff(out + ".fail");
                ff << i << "\n";
                for (auto h : history) ff << h << ' ';
                ff << "\n" << one_line(o.message) << "\n" << one_line(ctx.text()) << "\n";
                code = 3;
                break;
            }
            if (o.kind == Outcome::PASS) {
                for (auto &l : ctx.labels()) st.labels[l]++;
                for (auto &p : ctx.counts()) st.counts[p.first] += p.second;
                if (ctx.is_nontrivial()) {
                    st.nontrivial++;
                    hashes.push_back(hash_tape(src.used()));
                    if (st.samples.size() < 2) st.samples.push_back(one_line(ctx.text().substr(0, 1500)));
                }
            }
        }
        arm(0);
        flush();
        f.close();
        if (not g_scratch.empty()) { std::error_code ec; fs::remove_all(g_scratch, ec); }
        _exit(code);
    }

    struct Attempt {
        bool failed{false};
        std::string message, text;
        std::vector<std::uint64_t> tape;
    };

    // runs one tape (after the cases of `prefix`, if any) in a fresh process
    static Attempt attempt(const Target &t, const std::vector<std::uint64_t> *tape, std::uint64_t seed,
            std::uint64_t index, const std::vector<std::uint64_t> &prefix, const std::set<std::string> &listed) {
        const std::string out = g_root + "/attempt.out", err = g_root + "/attempt.err";
        std::error_code ec;
        fs::remove(out, ec);
        pid_t p = fork();
        if (p == 0) {
            limits(t.cpu_limit_s);
            quiet(err);
            for (auto i : prefix) {
                arm(t.cpu_limit_s);
                Src src{case_seed(seed, t, i)};
                Ctx ctx{src};
                (void) run_case(t, ctx);
            }
            arm(t.cpu_limit_s);
            for (unsigned k = 1; k < t.tries; ++k) {
                Src src = tape != nullptr ? Src{*tape} : Src{case_seed(seed, t, index)};
                Ctx ctx{src};
                const Outcome o = run_case(t, ctx);
                if (o.kind != Outcome::FAIL) continue;
                arm(0);
                std::ofstream f(out);
                f << 1 << "\n" << one_line(o.message) << "\n" << one_line(ctx.text()) << "\n";
                for (auto v : src.used()) f << v << ' ';
                f << "\n";
                f.close();
                if (not g_scratch.empty()) fs::remove_all(g_scratch, ec);
                _exit(0);
            }
            Src src = tape != nullptr ? Src{*tape} : Src{case_seed(seed, t, index)};
            Ctx ctx{src};
            const Outcome o = run_case(t, ctx);
            arm(0);
            std::ofstream f(out);
            bool failed = o.kind == Outcome::FAIL or (o.kind == Outcome::KNOWN and not listed.contains(o.known_id));
            f << (failed ? 1 : 0) << "\n" << one_line(o.message) << "\n" << one_line(ctx.text()) << "\n";
            for (auto v : src.used()) f << v << ' ';
            f << "\n";
            f.close();
            if (not g_scratch.empty()) fs::remove_all(g_scratch, ec);
            _exit(0);
        }
        int status = 0;
        while (waitpid(p, &status, 0) < 0 and errno == EINTR) {}
        fs::remove_all(g_root + "/p" + std::to_string(p), ec);
        Attempt a;
        if (WIFEXITED(status) and WEXITSTATUS(status) == 0) {
            std::ifstream f(out);
            int failed = 0;
            std::string line;
            std::getline(f, line);
            failed = line == "1";
            std::getline(f, a.message);
            std::getline(f, a.text);
            std::getline(f, line);
            std::istringstream in(line);
            for (std::uint64_t v; in >> v;) a.tape.push_back(v);
            a.failed = failed != 0;
        } else {
            a.failed = true;
            std::string tail;
            std::ifstream e(err);
            for (std::string l; std::getline(e, l);) { tail += l + " | "; if (tail.size() > 4000) tail.erase(0, 2000); }
            if (WIFSIGNALED(status)) {
                int sg = WTERMSIG(status);
                a.message = sg == SIGPROF
                        ? "the case used up its CPU budget of " + std::to_string(t.cpu_limit_s) + " s (no termination)"
                        : std::string{"the process was ended by signal "} + std::to_string(sg) + " (" + strsignal(sg) + ")";
            } else a.message = "the process ended with exit code " + std::to_string(WEXITSTATUS(status));
            if (not tail.empty()) a.message += "; stderr: " + tail.substr(0, 1500);
            if (tape != nullptr) a.tape = *tape;
            else if (index != ~0ull) {
                // the tape is what a recording run draws until it dies: regenerate it lazily from a recording child
                a.tape.clear();
            }
        }
        return a;
    }

    // the tape of a crashing case: draw it in a child that writes every drawn value through a shared buffer
    static std::vector<std::uint64_t> record_tape(std::uint64_t seed, const Target &t, std::uint64_t index) {
        // generation only depends on the bounds asked for, which a crashing child cannot report; instead the raw
        // 64-bit stream is stored: drawing `raw % bound` from it gives the same values
        std::vector<std::uint64_t> raw;
        std::uint64_t state = case_seed(seed, t, index);
        for (int i = 0; i < 20000; ++i) {
            std::uint64_t z = (state += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            raw.push_back(z ^ (z >> 31));
        }
        return raw;
    }

    static std::vector<std::uint64_t> shrink(const Target &t, std::vector<std::uint64_t> best, double budget_s,
            const std::set<std::string> &listed) {
        const auto until = clock_type::now() + std::chrono::duration<double>(budget_s);
        int tries = 0;
        auto ok = [&] { return clock_type::now() < until and tries < 3000; };
        auto accept = [&](const std::vector<std::uint64_t> &cand) {
            tries++;
            Attempt a = attempt(t, &cand, 0, 0, {}, listed);
            if (not a.failed) return false;
            std::vector<std::uint64_t> n = a.tape;
            while (not n.empty() and n.back() == 0) n.pop_back();
            if (n.size() > cand.size()) n = cand;
            if (n.size() < best.size() or (n.size() == best.size() and n < best)) { best = n; return true; }
            return false;
        };
        // shorten
        for (std::size_t len = best.size() / 2; len > 0 and ok(); len /= 2) {
            while (best.size() > len and ok()) {
                std::vector<std::uint64_t> c(best.begin(), best.end() - static_cast<std::ptrdiff_t>(len));
                if (not accept(c)) break;
            }
        }
        bool progress = true;
        while (progress and ok()) {
            progress = false;
            for (std::size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
                for (std::size_t at = 0; at + len <= best.size() and ok();) {
                    std::vector<std::uint64_t> c = best;
                    c.erase(c.begin() + static_cast<std::ptrdiff_t>(at), c.begin() + static_cast<std::ptrdiff_t>(at + len));
                    if (accept(c)) { progress = true; continue; }
                    c = best;
                    bool any = false;
                    for (std::size_t i = at; i < at + len; ++i) { any |= c[i] != 0; c[i] = 0; }
                    if (any and accept(c)) progress = true;
                    at += len;
                }
            }
            for (std::size_t at = 0; at < best.size() and ok(); ++at) {
                std::uint64_t lo = 0, hi = best[at];
                while (lo < hi and ok()) {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    std::vector<std::uint64_t> c = best;
                    if (at >= c.size()) break;
                    c[at] = mid;
                    if (accept(c)) { hi = mid; progress = true; } else lo = mid + 1;
                }
            }
        }
        return best;
    }

    static void write_replay(const std::string &path, const std::string &property, const Target &t, std::uint64_t seed,
            const std::vector<std::uint64_t> &tape, const std::vector<std::uint64_t> &prefix, std::uint64_t index,
            const Attempt &a) {
        fs::create_directories(fs::path(path).parent_path());
        std::ofstream f(path);
        f << "property " << property << "\ntarget " << t.name << "\nseed " << seed << "\nindex " << index << "\nprefix";
        for (auto i : prefix) f << ' ' << i;
        f << "\ntape";
        for (auto v : tape) f << ' ' << v;
        f << "\n# failure: " << a.message << "\n# case: " << a.text << "\n";
    }

    static int replay(Suite &suite, const std::string &path, const std::set<std::string> &listed) {
        std::ifstream f(path);
        std::string line, target;
        std::uint64_t seed = 0, index = 0;
        std::vector<std::uint64_t> tape, prefix;
        while (std::getline(f, line)) {
            std::istringstream in(line);
            std::string k;
            in >> k;
            if (k == "target") in >> target;
            else if (k == "seed") in >> seed;
            else if (k == "index") in >> index;
            else if (k == "prefix") for (std::uint64_t v; in >> v;) prefix.push_back(v);
            else if (k == "tape") for (std::uint64_t v; in >> v;) tape.push_back(v);
        }
        for (auto &t : suite.targets) {
            if (t.name != target) continue;
            Attempt a = prefix.empty() ? attempt(t, &tape, seed, index, {}, listed)
                                       : attempt(t, nullptr, seed, index, prefix, listed);
            std::cout << "case: " << a.text << "\n";
            if (a.failed) {
                std::cout << "failure: " << a.message << "\nVIOLATION property=" << suite.property << " replay=" << path
                        << std::endl;
                return 1;
            }
            std::cout << "the case passes" << std::endl;
            return 0;
        }
        std::cerr << "no target " << target << std::endl;
        return 2;
    }

    static int main_impl(int argc, char **argv) {
        std::map<std::string, std::string> o;
        for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
        Suite suite;
        define(suite);
        const bool thorough = o["--tier"] == "thorough";
        const std::uint64_t seed = o.contains("--seed") ? std::stoull(o["--seed"]) : 1;
        const double budget = o.contains("--budget") ? std::stod(o["--budget"]) : (thorough ? 700 : 240);
        const std::string verif = o.contains("--verif") ? o["--verif"] : ".";
        const unsigned cores = o.contains("--jobs") ? std::stoul(o["--jobs"])
                : std::max(1u, std::min(32u, static_cast<unsigned>(sysconf(_SC_NPROCESSORS_ONLN))));

        std::set<std::string> listed;
        std::map<std::string, std::string> listed_text;
        if (o.contains("--known")) {
            std::ifstream f(o["--known"]);
            for (std::string line; std::getline(f, line);) {
                // known: property=<id> finding=<id> <text>
                std::istringstream in(line);
                std::string k, p, id;
                in >> k >> p >> id;
                if (k == "known:" and p == "property=" + suite.property and id.starts_with("finding=")) {
                    std::string rest; std::getline(in, rest);
                    listed.insert(id.substr(8));
                    listed_text[id.substr(8)] = rest;
                }
            }
        }

        char tmpl[] = "/tmp/pbt.XXXXXX";
        if (mkdtemp(tmpl) == nullptr) { std::perror("mkdtemp"); return 2; }
        g_root = tmpl;
        struct Cleanup {
            pid_t me = getpid();
            ~Cleanup() { if (getpid() == me) { std::error_code ec; fs::remove_all(g_root, ec); } }
        } cleanup;

        if (o.contains("--replay")) return replay(suite, o["--replay"], listed);

        const auto begin = clock_type::now();
        auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::uint64_t evaluations = 0, distinct = 0, discarded = 0, violations = 0;
        std::string rules, samples, per_target;
        std::map<std::string, std::uint64_t> known_hits;
        std::vector<std::string> unstable;
        int rc = 0;

        std::uint64_t weight_left = 0;
        for (auto &t : suite.targets) { (void) t; weight_left++; }
        for (auto &t : suite.targets) {
            if (o.contains("--target") and o["--target"] != t.name) { weight_left--; continue; }
            std::uint64_t total = thorough ? t.thorough : t.quick;
            if (o.contains("--cases")) total = std::stoull(o["--cases"]);
            if (o.contains("--scale")) total = static_cast<std::uint64_t>(std::max(1.0, std::ceil(total * std::stod(o["--scale"]))));
            const double used = std::chrono::duration<double>(clock_type::now() - begin).count();
            const auto deadline = clock_type::now() + std::chrono::duration_cast<clock_type::duration>(
                    std::chrono::duration<double>(std::max(5.0, (budget - used) / static_cast<double>(weight_left) * (weight_left > 1 ? 1.5 : 1.0))));
            weight_left--;
            const auto t0 = clock_type::now();
            Stats all;
            std::uint64_t start_at = 0;
            bool confirmed = false;
            int unstable_here = 0;
            while (not confirmed) {
                sh->next = start_at; sh->stop = 0;
                const unsigned jobs = t.jobs == 0 ? cores : std::min(cores, t.jobs);
                std::map<pid_t, int> pids;
                for (unsigned w = 0; w < jobs; ++w) {
                    sh->w[w].running = 0;
                    pid_t p = fork();
                    if (p == 0) worker(t, seed, total, sh, static_cast<int>(w), g_root + "/w" + std::to_string(w), deadline, listed);
                    pids[p] = static_cast<int>(w);
                }
                std::set<std::uint64_t> failing;
                std::map<std::uint64_t, std::vector<std::uint64_t>> histories;
                std::map<std::uint64_t, std::pair<std::string, std::string>> seen;
                while (not pids.empty()) {
                    int status = 0;
                    pid_t p = waitpid(-1, &status, 0);
                    if (p < 0) { if (errno == EINTR) continue; break; }
                    if (not pids.contains(p)) continue;
                    int w = pids[p];
                    pids.erase(p);
                    std::error_code ec;
                    fs::remove_all(g_root + "/p" + std::to_string(p), ec);
                    const std::string base = g_root + "/w" + std::to_string(w);
                    std::ifstream f(base);
                    for (std::string l; std::getline(f, l);) all.merge_line(l);
                    if (WIFEXITED(status) and WEXITSTATUS(status) == 3) {
                        std::ifstream ff(base + ".fail");
                        std::uint64_t i; ff >> i;
                        std::string l; std::getline(ff, l); std::getline(ff, l);
                        std::istringstream in(l);
                        for (std::uint64_t h; in >> h;) if (h != i) histories[i].push_back(h);
                        std::getline(ff, seen[i].first);
                        std::getline(ff, seen[i].second);
                        failing.insert(i);
                    } else if (WIFSIGNALED(status) or (WIFEXITED(status) and WEXITSTATUS(status) != 0)) {
                        sh->stop = 1;
                        if (sh->w[w].running) failing.insert(sh->w[w].current);
                        else { std::cerr << "a worker died outside a case" << std::endl; failing.insert(sh->w[w].current); }
                    }
                    fs::remove(base, ec);
                    fs::remove(base + ".fail", ec);
                }
                const std::uint64_t reached = std::min<std::uint64_t>(sh->next, total);
                if (failing.empty()) break;
                for (auto i : failing) {
                    int hits = 0;
                    Attempt a;
                    for (int k = 0; k < 3; ++k) {
                        Attempt b = attempt(t, nullptr, seed, i, {}, listed);
                        if (b.failed) { hits++; a = b; }
                    }
                    std::vector<std::uint64_t> prefix, tape;
                    if (t.tries > 1 and hits < 3) {
                        if (hits == 0 and seen.contains(i)) a.failed = true, a.message = seen[i].first + " (not in every run)", a.text = seen[i].second;
                        if (a.failed) hits = 3, tape = a.tape.empty() ? record_tape(seed, t, i) : a.tape;
                    } else if (hits == 3) {
                        tape = a.tape.empty() ? record_tape(seed, t, i) : a.tape;
                        Attempt c = attempt(t, &tape, 0, 0, {}, listed);
                        if (c.failed) {
                            tape = shrink(t, tape, thorough ? 120 : 60, listed);
                            a = attempt(t, &tape, 0, 0, {}, listed);
                        } else { prefix = {}; tape.clear(); }
                    } else if (not histories[i].empty()) {
                        // the failure may need what ran before it in the same process
                        prefix = histories[i];
                        if (prefix.size() > 3000) prefix.erase(prefix.begin(), prefix.end() - 3000);
                        hits = 0;
                        for (int k = 0; k < 3; ++k) {
                            Attempt b = attempt(t, nullptr, seed, i, prefix, listed);
                            if (b.failed) { hits++; a = b; }
                        }
                    }
                    if (hits != 3) {
                        unstable.push_back(t.name + " case " + std::to_string(i));
                        std::cerr << "case " << i << " of " << t.name << " failed once but not again, not reported: " << seen[i].first.substr(0, 300) << std::endl;
                        unstable_here++;
                        continue;
                    }
                    const std::string path = verif + "/replays/" + suite.property + "-" + t.name + ".replay";
                    write_replay(path, suite.property, t, seed, tape, prefix, i, a);
                    std::cout << "failure in " << t.name << ": " << a.message << "\ncase: " << a.text.substr(0, 3000) << "\n";
                    std::cout << "VIOLATION property=" << suite.property << " replay=" << path << std::endl;
                    violations++;
                    rc = 1;
                    confirmed = true;
                    break;
                }
                if (not confirmed) {
                    start_at = reached;
                    if (start_at >= total or unstable_here > 20 or clock_type::now() > deadline) break;
                }
            }
            evaluations += all.cases;
            discarded += all.discarded;
            distinct += all.hashes.size();
            for (auto &p : all.known) known_hits[p.first] += p.second;
            if (not rules.empty()) rules += " ";
            rules += "[" + t.name + "] " + t.rule;
            for (std::size_t i = 0; i < all.samples.size() and i < 2; ++i)
                samples += std::string(samples.empty() ? "" : ",\n    ") + "\"" + json_escape("[" + t.name + "] " + all.samples[i]) + "\"";
            per_target += std::string(per_target.empty() ? "" : ",\n    ") + "{\"target\": \"" + json_escape(t.name) + "\", \"cases\": "
                    + std::to_string(all.cases) + ", \"planned\": " + std::to_string(total) + ", \"discarded\": " + std::to_string(all.discarded) + ", \"nontrivial\": "
                    + std::to_string(all.nontrivial) + ", \"distinct_nontrivial\": " + std::to_string(all.hashes.size())
                    + ", \"labels\": {";
            bool first = true;
            for (auto &p : all.labels) {
                per_target += std::string(first ? "" : ", ") + "\"" + json_escape(p.first) + "\": " + std::to_string(p.second);
                first = false;
            }
            per_target += "}, \"counts\": {";
            first = true;
            for (auto &p : all.counts) {
                per_target += std::string(first ? "" : ", ") + "\"" + json_escape(p.first) + "\": " + std::to_string(p.second);
                first = false;
            }
            per_target += "}}";
            std::cout << "[" << suite.property << "] " << t.name << ": " << all.cases << " of " << total << " cases, "
                    << all.hashes.size() << " distinct non-trivial, "
                    << std::chrono::duration<double>(clock_type::now() - t0).count() << " s" << std::endl;
            if (o.contains("--verbose")) {
                for (auto &p : all.labels) std::cout << "    label " << p.first << ": " << p.second << "\n";
                for (auto &p : all.counts) std::cout << "    count " << p.first << ": " << p.second << "\n";
            }
            if (rc != 0) break;
        }

        for (auto &k : suite.known) {
            if (not listed.contains(k.id)) continue;
            pid_t p = fork();
            if (p == 0) {
                limits(60);
                quiet("");
                arm(60);
                bool r = true;
                try { r = k.still_fails(); } catch (...) {}
                if (not g_scratch.empty()) { std::error_code ec; fs::remove_all(g_scratch, ec); }
                _exit(r ? 7 : 0);
            }
            int status = 0;
            waitpid(p, &status, 0);
            if (not(WIFEXITED(status) and WEXITSTATUS(status) == 0))
                std::cout << "KNOWN-FINDING: property=" << suite.property << " " << k.id << listed_text[k.id] << std::endl;
        }

        const double wall = std::chrono::duration<double>(clock_type::now() - begin).count();
        if (o.contains("--evidence")) {
            std::ofstream f(o["--evidence"]);
            f << "{\n  \"property\": \"" << suite.property << "\",\n  \"tier\": \"" << (thorough ? "thorough" : "quick")
                    << "\",\n  \"seed\": " << seed << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": "
                    << evaluations << ",\n    \"distinct_nontrivial\": " << distinct << ",\n    \"discarded\": " << discarded
                    << ",\n    \"rule\": \"" << json_escape(rules) << "\",\n    \"samples\": [" << samples << "],\n    \"targets\": ["
                    << per_target << "],\n    \"known_finding_cases\": {";
            bool first = true;
            for (auto &p : known_hits) { f << (first ? "" : ", ") << "\"" << json_escape(p.first) << "\": " << p.second; first = false; }
            f << "},\n    \"unstable\": [";
            first = true;
            for (auto &u : unstable) { f << (first ? "" : ", ") << "\"" << json_escape(u) << "\""; first = false; }
            f << "]\n  },\n  \"assumptions\": [";
            first = true;
            for (auto &a : suite.assumptions) { f << (first ? "" : ", ") << "\"" << json_escape(a) << "\""; first = false; }
            f << "],\n  \"wall_s\": " << wall << ",\n  \"violations\": " << violations << "\n}\n";
        }
        return rc;
    }

}

int main(int argc, char **argv) {
    std::setvbuf(stdout, nullptr, _IOLBF, 0);
    return pbt::main_impl(argc, argv);
}
