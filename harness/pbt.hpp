// A small property-based-testing engine (C++20, POSIX only).
//
// * A property is a function over a stream of choices (Src). A random case draws them from a generator seeded with
//   (VERIF_SEED, clause, case number); a replay feeds a recorded list. Shrinking edits the recorded list (delete
//   blocks, zero, halve, decrement), so that every generator shrinks without code of its own. 0 is the simplest choice.
// * Cases run in forked workers. A case that ends its worker (signal, abort, sanitizer report, CPU limit) is a failure
//   of that case like any other one; shrinking runs every attempt in a child of its own.
// * A failure is replayed three times before it is reported.
//
// Exit status: 0 nothing found, 1 a failure was found, reproduced and written to the replay file, 3 engine trouble.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));  // there in a sanitized build

namespace pbt {

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_str(const std::string& s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return mix(h ^ s.size());
}

struct Failure {
    std::string message;
};

// Thrown to drop a case that the generator cannot complete; counted, and kept rare by construction.
struct Discard {};

class Src {
    bool replay_ = false;
    std::vector<std::uint64_t> given_;
    std::size_t pos_ = 0;
    std::uint64_t state_ = 0;

public:
    std::vector<std::uint64_t> taken;

    static Src random(std::uint64_t seed, std::vector<std::uint64_t> prefix = {}) {
        Src s;
        s.state_ = seed;
        s.given_ = std::move(prefix);
        return s;
    }
    static Src from(std::vector<std::uint64_t> choices) {
        Src s;
        s.replay_ = true;
        s.given_ = std::move(choices);
        return s;
    }

    // A choice in [0, n). n == 0 stands for 2^64.
    std::uint64_t draw(std::uint64_t n) {
        std::uint64_t v = 0;
        if (pos_ < given_.size()) {
            v = given_[pos_++];
            if (n != 0 && v >= n) {
                v = n - 1;
            }
        } else if (!replay_) {
            state_ += 0x9e3779b97f4a7c15ULL;
            std::uint64_t r = mix(state_);
            v = n == 0 ? r : static_cast<std::uint64_t>((static_cast<unsigned __int128>(r) * n) >> 64);
        }
        if (replay_ && taken.size() > given_.size() + 300000) {
            throw Discard{};  // a generator that waits for another choice than 0
        }
        taken.push_back(v);
        return v;
    }
    bool flip() { return draw(2) != 0; }
    // True with probability num/den; 0 (false) is the simple choice.
    bool chance(std::uint64_t num, std::uint64_t den) { return draw(den) >= den - num; }
    std::int64_t range(std::int64_t lo, std::int64_t hi) {  // inclusive
        return static_cast<std::int64_t>(
            static_cast<std::uint64_t>(lo) + draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1));
    }
    std::size_t index(std::size_t n) { return static_cast<std::size_t>(draw(n)); }
    template <class C>
    auto pick(const C& c) -> const typename C::value_type& {
        return c[index(c.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> c) {
        return *(c.begin() + index(c.size()));
    }
    // Weighted alternatives: returns the index of the one chosen.
    std::size_t weighted(std::initializer_list<unsigned> w) {
        std::uint64_t total = 0;
        for (auto x : w) {
            total += x;
        }
        auto v = draw(total);
        std::size_t i = 0;
        for (auto x : w) {
            if (v < x) {
                return i;
            }
            v -= x;
            ++i;
        }
        return 0;
    }
    // A length in [0, max], geometric-like with a uniform tail, so that both short and long ones occur.
    std::size_t length(std::size_t max) {
        auto kind = draw(4);
        if (kind <= 1) {
            return index(std::min<std::size_t>(max, 4) + 1);
        }
        if (kind == 2) {
            return index(std::min<std::size_t>(max, 12) + 1);
        }
        return index(max + 1);
    }
};

struct Case {
    bool nontrivial = false;
    std::string show;                  // the case, written out; also its identity for the distinct count
    std::vector<std::string> labels;  // classification counters
    void label(const std::string& s) { labels.push_back(s); }
};

using Fn = std::function<void(Src&, Case&)>;

struct Clause {
    std::string name;
    Fn fn;
    std::uint64_t quick = 1000;
    std::uint64_t thorough = 10000;
    // If not 0: case number i is given i % enumerate as its first choice (which must be drawn with this bound), so that
    // a run of at least that many cases covers it completely.
    std::uint64_t enumerate = 0;
};

[[noreturn]] inline void fail(const std::string& m) {
    throw Failure{ m };
}

inline std::string quote(const std::string& s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            std::snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

#define PBT_CHECK(cond, msg)                       \
    do {                                           \
        if (!(cond)) {                             \
            std::ostringstream pbt_o_;             \
            pbt_o_ << msg;                         \
            ::pbt::fail(pbt_o_.str());             \
        }                                          \
    } while (0)

// ---------------------------------------------------------------------------------------------------------------------

inline std::string json_string(const std::string& s) {
    std::string r = "\"";
    char buf[8];
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c == 0x7f) {
            std::snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        } else if (c < 0x80) {
            r += static_cast<char>(c);
        } else {
            // Bytes of no valid UTF-8 sequence would make the file unreadable: written as text \xNN.
            std::size_t n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0;
            bool ok = n != 0 && c <= 0xf4 && i + n <= s.size();
            for (std::size_t k = 1; ok && k < n; ++k) {
                ok = (static_cast<unsigned char>(s[i + k]) & 0xc0) == 0x80;
            }
            if (ok && n == 3) {
                auto d = static_cast<unsigned char>(s[i + 1]);
                ok = !(c == 0xe0 && d < 0xa0) && !(c == 0xed && d >= 0xa0);
            } else if (ok && n == 4) {
                auto d = static_cast<unsigned char>(s[i + 1]);
                ok = !(c == 0xf0 && d < 0x90) && !(c == 0xf4 && d >= 0x90);
            }
            if (ok) {
                r += s.substr(i, n);
                i += n - 1;
            } else {
                std::snprintf(buf, sizeof buf, "\\\\x%02x", c);
                r += buf;
            }
        }
    }
    return r + "\"";
}

struct Outcome {
    enum Kind { ok, discarded, failed } kind = ok;
    std::string message;
    Case c;
    std::vector<std::uint64_t> choices;
};

inline Outcome run_case(const Fn& fn, Src src) {
    Outcome o;
    try {
        fn(src, o.c);
    } catch (const Failure& f) {
        o.kind = Outcome::failed;
        o.message = f.message;
    } catch (const Discard&) {
        o.kind = Outcome::discarded;
    } catch (const std::exception& e) {
        o.kind = Outcome::failed;
        o.message = std::string{ "unexpected exception: " } + e.what();
    } catch (...) {
        o.kind = Outcome::failed;
        o.message = "unexpected exception that is not a std::exception";
    }
    o.choices = std::move(src.taken);
    return o;
}

struct Progress {  // shared memory, one per worker
    std::atomic<std::uint64_t> clause, number, busy, hang;
};

inline Progress* g_progress = nullptr;
inline int g_cpu_limit = 60;  // seconds of CPU time for one case
inline std::size_t g_mem_mb = 0;

inline void on_cpu_limit(int) {
    if (g_progress) {
        g_progress->hang = 1;
    }
    _exit(99);
}

inline void arm(int seconds) {
    struct itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline void child_setup() {
    signal(SIGPROF, on_cpu_limit);
    struct rlimit core{ 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
    if (g_mem_mb) {
        struct rlimit as{ g_mem_mb << 20, g_mem_mb << 20 };
        setrlimit(RLIMIT_AS, &as);
    }
}

inline std::string describe_status(int status, bool hang) {
    if (hang || (WIFEXITED(status) && WEXITSTATUS(status) == 99)) {
        return "did not terminate within " + std::to_string(g_cpu_limit) + " s of CPU time";
    }
    if (WIFSIGNALED(status)) {
        return std::string{ "crashed: signal " } + std::to_string(WTERMSIG(status)) + " (" +
            strsignal(WTERMSIG(status)) + ")";
    }
    return "ended the process with status " + std::to_string(WEXITSTATUS(status));
}

inline void write_all(int fd, const std::string& s) {
    std::size_t off = 0;
    while (off < s.size()) {
        auto n = write(fd, s.data() + off, s.size() - off);
        if (n <= 0) {
            return;
        }
        off += static_cast<std::size_t>(n);
    }
}

// Runs one case in a child. Returns true if it failed; message and written-out case are filled in.
inline bool fails_in_one_child(const Fn& fn, std::vector<std::uint64_t>& choices, std::string& message, std::string& show,
    int cpu_limit) {
    int fds[2];
    if (pipe(fds) != 0) {
        return false;
    }
    FILE* err = tmpfile();
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        child_setup();
        g_progress = nullptr;
        dup2(err ? fileno(err) : open("/dev/null", O_WRONLY), 2);
        arm(cpu_limit);
        auto src = Src::from(choices);
        auto o = run_case(fn, std::move(src));
        std::ostringstream out;
        out << (o.kind == Outcome::failed ? 'F' : 'P') << o.choices.size() << ' ';
        for (auto c : o.choices) {
            out << c << ' ';
        }
        out << o.message.size() << ' ' << o.message << o.c.show;
        write_all(fds[1], out.str());
        _exit(0);
    }
    close(fds[1]);
    std::string data;
    char buf[65536];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) {
        data.append(buf, static_cast<std::size_t>(n));
    }
    close(fds[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    std::string said;
    if (err) {
        rewind(err);
        auto k = fread(buf, 1, sizeof buf, err);
        said.assign(buf, std::min<std::size_t>(k, 700));
        fclose(err);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !data.empty()) {
        std::istringstream in{ data.substr(1) };
        std::size_t k = 0, m = 0;
        in >> k;
        std::vector<std::uint64_t> used(k);
        for (auto& u : used) {
            in >> u;
        }
        in >> m;
        in.get();
        std::string rest{ std::istreambuf_iterator<char>(in), {} };
        message = rest.substr(0, m);
        show = rest.substr(std::min(m, rest.size()));
        if (data[0] == 'F') {
            choices = used;
            return true;
        }
        return false;
    }
    message = describe_status(status, false) + (said.empty() ? "" : ": " + said);
    show = "(see choices)";
    return true;
}

// A case with threads may need a few attempts.
inline int g_attempts = 1;
inline bool fails_in_child(const Fn& fn, std::vector<std::uint64_t>& choices, std::string& message, std::string& show,
    int cpu_limit) {
    for (int k = 0; k < g_attempts; ++k) {
        auto used = choices;
        if (fails_in_one_child(fn, used, message, show, cpu_limit)) {
            choices = used;
            return true;
        }
    }
    return false;
}

// Runs cases one after the other in one child, as a worker does. Returns true if one failed; says which.
struct Step {
    const Fn* fn;
    std::function<Src()> source;
};
inline bool history_fails(const std::vector<Step>& steps, std::size_t& which, std::string& message, std::string& show, int cpu_limit) {
    int fds[2];
    if (pipe(fds) != 0) {
        return false;
    }
    auto* at = static_cast<std::size_t*>(mmap(nullptr, sizeof(std::size_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        child_setup();
        g_progress = nullptr;
        dup2(open("/dev/null", O_WRONLY), 2);
        for (std::size_t i = 0; i < steps.size(); ++i) {
            *at = i;
            arm(cpu_limit);
            auto o = run_case(*steps[i].fn, steps[i].source());
            if (o.kind == Outcome::failed) {
                write_all(fds[1], "F" + std::to_string(o.message.size()) + " " + o.message + o.c.show);
                _exit(0);
            }
        }
        write_all(fds[1], "P");
        _exit(0);
    }
    close(fds[1]);
    std::string data;
    char buf[65536];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) {
        data.append(buf, static_cast<std::size_t>(n));
    }
    close(fds[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    which = *at;
    munmap(at, sizeof(std::size_t));
    if (data == "P") {
        return false;
    }
    if (!data.empty() && data[0] == 'F') {
        std::istringstream in{ data.substr(1) };
        std::size_t m = 0;
        in >> m;
        in.get();
        std::string rest{ std::istreambuf_iterator<char>(in), {} };
        message = rest.substr(0, m);
        show = rest.substr(std::min(m, rest.size()));
        return true;
    }
    message = describe_status(status, false);
    show = "(see the case number)";
    return true;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return a < b;
}

inline void shrink(const Fn& fn, std::vector<std::uint64_t>& best, std::string& message, std::string& show,
    double budget, int cpu_limit) {
    double end = now() + budget;
    const bool hangs = message.find("did not terminate") != std::string::npos;
    auto attempt = [&](std::vector<std::uint64_t> cand) {
        if (now() > end) {
            return false;
        }
        std::string m, s;
        auto used = cand;
        if (!fails_in_child(fn, used, m, s, cpu_limit)) {
            return false;
        }
        if (!hangs && m.find("did not terminate") != std::string::npos) {
            return false;
        }
        auto& smaller = simpler(used, cand) ? used : cand;
        if (!simpler(smaller, best)) {
            return false;
        }
        best = smaller;
        message = m;
        show = s;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (std::size_t block = std::max<std::size_t>(1, best.size() / 2); block >= 1 && now() < end; block /= 2) {
            for (std::size_t i = 0; i + block <= best.size() && now() < end;) {
                auto cand = best;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i),
                    cand.begin() + static_cast<std::ptrdiff_t>(i + block));
                if (attempt(cand)) {
                    progress = true;
                } else {
                    i += block;
                }
            }
        }
        // A shorter list: one less at the choice that looks like a length, and one element's choices removed.
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            bool again = true;
            while (again && i < best.size() && best[i] > 0 && now() < end) {
                again = false;
                for (std::size_t block = 1; block <= 6 && !again; ++block) {
                    for (std::size_t j = i + 1; j + block <= best.size() && j < i + 40 && !again && now() < end; ++j) {
                        auto cand = best;
                        cand[i] -= 1;
                        cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(j),
                            cand.begin() + static_cast<std::ptrdiff_t>(j + block));
                        again = attempt(cand);
                    }
                }
                progress |= again;
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            while (i < best.size() && best[i] > 0 && now() < end) {
                auto cand = best;
                cand[i] = 0;
                if (attempt(cand)) {
                    progress = true;
                    break;
                }
                cand = best;
                cand[i] /= 2;
                if (attempt(cand)) {
                    progress = true;
                    continue;
                }
                cand = best;
                cand[i] -= 1;
                if (attempt(cand)) {
                    progress = true;
                    continue;
                }
                break;
            }
        }
    }
}

struct Tally {
    std::uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
};

struct Options {
    std::uint64_t seed = 1;
    std::string tier = "quick";
    std::string stats, replay_out, replay_in, property = "?";
    unsigned workers = 8;
    double seconds = 0;  // wall-clock cap for generating; 0: none. Reaching it ends the run, it is never a violation.
    std::string only;
    double scale = 1.0;
};

inline int run(int argc, char** argv, const std::string& property, const std::string& rule,
    std::vector<Clause> clauses) {
    Options opt;
    opt.property = property;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") opt.seed = std::stoull(val());
        else if (a == "--tier") opt.tier = val();
        else if (a == "--stats") opt.stats = val();
        else if (a == "--replay-out") opt.replay_out = val();
        else if (a == "--replay") opt.replay_in = val();
        else if (a == "--workers") opt.workers = static_cast<unsigned>(std::stoul(val()));
        else if (a == "--seconds") opt.seconds = std::stod(val());
        else if (a == "--only") opt.only = val();
        else if (a == "--scale") opt.scale = std::stod(val());
        else if (a == "--mem-mb") g_mem_mb = std::stoull(val());
        else if (a == "--attempts") g_attempts = std::stoi(val());
        else if (a == "--cpu-limit") g_cpu_limit = std::stoi(val());
        else {
            std::cerr << "unknown option " << a << "\n";
            return 3;
        }
    }

    auto seed_of = [&](const Clause& c, std::uint64_t i) { return mix(mix(opt.seed) ^ hash_str(c.name) ^ mix(i * 2 + 1)); };
    auto source_of = [&](const Clause& c, std::uint64_t i) {
        return Src::random(seed_of(c, i),
            c.enumerate ? std::vector<std::uint64_t>{ i % c.enumerate } : std::vector<std::uint64_t>{});
    };
    using Number = std::pair<std::size_t, std::uint64_t>;  // of a clause, and of a case of it
    auto steps_of = [&](const std::vector<Number>& l) {
        std::vector<Step> r;
        for (auto& [k, i] : l) {
            r.push_back({ &clauses[k].fn, [&source_of, &clauses, k = k, i = i] { return source_of(clauses[k], i); } });
        }
        return r;
    };

    // Replay of a recorded case: "clause" and "choices" are all that is read; or "seed" and "after", cases that fail
    // only when run one after the other; or "worker", one that has to do all of its cases again.
    int rerun_worker = -1;
    if (!opt.replay_in.empty()) {
        std::ifstream in{ opt.replay_in };
        std::string text{ std::istreambuf_iterator<char>(in), {} };
        if (auto ap = text.find("\"after\": ["); ap != std::string::npos) {
            auto sp = text.find("\"seed\": ");
            opt.seed = sp == std::string::npos ? opt.seed : std::stoull(text.substr(sp + 8));
            ap += 10;
            auto list = text.substr(ap, text.find(']', ap) - ap);
            std::replace(list.begin(), list.end(), ',', ' ');
            std::istringstream ls{ list };
            std::vector<Number> numbers;
            for (std::uint64_t k, i; ls >> k >> i;) {
                if (k >= clauses.size()) {
                    std::cerr << "no such clause\n";
                    return 3;
                }
                numbers.emplace_back(k, i);
            }
            std::size_t which = 0;
            std::string m, s;
            bool f = history_fails(steps_of(numbers), which, m, s, g_cpu_limit);
            std::cout << (f ? "FAILS " : "passes ") << "after " << which << " cases\n  case: " << s << "\n  " << m << "\n";
            return f ? 1 : 0;
        }
        auto number_at = [&](const std::string& key) {
            auto at = text.find("\"" + key + "\": ");
            return at == std::string::npos ? 0 : std::stod(text.substr(at + key.size() + 4));
        };
        if (text.find("\"worker\": ") != std::string::npos) {
            opt.seed = static_cast<std::uint64_t>(number_at("seed"));
            opt.tier = text.find("\"tier\": \"thorough\"") != std::string::npos ? "thorough" : "quick";
            opt.workers = static_cast<unsigned>(number_at("workers"));
            opt.scale = number_at("scale");
            opt.seconds = 0;
            rerun_worker = static_cast<int>(number_at("worker"));
        }
        auto cp = text.find("\"clause\": \"");
        auto ch = text.find("\"choices\": [");
        if (rerun_worker < 0 && (cp == std::string::npos || ch == std::string::npos)) {
            std::cerr << "not a replay file: " << opt.replay_in << "\n";
            return 3;
        }
        cp += 11;
        auto name = text.substr(cp, text.find('"', cp) - cp);
        ch += 12;
        auto list = text.substr(ch, text.find(']', ch) - ch);
        std::replace(list.begin(), list.end(), ',', ' ');
        std::istringstream ls{ list };
        std::vector<std::uint64_t> choices;
        for (std::uint64_t v; ls >> v;) {
            choices.push_back(v);
        }
        for (auto& c : clauses) {
            if (rerun_worker < 0 && c.name == name) {
                std::string m, s;
                bool f = fails_in_child(c.fn, choices, m, s, g_cpu_limit);
                std::cout << (f ? "FAILS " : "passes ") << name << "\n  case: " << s << "\n  " << m << "\n";
                return f ? 1 : 0;
            }
        }
        if (rerun_worker < 0) {
            std::cerr << "no clause named " << name << "\n";
            return 3;
        }
    }

    bool thorough = opt.tier == "thorough";
    double t0 = now();
    double end = opt.seconds > 0 ? t0 + opt.seconds : 0;
    unsigned W = std::max(1u, opt.workers);
    auto* prog = static_cast<Progress*>(
        mmap(nullptr, sizeof(Progress) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto count_of = [&](const Clause& c) {
        auto n = static_cast<std::uint64_t>(static_cast<double>(thorough ? c.thorough : c.quick) * opt.scale);
        n = std::max<std::uint64_t>(n, 1);
        return c.enumerate ? std::max<std::uint64_t>(n, c.enumerate) : n;
    };

    struct Found {
        std::size_t clause;
        std::uint64_t number;
        std::string message;
    };
    std::vector<Found> found;
    std::map<std::string, Tally> tallies;
    bool capped = false;
    std::vector<pid_t> pids(W);
    std::vector<FILE*> files(W);
    std::cout.flush();
    // All that one worker does. It does not return.
    auto work = [&](unsigned w) {
        child_setup();
        g_progress = &prog[w];
        double slow = getenv("PBT_SLOW") ? atof(getenv("PBT_SLOW")) : 0;  // a diagnostic: cases that take longer, in seconds of CPU time
        FILE* f = files[w];
        std::ostringstream out;
        for (std::size_t k = 0; k < clauses.size(); ++k) {
            auto& c = clauses[k];
            if (!opt.only.empty() && c.name != opt.only) {
                continue;
            }
            Tally t;
            bool stop = false;
            auto n = count_of(c);
            for (std::uint64_t i = w; i < n; i += W) {
                if (end > 0 && now() > end) {
                    out << "C\n";
                    break;
                }
                prog[w].clause = k;
                prog[w].number = i;
                prog[w].busy = 1;
                arm(g_cpu_limit);
                auto started = clock();
                auto o = run_case(c.fn, source_of(c, i));
                prog[w].busy = 0;
                if (slow > 0 && static_cast<double>(clock() - started) > slow * CLOCKS_PER_SEC) {
                    fprintf(stderr, "SLOW %s/%s case %llu: %.1f s: %s\n", property.c_str(), c.name.c_str(), static_cast<unsigned long long>(i), static_cast<double>(clock() - started) / CLOCKS_PER_SEC, o.c.show.substr(0, 100).c_str());
                }
                t.evaluations++;
                if (o.kind == Outcome::failed) {
                    out << "F " << k << " " << i << " " << json_string(o.message) << "\n";
                    stop = true;
                    break;
                }
                if (o.kind == Outcome::discarded) {
                    t.discarded++;
                    continue;
                }
                for (auto& l : o.c.labels) {
                    t.labels[l]++;
                }
                if (o.c.nontrivial) {
                    t.nontrivial++;
                    bool fresh = t.distinct.insert(hash_str(c.name + "\n" + o.c.show)).second;
                    if (fresh && t.samples.size() < 2 && (t.samples.empty() || i > n / 2)) {
                        t.samples.push_back(o.c.show.substr(0, 600));
                    }
                }
            }
            out << "T " << k << " " << t.evaluations << " " << t.nontrivial << " " << t.discarded << " "
                << t.distinct.size() << "\n";
            for (auto h : t.distinct) {
                out << "H " << h << "\n";
            }
            for (auto& [l, v] : t.labels) {
                out << "L " << v << " " << l << "\n";
            }
            for (auto& s : t.samples) {
                out << "S " << json_string(s) << "\n";
            }
            if (stop) {
                break;
            }
        }
        arm(0);
        auto s = out.str();
        fwrite(s.data(), 1, s.size(), f);
        fflush(f);
        _exit(0);
    };
    // All that one worker does, once more: what fails, if anything does.
    auto again = [&](unsigned w) {
        std::string message;
        files[w] = tmpfile();
        if (!files[w]) {
            return message;
        }
        prog[w].busy = 0;
        prog[w].hang = 0;
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0) {
            dup2(open("/dev/null", O_WRONLY), 2);
            work(w);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            if (prog[w].busy || prog[w].hang) {
                message = clauses[prog[w].clause].name + ": " + describe_status(status, prog[w].hang);
            }
        } else {
            rewind(files[w]);
            std::string text;
            char buf[65536];
            std::size_t n;
            while ((n = fread(buf, 1, sizeof buf, files[w])) > 0) {
                text.append(buf, n);
            }
            std::istringstream in{ text };
            for (std::string line; std::getline(in, line);) {
                if (line.rfind("F ", 0) == 0) {
                    message = line.substr(2);
                }
            }
        }
        fclose(files[w]);
        return message;
    };
    if (rerun_worker >= 0) {
        auto m = again(static_cast<unsigned>(rerun_worker) % W);
        std::cout << (m.empty() ? "passes" : "FAILS " + m) << "\n";
        return m.empty() ? 0 : 1;
    }
    for (unsigned w = 0; w < W; ++w) {
        files[w] = tmpfile();
        if (!files[w]) {
            std::cerr << "no temporary file\n";
            return 3;
        }
        prog[w].busy = 0;
        prog[w].hang = 0;
        pids[w] = fork();
        if (pids[w] == 0) {
            work(w);
        }
    }
    for (unsigned w = 0; w < W; ++w) {
        int status = 0;
        waitpid(pids[w], &status, 0);
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            if (prog[w].busy || prog[w].hang) {
                found.push_back({ prog[w].clause, prog[w].number, describe_status(status, prog[w].hang) });
            } else {
                std::cerr << "worker ended outside a case: " << describe_status(status, false) << "\n";
                return 3;
            }
            continue;
        }
        rewind(files[w]);
        std::string text;
        char buf[65536];
        std::size_t n;
        while ((n = fread(buf, 1, sizeof buf, files[w])) > 0) {
            text.append(buf, n);
        }
        fclose(files[w]);
        std::istringstream in{ text };
        std::string line;
        Tally* t = nullptr;
        while (std::getline(in, line)) {
            if (line.empty()) {
                continue;
            }
            std::istringstream ls{ line.substr(1) };
            if (line[0] == 'C') {
                capped = true;
            } else if (line[0] == 'F') {
                Found f{};
                ls >> f.clause >> f.number;
                std::getline(ls, f.message);
                found.push_back(f);
            } else if (line[0] == 'T') {
                std::size_t k;
                std::uint64_t e, nt, d, ds;
                ls >> k >> e >> nt >> d >> ds;
                t = &tallies[clauses[k].name];
                t->evaluations += e;
                t->nontrivial += nt;
                t->discarded += d;
            } else if (line[0] == 'H' && t) {
                std::uint64_t h;
                ls >> h;
                t->distinct.insert(h);
            } else if (line[0] == 'L' && t) {
                std::uint64_t v;
                std::string l;
                ls >> v;
                ls.get();
                std::getline(ls, l);
                t->labels[l] += v;
            } else if (line[0] == 'S' && t) {
                ls.get();
                std::string s;
                std::getline(ls, s);
                if (t->samples.size() < 3) {
                    t->samples.push_back(s);
                }
            }
        }
    }

    std::uint64_t evaluations = 0, distinct = 0, discarded = 0;
    for (auto& [name, t] : tallies) {
        evaluations += t.evaluations;
        distinct += t.distinct.size();
        discarded += t.discarded;
    }
    int rc = 0;
    // A case that fails only after others have been run in the same process: something is left of those.
    auto after_others = [&](const Found& f) {
        std::vector<Number> l;
        for (std::size_t k = 0; k <= f.clause; ++k) {
            if (!opt.only.empty() && clauses[k].name != opt.only) {
                continue;
            }
            for (std::uint64_t i = f.number % W; i < count_of(clauses[k]); i += W) {
                l.emplace_back(k, i);
                if (k == f.clause && i == f.number) {
                    break;
                }
            }
        }
        std::size_t which = 0;
        std::string m, s;
        if (!history_fails(steps_of(l), which, m, s, g_cpu_limit)) {
            return false;
        }
        l.resize(which + 1);
        double until = now() + 45;
        auto attempt = [&](std::vector<Number> cand) {
            if (now() > until || cand.empty() || !history_fails(steps_of(cand), which, m, s, g_cpu_limit)) {
                return false;
            }
            cand.resize(which + 1);
            l = cand;
            return true;
        };
        for (std::size_t n = 2; n < l.size(); n *= 4) {
            if (attempt({ l.end() - static_cast<std::ptrdiff_t>(n), l.end() })) {
                break;
            }
        }
        for (std::size_t block = l.size() / 2; block >= 1; block /= 2) {
            for (std::size_t i = 0; i + block < l.size() && now() < until;) {
                auto cand = l;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i), cand.begin() + static_cast<std::ptrdiff_t>(i + block));
                if (!attempt(cand)) {
                    i += block;
                }
            }
        }
        if (!history_fails(steps_of(l), which, m, s, g_cpu_limit)) {
            return false;
        }
        std::ostringstream rep;
        rep << "{\n \"property\": \"" << opt.property << "\",\n \"tier\": \"" << opt.tier << "\",\n \"clause\": \"" << clauses[l.back().first].name << "\",\n \"seed\": "
            << opt.seed << ",\n \"case\": " << json_string(s) << ",\n \"failure\": " << json_string(m)
            << ",\n \"note\": \"fails only after other cases in the same process; clause and number of each, in order:\",\n \"after\": [";
        for (std::size_t j = 0; j < l.size(); ++j) {
            rep << (j ? "," : "") << l[j].first << "," << l[j].second;
        }
        rep << "]\n}\n";
        if (!opt.replay_out.empty()) {
            std::ofstream{ opt.replay_out } << rep.str();
        }
        std::cout << "FAILED clause " << clauses[l.back().first].name << ", after " << l.size() - 1 << " other cases\n  case: " << s << "\n  " << m << "\n";
        return true;
    };
    // A case that fails only in the very process that it failed in, for it depends on what was where in memory: all
    // that its worker did is done once more, and that has to fail again, too.
    int reruns = 0;
    auto all_of_it = [&](const Found& f) {
        auto w = static_cast<unsigned>(f.number % W);
        if (++reruns > 3 || now() - t0 > 400) {
            return false;
        }
        auto m = again(w);
        if (m.empty()) {
            return false;
        }
        std::ostringstream rep;
        rep << "{\n \"property\": \"" << opt.property << "\",\n \"tier\": \"" << opt.tier << "\",\n \"failure\": " << json_string(f.message)
            << ",\n \"note\": \"fails only when all the cases of one worker are run in one process\",\n \"seed\": " << opt.seed << ",\n \"scale\": " << opt.scale
            << ",\n \"workers\": " << W << ",\n \"worker\": " << w << "\n}\n";
        if (!opt.replay_out.empty()) {
            std::ofstream{ opt.replay_out } << rep.str();
        }
        std::cout << "FAILED clause " << clauses[f.clause].name << ", after all the other cases of worker " << w << "\n  " << f.message << "\n";
        return true;
    };
    if (!found.empty()) {
        std::sort(found.begin(), found.end(), [](auto& a, auto& b) {
            return std::tie(a.clause, a.number) < std::tie(b.clause, b.number);
        });
        rc = 3;
        for (auto& f : found) {
            auto& c = clauses[f.clause];
            // Recover the choices: in a child if it crashes, the seed says it all.
            std::vector<std::uint64_t> choices;
            {
                // Run in a child that streams each choice is not needed: the random source is a pure function of the
                // seed, so a long enough list of raw choices is recovered by running the case with a recording source
                // in shared memory.
                std::size_t cap = 1u << 20;
                auto* shm = static_cast<std::uint64_t*>(mmap(nullptr, (cap + 1) * sizeof(std::uint64_t),
                    PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
                shm[0] = 0;
                pid_t pid = fork();
                if (pid == 0) {
                    child_setup();
                    g_progress = nullptr;
                    int devnull = open("/dev/null", O_WRONLY);
                    dup2(devnull, 2);
                    arm(g_cpu_limit);
                    Src src = source_of(c, f.number);
                    struct Copy {
                        Src& s;
                        std::uint64_t* shm;
                        std::size_t cap;
                    };
                    static Src* live = nullptr;
                    static std::uint64_t* mem = nullptr;
                    static std::size_t mem_cap = 0;
                    live = &src;
                    mem = shm;
                    mem_cap = cap;
                    auto dump = [] {
                        auto n = std::min(live->taken.size(), mem_cap);
                        for (std::size_t j = 0; j < n; ++j) {
                            mem[j + 1] = live->taken[j];
                        }
                        mem[0] = n;
                    };
                    static auto* dump_p = +dump;
                    auto handler = [](int) {
                        dump_p();
                        _exit(98);
                    };
                    for (int sig : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF, SIGTRAP }) {
                        signal(sig, handler);
                    }
                    static char stack[1 << 16];
                    stack_t ss{};
                    ss.ss_sp = stack;
                    ss.ss_size = sizeof stack;
                    sigaltstack(&ss, nullptr);
                    struct sigaction sa{};
                    sa.sa_handler = handler;
                    sa.sa_flags = SA_ONSTACK;
                    for (int sig : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF, SIGTRAP }) {
                        sigaction(sig, &sa, nullptr);
                    }
                    std::atexit([] { dump_p(); });
                    if (__sanitizer_set_death_callback) {
                        __sanitizer_set_death_callback(dump_p);
                    }
                    Case cs;
                    try {
                        c.fn(src, cs);
                    } catch (...) {
                    }
                    dump_p();
                    _exit(0);
                }
                int status;
                waitpid(pid, &status, 0);
                choices.assign(shm + 1, shm + 1 + shm[0]);
                munmap(shm, (cap + 1) * sizeof(std::uint64_t));
            }
            std::string m, s;
            auto original = choices;
            if (!fails_in_child(c.fn, choices, m, s, g_cpu_limit)) {
                if (after_others(f) || all_of_it(f)) {
                    rc = 1;
                    break;
                }
                std::cerr << "case " << c.name << "/" << f.number << " did not fail again: " << f.message << "\n";
                continue;
            }
            int shrink_cpu = std::min(g_cpu_limit, 5);
            shrink(c.fn, choices, m, s, 45.0, m.find("did not terminate") != std::string::npos ? g_cpu_limit : shrink_cpu);
            bool again = true;
            for (int r = 0; r < 3 && again; ++r) {
                auto copy = choices;
                again = fails_in_child(c.fn, copy, m, s, g_cpu_limit);
            }
            if (!again) {
                choices = original;
                again = true;
                for (int r = 0; r < 3 && again; ++r) {
                    auto copy = choices;
                    again = fails_in_child(c.fn, copy, m, s, g_cpu_limit);
                }
                if (!again) {
                    std::cerr << "case " << c.name << "/" << f.number << " fails only sometimes: " << f.message << "\n";
                    continue;
                }
            }
            std::ostringstream rep;
            rep << "{\n \"property\": \"" << opt.property << "\",\n \"tier\": \"" << opt.tier << "\",\n \"clause\": \"" << c.name << "\",\n \"seed\": "
                << opt.seed << ",\n \"case_number\": " << f.number << ",\n \"case\": " << json_string(s)
                << ",\n \"failure\": " << json_string(m) << ",\n \"choices\": [";
            for (std::size_t j = 0; j < choices.size(); ++j) {
                rep << (j ? "," : "") << choices[j];
            }
            rep << "]\n}\n";
            if (!opt.replay_out.empty()) {
                std::ofstream{ opt.replay_out } << rep.str();
            }
            std::cout << "FAILED clause " << c.name << "\n  case: " << s << "\n  " << m << "\n";
            rc = 1;
            break;
        }
    }
    if (!opt.stats.empty()) {
        std::ofstream o{ opt.stats };
        o << "{\"rule\": " << json_string(rule) << ", \"evaluations\": " << evaluations << ", \"distinct_nontrivial\": "
          << distinct << ", \"discarded\": " << discarded << ", \"time_cap_reached\": " << (capped ? "true" : "false")
          << ", \"violations\": " << (rc == 1 ? 1 : 0) << ", \"seconds\": " << now() - t0 << ", \"clauses\": {";
        bool first = true;
        for (auto& c : clauses) {
            auto it = tallies.find(c.name);
            if (it == tallies.end()) {
                continue;
            }
            auto& t = it->second;
            o << (first ? "" : ",") << "\n " << json_string(c.name) << ": {\"evaluations\": " << t.evaluations
              << ", \"nontrivial\": " << t.nontrivial << ", \"distinct_nontrivial\": " << t.distinct.size()
              << ", \"discarded\": " << t.discarded << ", \"exhaustive_over\": " << c.enumerate << ", \"labels\": {";
            bool fl = true;
            for (auto& [l, v] : t.labels) {
                o << (fl ? "" : ", ") << json_string(l) << ": " << v;
                fl = false;
            }
            o << "}, \"samples\": [";
            fl = true;
            for (auto& s : t.samples) {
                o << (fl ? "" : ", ") << s;
                fl = false;
            }
            o << "]}";
            first = false;
        }
        o << "}}\n";
    }
    std::cout << property << ": " << evaluations << " cases, " << distinct << " distinct non-trivial, " << discarded
              << " discarded, " << now() - t0 << " s" << (capped ? " (time cap reached)" : "") << "\n";
    return rc;
}

}  // namespace pbt
