// C25: an analysis does not depend on the ones before it.
#include "decide.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
using namespace pbt;

// Small programs that only differ from the outcome of a fresh analyzer if something of an earlier program is left.
static std::string program(Src& s, const std::vector<std::string>& before) {
    progen::ProgramGen g{ s };
    switch (s.weighted({ 6, 5, 4, 2, 2, 5, 3, 4 })) {
        case 0: g.valid(8); return model::text(g.p);
        case 1:
            for (auto n = 1 + s.length(6); n > 0; --n) {
                s.flip() ? (void)g.faulty_statement() : g.valid_statement();
            }
            return model::text(g.p);
        case 2: {  // a syntax error, from a program
            g.valid(5);
            auto t = model::text(g.p);
            auto at = s.draw(t.size());
            while (at > 0 && (static_cast<unsigned char>(t[at]) & 0xC0) == 0x80) {
                --at;
            }
            t.insert(at, s.pick({ std::string{ "@" }, std::string{ "\"" }, std::string{ "(" }, std::string{ "qubit" }, std::string{ "'''" }, std::string{ "3.0.0" } }));
            return t;
        }
        case 3: return "version " + s.pick({ std::string{ "3.1" }, std::string{ "2" }, std::string{ "1.0" } }) + "\nqubit q\nX q\n";
        case 4: return s.pick({ std::string{}, std::string{ "version" }, std::string{ "qubit q" }, std::string{ "version 3.0" }, std::string{ "version 3;;;\n" } });
        case 7: {
            auto p = decide::anything(s);
            return model::text(p);
        }
        case 5:  // an earlier one again, or what is left of it without some of its lines
            if (!before.empty()) {
                auto t = s.pick(before);
                if (s.flip()) {
                    return t;
                }
                std::string r;
                std::istringstream in{ t };
                bool first = true;
                for (std::string l; std::getline(in, l);) {
                    if (first || !s.chance(1, 3)) {
                        r += l + "\n";
                    }
                    first = false;
                }
                return r;
            }
            [[fallthrough]];
        default: {
            static const std::vector<std::string> lines = { "qubit q", "qubit[2] q", "qubit[5] q", "bit b", "bit[2] b", "qubit b", "X q", "X q[1]", "H q[0:4]", "b = measure q", "reset q", "barrier b", "Rx(pi) q", "X b",
                "wait(3) q", "wait(true) q", "b = measure(1) q", "b = measure(1, 2) q", "b = measure(1, 2, 3) q", "b = measure(true, 1., 3) q", "b = measure(1, 2, 3, 4) q", "Rn(1, 2, 3, 4, 5) q", "CRk(1) q, q", "CRk(1.5) q, q", "Rx(1, 2) q", "Rx q", "pow(1, 2).X q", "pow(true).X q", "asm(A) '''x'''", "CNOT q, q", "pow(2).X q", "qubit pi", "Rx(q) b", "init q[3]" };
            std::string r = "version 3.0\n";
            for (auto n = s.length(6); n > 0; --n) {
                r += s.pick(lines) + "\n";
            }
            return r;
        }
    }
}
static lib::Form here() {
    lib::Form f;
    f.locations = true;
    return f;
}
// All that there is to see of a result.
static std::string seen(const lib::v3::analyzer::AnalysisResult& r) {
    std::string t;
    for (auto& e : r.errors) {
        t += std::string{ e.what() } + "\n" + e.to_json() + "\n";
    }
    if (!r.root.empty()) {
        t += lib::tree(*r.root, here()) + "\n" + lib::dump(*r.root);
    }
    for (auto& x : r.to_strings()) {
        t += x + "\n";
    }
    return t + r.to_json();
}

// What a process gives that has not analysed anything before: a child is kept from before the first analysis, and forks
// one of its own for each question.
class Pristine {
    int to = -1, from = -1;
    pid_t owner = 0;

    static void put(int fd, const std::string& t) {
        std::uint64_t n = t.size();
        pbt::write_all(fd, std::string(reinterpret_cast<const char*>(&n), sizeof n) + t);
    }
    static bool read_all(int fd, char* p, std::size_t n) {
        while (n > 0) {
            auto k = read(fd, p, n);
            if (k <= 0) {
                return false;
            }
            p += k;
            n -= static_cast<std::size_t>(k);
        }
        return true;
    }
    static bool get(int fd, std::string& t) {
        std::uint64_t n = 0;
        if (!read_all(fd, reinterpret_cast<char*>(&n), sizeof n)) {
            return false;
        }
        t.resize(n);
        return read_all(fd, t.data(), n);
    }
    [[noreturn]] static void serve(int in, int out) {
        std::string text, name, kind;
        while (get(in, kind) && get(in, text) && get(in, name)) {
            if (auto pid = fork(); pid == 0) {
                if (kind == "w") {
                    std::string r;
                    for (auto& x : V3xAnalyzer{}.analyze_string(text, name)) {
                        r += x + "\n";
                    }
                    put(out, r);
                } else {
                    put(out, seen(lib::v3::default_analyzer().analyze_string(text, kind == "n" ? std::optional{ name } : std::nullopt)));
                }
                _exit(0);
            } else {
                int status = 0;
                waitpid(pid, &status, 0);
                if (status) {
                    put(out, "ended with status " + std::to_string(status));
                }
            }
        }
        _exit(0);
    }

public:
    void prepare() {
        if (owner == getpid()) {
            return;
        }
        owner = getpid();
        int a[2], b[2];
        if (pipe(a) != 0 || pipe(b) != 0) {
            throw std::runtime_error{ "no pipe" };
        }
        if (fork() == 0) {
            close(a[1]);
            close(b[0]);
            serve(a[0], b[1]);
        }
        close(a[0]);
        close(b[1]);
        to = a[1];
        from = b[0];
    }
    std::string ask(const std::string& kind, const std::string& text, const std::string& name) {
        put(to, kind);
        put(to, text);
        put(to, name);
        std::string r;
        if (!get(from, r)) {
            throw std::runtime_error{ "no answer" };
        }
        return r;
    }
    std::string operator()(const std::string& text, const std::optional<std::string>& name) {
        return ask(name ? "n" : "", text, name.value_or(""));
    }
};
static Pristine pristine;

int main(int argc, char** argv) {
    auto history = [](Src& s, Case& c) {
        pristine.prepare();  // nothing has been analysed in this process when its first case comes here
        auto analyzer = std::make_unique<lib::v3::analyzer::Analyzer>(lib::v3::default_analyzer());
        V3xAnalyzer wrapped;
        std::vector<std::string> texts, outcomes;
        std::vector<lib::v3::analyzer::AnalysisResult> results;
        std::vector<lib::v3::parser::ParseResult> parsed;
        std::set<bool> kinds;
        auto n = 2 + s.length(6);
        for (std::size_t i = 0; i < n; ++i) {
            auto text = program(s, texts);
            c.show += (i ? "\n=== then ===\n" : "") + text;
            auto name = s.flip() ? std::optional<std::string>{ "f" + std::to_string(s.draw(3)) + ".cq" } : std::nullopt;
            auto fresh = seen(lib::v3::default_analyzer().analyze_string(text, name));
            auto first = pristine(text, name);
            PBT_CHECK(fresh == first, "after a history of " << i << " programs in the same process, a fresh analyzer gives\n" << fresh << "\nand in a process of its own\n" << first << "\nhistory:\n" << c.show);
            auto p = lib::v3::parser::parse_string(text, name);
            auto way = s.draw(4);
            lib::v3::analyzer::AnalysisResult r;
            if (way == 1) {
                r = analyzer->analyze(p);
            } else if (way == 2 && p.errors.empty()) {
                r = analyzer->analyze(*p.root->as_program());
            } else if (way == 3) {
                auto other = *analyzer;  // a copy knows no more, and what it analyses stays with it
                auto copied = seen(other.analyze_string(text, name));
                PBT_CHECK(copied == fresh, "a copied analyzer with a history of " << i << " programs gives\n" << copied << "\na fresh one\n" << fresh << "\nhistory:\n" << c.show);
                r = analyzer->analyze_string(text, name);
            } else {
                r = analyzer->analyze_string(text, name);
            }
            auto got = seen(r);
            PBT_CHECK(got == fresh, "an analyzer with a history of " << i << " programs gives\n" << got << "\na fresh one\n" << fresh << "\nhistory:\n" << c.show);
            auto strings = wrapped.analyze_string(text, name.value_or(""));
            PBT_CHECK(strings == V3xAnalyzer{}.analyze_string(text, name.value_or("")), "the wrapped analyzer with a history of " << i << " programs gives something else than a fresh one, after:\n" << c.show);
            kinds.insert(r.errors.empty());
            c.label(p.errors.empty() ? r.errors.empty() ? "valid" : "faulty" : "syntax error");
            texts.push_back(text);
            outcomes.push_back(got);
            results.push_back(std::move(r));
            if (s.chance(1, 6)) {
                analyzer = std::make_unique<lib::v3::analyzer::Analyzer>(*analyzer);
            }
        }
        c.nontrivial = kinds.size() == 2;
        for (std::size_t i = 0; i < n; ++i) {
            auto now = seen(results[i]);
            PBT_CHECK(now == outcomes[i], "result " << i << " has been changed by later analyses, from\n" << outcomes[i] << "\nto\n" << now << "\nhistory:\n" << c.show);
        }
        analyzer.reset();
        for (std::size_t i = 0; i < n; ++i) {
            PBT_CHECK(seen(results[i]) == outcomes[i], "result " << i << " depends on its analyzer");
        }
    };
    // A syntax tree can be analysed any number of times, and stays as it is.
    auto again = [](Src& s, Case& c) {
        auto text = program(s, {});
        c.show = text;
        auto p = lib::v3::parser::parse_string(text, std::nullopt);
        if (!p.errors.empty()) {
            c.label("syntax error");
            return;
        }
        auto* program = p.root->as_program();
        auto before = lib::dump(*p.root) + lib::tree(*program, here());
        auto one = lib::v3::default_analyzer(), two = lib::v3::default_analyzer();
        auto r = one.analyze(p);
        auto first = seen(r);
        c.nontrivial = r.errors.empty() && !r.root->block->statements.empty();
        for (auto n = 1 + s.draw(3); n > 0; --n) {
            auto more = seen(s.flip() ? one.analyze(p) : s.flip() ? two.analyze(p) : two.analyze(*program));
            PBT_CHECK(more == first, "analysing the same syntax tree again gives\n" << more << "\ninstead of\n" << first << "\nfor:\n" << text);
        }
        PBT_CHECK(lib::dump(*p.root) + lib::tree(*program, here()) == before, "analysing a syntax tree changed it:\n" << text);
        PBT_CHECK(seen(r) == first, "analysing the syntax tree again changed the first result:\n" << text);
    };
    // A user's registrations survive what is analysed in between.
    auto configured = [](Src& s, Case& c) {
        auto make = [](std::uint64_t k) {
            auto a = lib::v3::default_analyzer();
            a.register_variable("user", cqasm::tree::make<lib::val::ConstInt>(static_cast<std::int64_t>(k)));
            a.register_instruction("X", k % 2 ? "B" : "QQ");
            return a;
        };
        auto k = s.draw(100);
        auto a = make(k);
        std::vector<std::string> texts;
        for (auto n = 1 + s.length(4); n > 0; --n) {
            auto t = program(s, texts);
            texts.push_back(t);
            c.show += t + "=== then ===\n";
            auto got = seen(a.analyze_string(t, std::nullopt));
            auto fresh = make(k);
            PBT_CHECK(got == seen(fresh.analyze_string(t, std::nullopt)), "with registrations and a history, there is another outcome:\n" << got << "\nhistory:\n" << c.show);
        }
        std::string probe = "version 3.0\nqubit q\nqubit p\nbit b\nRx(user) q\n" + std::string{ k % 2 ? "X b\n" : "X q, p\n" };
        auto r = a.analyze_string(probe, std::nullopt);
        c.nontrivial = true;
        PBT_CHECK(r.errors.empty(), "registrations are lost: " << r.errors[0].what() << "\nafter:\n" << c.show);
    };
    // Functions of the user that report errors, throw something else, or have programs analysed themselves.
    auto callbacks = [](Src& s, Case& c) {
        struct Mine : std::exception {
            const char* what() const noexcept override { return "mine"; }
        };
        auto inner = program(s, {});
        auto setup = [&inner](lib::v3::analyzer::Analyzer& a, std::string* said) {
            a.register_consteval_core_function("user", "i", [&inner, said](const lib::val::Values& v) -> lib::val::Value {
                auto n = v[0]->as_const_int()->value;
                if (n == 7) {
                    throw cqasm::error::AnalysisError{ "no sevens" };
                }
                if (n == 8) {
                    throw Mine{};
                }
                if (n == 9) {
                    throw 9;
                }
                if (n == 6) {
                    auto r = seen(lib::v3::default_analyzer().analyze_string(inner, "inner.cq"));
                    *said += r + "\n---\n";
                }
                return cqasm::tree::make<lib::val::ConstInt>(n);
            });
        };
        std::string said;
        auto used = lib::v3::default_analyzer();
        setup(used, &said);
        c.show = "inner:\n" + inner;
        bool thrown = false, went_on = false;
        for (auto n = 2 + s.length(5); n > 0; --n) {
            progen::ProgramGen g{ s };
            g.valid(4);
            auto text = model::text(g.p) + "\nqubit[20] u1; ";
            auto number = s.pick({ 1, 6, 7, 8, 9 });
            text += s.pick({ std::string{ "CRk(user(" }, std::string{ "Rx(user(" }, std::string{ "X u1[user(" }, std::string{ "wait(1 + user(" } }) + std::to_string(number) + "))";
            text.back() = text[text.find("u1; ") + 4] == 'X' ? ']' : ')';
            text += text.find("CRk(user") != std::string::npos ? " u1, u1" : text.back() == ']' ? "" : " u1";
            text += s.flip() ? "\nY u1\n" : "\nRy(u1) u1\n";
            c.show += "=== then ===\n" + text;
            c.label(std::to_string(number));
            // Once by the analyzer with a history, once by a new one.
            std::string out[2];
            for (int k = 0; k < 2; ++k) {
                auto fresh = lib::v3::default_analyzer();
                setup(fresh, &said);
                auto& a = k ? fresh : used;
                said.clear();
                try {
                    out[k] = seen(a.analyze_string(text, std::nullopt));
                } catch (const Mine& e) {
                    out[k] = e.what();
                } catch (int e) {
                    out[k] = std::to_string(e);
                }
                out[k] += "\ninside:\n" + said;
            }
            PBT_CHECK(out[0] == out[1], "with a function that fails, an analyzer with a history gives\n" << out[0] << "\na fresh one\n" << out[1] << "\nhistory:\n" << c.show);
            if (number == 7) {
                PBT_CHECK(out[0].find("no sevens") != std::string::npos, "the error of a function is lost:\n" << out[0] << "\nhistory:\n" << c.show);
            }
            went_on |= thrown;
            thrown |= number > 7;
        }
        c.nontrivial = went_on;
    };
    return run(argc, argv, "C25", "sequences of programs through one analyzer; non-trivial: the sequence has both an accepted and a rejected program (second clause: the program has statements; fourth: an exception has passed through before)",
        { { "history", history, 2500, 60000 }, { "same tree again", again, 1500, 30000 }, { "with registrations", configured, 800, 20000 }, { "functions that fail", callbacks, 800, 20000 } });
}
