// C36: nothing is held after an analysis is done with.
#include <sys/mman.h>

#include "heap.hpp"
#include "work_heavy.hpp"
using namespace pbt;

int main(int argc, char** argv) {
    auto jobs = [](Src& s, Case& c) {
        std::vector<std::string> texts;
        std::vector<work::Job> jobs;
        for (auto k = 1 + s.length(2); k > 0; --k) {
            jobs.push_back(work::job(s, texts, "a.cq"));
            auto& j = jobs.back();
            c.show += "way " + std::to_string(j.way) + " of " + j.name + ":\n" + j.text + "\n";
            c.label("way " + std::to_string(j.way));
        }
        return jobs;
    };
    // With names and texts that are new each time; kinds says of what.
    auto numbered = [](std::string text, long round, unsigned kinds) {
        char number[24];
        std::snprintf(number, sizeof number, "%09ld", round);
        auto n = "u" + std::string{ number };
        text += "\nqubit " + n + "\nX " + n + "\nRx(1." + number + ") " + n + "\n";
        text += kinds & 1 ? "X w" + n + "\n" : "";
        text += kinds & 2 ? "Rx(f" + n + "(1)) " + n + "\n" : "";
        text += kinds & 4 ? "g" + n + " " + n + "\n" : "";
        text += kinds & 8 ? "asm(a" + n + ") '''" + n + "'''\n" : "";
        text += kinds & 16 ? "X " + n + "[" + number + "]\n" : "";
        text += kinds & 32 ? "qubit " + n + "\n" : "";
        text += kinds & 64 ? "X " + n + " " + n + "\n" : "";
        return text;
    };
    auto again = [=](Src& s, Case& c) {
        auto list = jobs(s, c);
        bool different = s.flip();
        auto kinds = s.flip() ? 0 : static_cast<unsigned>(s.draw(128));
        c.show += different ? "each time with other names of kinds " + std::to_string(kinds) + "\n" : "";
        c.label(different ? "other names" : "the same");
        // One analyzer for all, or one for each round.
        std::optional<lib::v3::analyzer::Analyzer> given;
        if (s.flip()) {
            given = lib::v3::default_analyzer();
        }
        auto g = heap::growth([&](long round) {
            auto now = list;
            if (different) {
                for (auto& j : now) {
                    j.text = numbered(j.text, round, kinds);
                    j.name += j.name.empty() ? "" : std::to_string(1000000 + round);
                }
            }
            (void)work::answers(now, given ? *given : lib::v3::default_analyzer());
        }, 5);
        c.nontrivial = g.allocated > 100;
        PBT_CHECK(g.text.empty(), g.text << ", of\n" << c.show);
    };
    // One analyzer that is used on and on, through every function that analyses, with files.
    auto on = [=](Src& s, Case& c) {
        std::vector<std::string> texts;
        auto j = work::job(s, texts, "a.cq");
        bool different = s.flip();
        auto kinds = s.flip() ? 0 : static_cast<unsigned>(s.draw(128));
        if (!different && s.chance(1, 6)) {
            j.text = s.pick({ "", "\n", "v", "version 3.0", " ", "/" });
        }
        int how = static_cast<int>(s.draw(6));
        c.show = "way " + std::to_string(how) + (different ? ", each time with other names of kinds " + std::to_string(kinds) : "") + ":\n" + j.text;
        c.label("function " + std::to_string(how));
        int fd = how >= 3 ? memfd_create("program", 0) : -1;
        auto path = "/proc/self/fd/" + std::to_string(fd);
        auto analyzer = lib::v3::default_analyzer();
        V3xAnalyzer wrapper;
        auto g = heap::growth([&](long round) {
            auto text = different ? numbered(j.text, round, kinds) : j.text;
            if (fd >= 0) {
                if (ftruncate(fd, 0) != 0 || pwrite(fd, text.data(), text.size(), 0) != static_cast<ssize_t>(text.size())) {
                    throw Discard{};
                }
            }
            switch (how) {
                case 0: (void)analyzer.analyze_string(text, std::nullopt); break;
                case 1: (void)wrapper.analyze_string_to_json(text, "n"); break;
                case 2: (void)analyzer.analyze(lib::v3::parser::parse_string(text, std::nullopt)); break;
                case 3: (void)analyzer.analyze_file(path); break;
                case 4: (void)V3xAnalyzer::parse_file(path); break;
                default: (void)wrapper.analyze_file(path); break;
            }
        }, 5);
        if (fd >= 0) {
            close(fd);
        }
        c.nontrivial = g.allocated > 100;
        PBT_CHECK(g.text.empty(), g.text << ", of\n" << c.show);
    };
    // Values, references and promotions in any number.
    auto scopes = [](Src& s, Case& c) {
        auto analyzer = lib::v3::default_analyzer();
        auto deep = 1 + s.draw(5), wide = s.draw(6);
        bool program = s.flip();
        c.show = std::to_string(deep) + " scopes of " + std::to_string(wide) + " names" + (program ? " and a program" : "");
        auto g = heap::growth([&](long) {
            for (std::uint64_t d = 0; d < deep; ++d) {
                analyzer.push_scope();
                for (std::uint64_t k = 0; k < wide; ++k) {
                    auto n = std::to_string(k);
                    analyzer.register_variable("v" + n, cqasm::tree::make<lib::val::ConstInt>(static_cast<std::int64_t>(d)));
                    analyzer.register_instruction("X", k % 2 ? "QB" : "QQ");
                }
            }
            if (program) {
                (void)analyzer.analyze_string("version 3.0; qubit q; Rx(v0) q", std::nullopt);
            }
            for (std::uint64_t d = 0; d < deep; ++d) {
                analyzer.pop_scope();
            }
        }, 6);
        c.nontrivial = wide > 0;
        PBT_CHECK(g.text.empty(), g.text << ", of " << c.show);
    };
    return run(argc, argv, "C36",
        "programs analysed 32 times, the same or with other names each time, in seven ways, by one analyzer or by one each, from text and from files, and scopes entered and left 64 times; non-trivial: more than a hundred allocations, or scopes with names",
        { { "the same analyses again", again, 320, 8000 }, { "one analyzer on and on", on, 320, 8000 }, { "scopes", scopes, 160, 3000 } });
}
