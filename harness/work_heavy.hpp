// Ways to have programs analysed, with what comes out as text. Shared by the checks that are about where and when that is
// done (C33, C35, C36).
#pragma once

#include "decide.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/instruction_set.hpp"

namespace work {
using pbt::Src;

inline lib::Form here() {
    lib::Form f;
    f.locations = true;
    return f;
}
inline std::string seen(const lib::v3::analyzer::AnalysisResult& r) {
    std::string t;
    for (auto& e : r.errors) {
        t += std::string{ e.what() } + "\n" + e.to_json() + "\n";
    }
    if (!r.root.empty()) {
        t += lib::tree(*r.root, here()) + "\n" + lib::dump(*r.root);
    }
    for (auto& x : r.to_strings()) {
        t += x + "\n";
    }
    return t + r.to_json();
}

struct Job {
    enum Way { fresh, own, copied, parsed, wrapped, unwrapped, registered, ways } way = fresh;
    std::string text, name;
    std::int64_t number = 0;
};

// Some jobs, in order; the answers are text.
inline std::vector<std::string> answers(const std::vector<Job>& jobs, const lib::v3::analyzer::Analyzer& given) {
    std::vector<std::string> r;
    lib::v3::analyzer::Analyzer own = given;
    for (auto& j : jobs) {
        switch (j.way) {
            case Job::own: r.push_back(seen(own.analyze_string(j.text, j.name))); break;
            case Job::copied: {
                auto copy = own;
                r.push_back(seen(copy.analyze_string(j.text, j.name)));
                break;
            }
            case Job::parsed: {
                auto p = lib::v3::parser::parse_string(j.text, j.name);
                std::string t;
                for (auto& e : p.errors) {
                    t += std::string{ e.what() } + "\n";
                }
                r.push_back(t + (p.errors.empty() ? lib::dump(*p.root) : ""));
                break;
            }
            case Job::wrapped: {
                std::string t;
                for (auto& x : V3xAnalyzer{}.analyze_string(j.text, j.name)) {
                    t += x + "\n";
                }
                V3xAnalyzer w;
                r.push_back(t + w.analyze_string_to_json(j.text, j.name));
                break;
            }
            case Job::unwrapped: {
                auto p = lib::v3::parser::parse_string(j.text, std::nullopt);
                auto result = lib::v3::default_analyzer().analyze(p);
                std::ostringstream out;
                try {
                    r.push_back(lib::dump(*result.unwrap(out)));
                } catch (const std::exception& e) {
                    r.push_back(std::string{ "Error " } + e.what() + out.str());
                }
                break;
            }
            case Job::registered: {
                auto a = lib::v3::default_analyzer();
                a.register_variable("user", cqasm::tree::make<lib::val::ConstInt>(j.number));
                a.register_instruction("X", j.number % 2 ? "B" : "QQ");
                r.push_back(seen(a.analyze_string(j.text + "\nqubit user1\nRx(user) user1\n", j.name)));
                break;
            }
            default: r.push_back(seen(lib::v3::default_analyzer().analyze_string(j.text, j.name)));
        }
    }
    return r;
}

// A job; texts are those of earlier ones.
inline Job job(Src& s, std::vector<std::string>& texts, const std::string& file) {
    Job j;
    progen::ProgramGen g{ s };
    switch (s.weighted({ 4, 4, 2, 3 })) {
        case 0: g.valid(5); j.text = model::text(g.p); break;
        case 1:
            for (auto m = 1 + s.length(4); m > 0; --m) {
                s.flip() ? (void)g.faulty_statement() : g.valid_statement();
            }
            j.text = model::text(g.p);
            break;
        case 2: {
            auto p = decide::anything(s);
            j.text = model::text(p);
            break;
        }
        default:
            if (texts.empty()) {
                g.valid(3);
                j.text = model::text(g.p);
            } else {
                j.text = s.pick(texts);  // the same one as elsewhere
            }
    }
    if (s.chance(1, 10) && !j.text.empty()) {
        j.text.insert(0, "@");
    }
    texts.push_back(j.text);
    j.way = static_cast<Job::Way>(s.draw(Job::ways));
    j.name = s.flip() ? file : "";
    j.number = static_cast<std::int64_t>(s.draw(10));
    return j;
}

}  // namespace work
