// C35: analyses in another locale.
#include "locales.hpp"
#include "work_heavy.hpp"
using namespace pbt;

int main(int argc, char** argv) {
    locales::find();
    auto compare = [](Case& c, const locales::Choice& l, const std::vector<work::Job>& jobs) {
        auto here = work::answers(jobs, lib::v3::default_analyzer());
        auto there = locales::in(l, [&] { return work::answers(jobs, lib::v3::default_analyzer()); });
        for (std::size_t k = 0; k < here.size(); ++k) {
            c.label(here[k].find("Error") == std::string::npos ? "accepted" : "rejected");
            PBT_CHECK(there[k] == here[k], "in " << l.show << ", job " << k << " gives\n" << there[k] << "\nand otherwise\n" << here[k] << "\njobs:\n" << c.show);
        }
    };
    auto programs = [=](Src& s, Case& c) {
        auto l = locales::choice(s);
        c.label(l.name);
        std::vector<std::string> texts;
        std::vector<work::Job> jobs;
        c.show = "in " + l.show + ":\n";
        for (auto k = 1 + s.length(3); k > 0; --k) {
            jobs.push_back(work::job(s, texts, s.pick({ "a.cq", "\xc3\xa4/\xc3\xb6 \xc3\xbc.cq", "INFO.CQ", "\xe4.cq" })));
            auto& j = jobs.back();
            c.nontrivial |= std::count(j.text.begin(), j.text.end(), '\n') >= 2;
            c.show += "way " + std::to_string(j.way) + " of " + j.name + ":\n" + j.text + "\n";
        }
        compare(c, l, jobs);
    };
    // Real literals of every spelling, and names that are alike but for their case.
    auto literals = [=](Src& s, Case& c) {
        auto l = locales::choice(s);
        c.label(l.name);
        auto digits = [&](std::size_t least) {
            std::string r;
            for (auto n = least + s.length(s.chance(1, 8) ? 400 : 20); n > 0; --n) {
                r += static_cast<char>('0' + s.draw(10));
            }
            return r;
        };
        work::Job j;
        j.text = "version 3.0\nqubit[2] Iq\nqubit[2] iq\n";
        for (auto n = 1 + s.length(6); n > 0; --n) {
            std::string x;
            auto form = s.draw(3);
            x += form == 0 ? digits(1) + "." : form == 1 ? "." + digits(1) : digits(1) + "." + digits(1);
            if (s.chance(1, 3)) {
                x += s.pick({ "e", "E" }) + std::string{ s.pick({ "", "+", "-" }) } + std::to_string(s.draw(330));
            }
            switch (s.weighted({ 5, 1, 1, 1, 1 })) {
                case 0: j.text += s.pick({ "Rx", "rx", "RX", "Ry" }) + ("(" + x) + ") " + s.pick({ "Iq", "iq", "IQ", "Iq[1]" }) + "\n"; break;
                case 1: j.text += "wait(" + digits(1) + ") Iq\n"; break;
                case 2: j.text += "X Iq[" + std::to_string(s.draw(s.pick({ 3ull, 3000ull, 5000000000ull }))) + "]\n"; break;
                case 3: {
                    auto size = std::to_string(1 + s.draw(s.pick({ 5ull, 5000ull, 5000000000ull })));
                    j.text += "bit[" + size + "] b" + size + "; X b" + size + "; X b" + size + "[" + std::to_string(s.draw(6000)) + "]\n";
                    break;
                }
                default: j.text += "Rx(1" + std::string{ s.pick({ "<<", "%", "/", "**" }) } + std::to_string(s.draw(100000)) + "+" + digits(1) + ") Iq\n";
            }
        }
        j.name = "f.cq";
        c.show = "in " + l.show + ":\n" + j.text;
        c.nontrivial = true;
        compare(c, l, { j });
    };
    return run(argc, argv, "C35",
        "programs analysed in another locale, in seven ways; non-trivial: a program of at least two lines",
        { { "programs in another locale", programs, 1600, 40000 }, { "literals and names in another locale", literals, 2400, 60000 } });
}
