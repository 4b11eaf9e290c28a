// C36, for the parts below the analyzer: nothing is held after a call, an error, a table or a result is done with.
#include "heap.hpp"
#include "work_light.hpp"
using namespace pbt;

int main(int argc, char** argv) {
    auto check = [](Case& c, std::vector<work::Job> jobs, bool different, int doublings) {
        auto g = heap::growth([&](long round) {
            for (auto j : jobs) {
                if (different) {
                    char number[24];
                    std::snprintf(number, sizeof number, "%09ld", round);
                    j.a += number;
                    j.b += number;
                    if (j.name) {
                        *j.name += number;
                    }
                    j.range.first.line += static_cast<std::uint32_t>(round * 4);
                    j.range.last.line += static_cast<std::uint32_t>(round * 4);
                }
                (void)work::answer(j);
            }
        }, doublings);
        c.label(g.allocated < 20 ? "few allocations" : "many allocations");
        c.nontrivial = g.allocated > 0;
        PBT_CHECK(g.text.empty(), g.text << ", of " << c.show);
    };
    auto draw = [](Src& s, Case& c) {
        std::vector<work::Job> jobs;
        for (auto k = 1 + s.length(4); k > 0; --k) {
            jobs.push_back(work::job(s));
            c.show += (jobs.size() > 1 ? ", " : "") + work::written(jobs.back());
            c.label(work::names[jobs.back().what]);
        }
        return jobs;
    };
    auto same = [=](Src& s, Case& c) { check(c, draw(s, c), false, 7); };
    auto different = [=](Src& s, Case& c) { check(c, draw(s, c), true, s.chance(1, 20) ? 12 : 8); };
    return run(argc, argv, "C36",
        "calls of the helpers, of locations, versions, errors, string builders, overload tables and results, 128 times or (with other names and texts each time) up to 4096 times; non-trivial: memory is allocated",
        { { "the same calls again", same, 8000, 100000 }, { "ever other calls", different, 3000, 40000 } });
}
