// C33, for the parts below the analyzer: the helpers, locations, versions and errors, from several threads.
#include <barrier>
#include <thread>

#include "work_light.hpp"
using namespace pbt;
using namespace work;

int main(int argc, char** argv) {
    auto together = [](Src& s, Case& c) {
        std::size_t n = 2 + s.draw(3);
        std::vector<std::vector<Job>> jobs(n);
        std::set<std::uint64_t> kinds;
        bool shared = false;
        for (auto& l : jobs) {
            for (auto k = 1 + s.length(6); k > 0; --k) {
                auto j = job(s);
                c.show += (l.empty() ? "thread: " : ", ") + written(j);
                shared |= !kinds.insert(j.what).second;
                l.push_back(std::move(j));
            }
            c.show += "\n";
        }
        std::vector<std::vector<std::string>> got(n);
        std::vector<std::exception_ptr> thrown(n);
        std::barrier start{ static_cast<std::ptrdiff_t>(n) };
        std::vector<std::thread> threads;
        for (std::size_t t = 0; t < n; ++t) {
            threads.emplace_back([&, t] {
                start.arrive_and_wait();
                try {
                    for (int round = 0; round < 3; ++round) {
                        for (auto& j : jobs[t]) {
                            got[t].push_back(answer(j));
                        }
                    }
                } catch (...) {
                    thrown[t] = std::current_exception();
                }
            });
        }
        for (auto& t : threads) {
            t.join();
        }
        for (auto& e : thrown) {
            if (e) {
                std::rethrow_exception(e);
            }
        }
        for (std::size_t t = 0; t < n; ++t) {
            for (std::size_t k = 0; k < got[t].size(); ++k) {
                auto alone = answer(jobs[t][k % jobs[t].size()]);
                PBT_CHECK(got[t][k] == alone, "next to other threads " << names[jobs[t][k % jobs[t].size()].what] << " of " << quote(jobs[t][k % jobs[t].size()].a)
                    << " gives " << quote(got[t][k]) << ", and alone " << quote(alone));
            }
        }
        c.nontrivial = shared;
    };
    return run(argc, argv, "C33",
        "calls of the helpers, of locations, versions, errors and string builders in two to four threads; non-trivial: the same one is called more than once",
        { { "helpers at the same time", together, 6000, 100000 } });
}
