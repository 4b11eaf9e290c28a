// C33: analyses that run at the same time, each in a thread of its own. Built with the thread sanitizer.
#include <barrier>
#include <thread>

#include "work_heavy.hpp"
using namespace pbt;
using work::Job;
using work::job;

int main(int argc, char** argv) {
    auto together = [](Src& s, Case& c) {
        std::size_t n = 2 + s.draw(3);
        std::vector<std::vector<Job>> jobs(n);
        std::vector<std::string> texts;
        std::size_t busy = 0;
        bool valid = false, faulty = false;
        for (std::size_t t = 0; t < n; ++t) {
            c.show += "thread " + std::to_string(t) + ":\n";
            bool any = false;
            for (auto k = 1 + s.length(2); k > 0; --k) {
                auto j = job(s, texts, "f" + std::to_string(t) + ".cq");
                any |= std::count(j.text.begin(), j.text.end(), '\n') >= 2;
                c.show += "way " + std::to_string(j.way) + " of " + j.name + ":\n" + j.text + "\n";
                c.label("way " + std::to_string(j.way));
                jobs[t].push_back(std::move(j));
            }
            busy += any;
        }
        c.nontrivial = busy >= 2;
        // In a replay the process is new: what is set up on first use is set up by several threads at the same time.
        const bool shared = s.flip();
        std::vector<std::vector<std::string>> got(n);
        {
            std::vector<lib::v3::analyzer::Analyzer> given;
            std::barrier start{ static_cast<std::ptrdiff_t>(n) };
            std::vector<std::thread> threads;
            // Half the time the analyzers are copies of one that was made before the threads.
            std::unique_ptr<const lib::v3::analyzer::Analyzer> one;
            if (shared) {
                one = std::make_unique<const lib::v3::analyzer::Analyzer>(lib::v3::default_analyzer());
            }
            std::vector<std::exception_ptr> thrown(n);
            for (std::size_t t = 0; t < n; ++t) {
                threads.emplace_back([&, t] {
                    start.arrive_and_wait();
                    try {
                        got[t] = one ? work::answers(jobs[t], *one) : work::answers(jobs[t], lib::v3::default_analyzer());
                    } catch (...) {
                        thrown[t] = std::current_exception();
                    }
                });
            }
            for (auto& t : threads) {
                t.join();
            }
            for (auto& e : thrown) {
                if (e) {
                    std::rethrow_exception(e);
                }
            }
        }
        for (std::size_t t = 0; t < n; ++t) {
            auto alone = work::answers(jobs[t], lib::v3::default_analyzer());
            for (std::size_t k = 0; k < alone.size(); ++k) {
                valid |= alone[k].find("Error") == std::string::npos;
                faulty |= alone[k].find("Error") != std::string::npos;
                PBT_CHECK(got[t][k] == alone[k], "next to other threads, job " << k << " of thread " << t << " gives\n" << got[t][k] << "\nand alone\n" << alone[k] << "\njobs:\n" << c.show);
            }
        }
        c.label(valid && faulty ? "accepted and rejected" : valid ? "accepted only" : "rejected only");
    };
    return run(argc, argv, "C33",
        "two to four threads that analyse programs at the same time, in seven ways; non-trivial: at least two threads have a program of at least two lines",
        { { "analyses at the same time", together, 400, 8000 } });
}
