// C35, for the parts below the analyzer: the same calls in another locale.
#include "locales.hpp"
#include "work_light.hpp"
using namespace pbt;

int main(int argc, char** argv) {
    locales::find();
    auto elsewhere = [](Src& s, Case& c) {
        auto l = locales::choice(s);
        auto j = work::job(s);
        c.show = l.show + ": " + work::written(j) + " " + quote(j.b);
        c.label(work::names[j.what]);
        c.label(l.name);
        auto here = work::answer(j);
        auto there = locales::in(l, [&] { return work::answer(j); });
        c.nontrivial = j.a.size() > 1;
        PBT_CHECK(there == here, "in " << l.show << ": " << work::written(j) << " with " << quote(j.b) << " gives " << quote(there) << " and otherwise " << quote(here));
    };
    // Every byte, and every pair of a letter with another byte, in every locale.
    auto bytes = [](Src& s, Case& c) {
        auto n = s.draw(256 * locales::names.size());
        work::Job j;
        locales::Choice l;
        l.name = l.show = locales::names[n / 256];
        j.a = std::string{ "x" } + static_cast<char>(n % 256) + "y";
        j.b = std::string{ "X" } + static_cast<char>(s.flip() ? n % 256 ^ 32 : s.draw(256)) + "y";
        j.name = j.a;
        c.show = l.show + ": " + quote(j.a) + " and " + quote(j.b);
        c.nontrivial = true;
        for (j.what = 0; j.what < work::kinds; ++j.what) {
            auto here = work::answer(j);
            auto there = locales::in(l, [&] { return work::answer(j); });
            PBT_CHECK(there == here, "in " << l.show << ": " << work::written(j) << " with " << quote(j.b) << " gives " << quote(there) << " and otherwise " << quote(here));
        }
    };
    return run(argc, argv, "C35",
        "calls of the helpers, of locations, versions, errors, string builders, overload tables and results in another locale; non-trivial: a text of at least two bytes",
        { { "helpers in another locale", elsewhere, 40000, 400000 }, { "every byte in another locale", bytes, 5120, 51200, 256 * locales::names.size() } });
}
