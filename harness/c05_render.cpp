#include <fmt/format.h>

#include "loc.hpp"

using namespace pbt;
using namespace loc;

static void judge(const std::optional<std::string>& name, const Range& r, Case& c) {
    SL sl{ name, r };
    std::string e = name && !name->empty() ? *name : "<unknown file name>";
    const char* form = "file only";
    if (r.first.line != 0) {
        e += ":" + std::to_string(r.first.line);
        if (r.first.column == 0) {
            form = "line";
            if (r.last.line > r.first.line) {
                form = "lines";
                e += ".." + std::to_string(r.last.line);
            }
        } else {
            e += ":" + std::to_string(r.first.column);
            form = "point";
            if (r.last.line == r.first.line) {
                if (r.last.column > r.first.column) {
                    form = "columns";
                    e += ".." + std::to_string(r.last.column);
                }
            } else if (r.last.line > r.first.line) {
                form = "multi-line";
                e += ".." + std::to_string(r.last.line) + ":" + std::to_string(r.last.column);
            }
        }
    }
    c.show = show(name) + " " + show(r);
    std::ostringstream o;
    o << sl;
    PBT_CHECK(o.str() == e, "printed " << quote(o.str()) << ", expected " << quote(e));
    auto f = fmt::format("{}", sl);
    PBT_CHECK(f == e, "formatted " << quote(f) << ", expected " << quote(e));
    std::ostringstream p;
    p << "<" << sl << ">" << sl;
    PBT_CHECK(p.str() == "<" + e + ">" + e, "printing into a longer text gives " << quote(p.str()));
    c.nontrivial = r.first.line != 0;
    c.label(form);
    c.label(name && !name->empty() ? "file name" : "no file name");
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    cl.push_back({ "all combinations of small and extreme positions",
        [](Src& s, Case& c) {
            auto v = s.draw(1296 * 2);
            static const std::uint32_t t[] = { 0, 1, 2, 9, 10, 0xffffffffu };
            auto k = [&] {
                auto x = t[v % 6];
                v /= 6;
                return x;
            };
            Index f, l;
            f.line = k(), f.column = k(), l.line = k(), l.column = k();
            judge(v ? std::optional<std::string>{ "a.cq" } : std::nullopt, Range{ f, l }, c);
        },
        1296 * 8, 1296 * 40, 1296 * 2 });
    cl.push_back({ "parts left out are unknown",
        [](Src& s, Case& c) {
            auto name = file_name(s);
            auto line = s.chance(1, 2) ? 1 + static_cast<std::uint32_t>(s.draw(1000)) : 0;
            PBT_CHECK(same(Index{}, Index{ 0, 0 }) && same(Range{}.first, Range{}.last) && same(Range{}.last, Index{ 0, 0 }),
                "a default range is " << show(Range{}));
            PBT_CHECK(!SL{}.file_name.has_value(), "a default location has the file name " << show(SL{}.file_name));
            judge(std::nullopt, SL{}.range, c);
            SL only{ name, Range{} };
            PBT_CHECK(only.file_name == (name && !name->empty() ? name : std::nullopt), "the file name is " << show(only.file_name));
            std::ostringstream o;
            o << only;
            PBT_CHECK(o.str() == (name && !name->empty() ? *name : "<unknown file name>"), "printed " << quote(o.str()));
            judge(name, Range{ Index{ line }, Index{ line } }, c);
            c.show = show(name) + " " + std::to_string(line);
            c.nontrivial = line != 0 || (name && !name->empty());
        },
        2000, 40000 });
    cl.push_back({ "positions",
        [](Src& s, Case& c) {
            auto f = index(s);
            auto l = near(s, f);
            judge(file_name(s), Range{ f, l }, c);
        },
        80000, 1000000 });
    cl.push_back({ "extended locations, and members set directly",
        [](Src& s, Case& c) {
            auto f = index(s);
            SL sl{ file_name(s), Range{ f, near(s, f) } };
            for (auto n = s.draw(4); n > 0; --n) {
                sl.expand_to_include(near(s, f));
            }
            if (s.chance(1, 4)) {
                Range r;
                r.last = near(s, f);
                if (before(r.last, f)) {
                    r.last = f;
                }
                r.first = f;
                sl.range = r;
            }
            judge(sl.file_name, sl.range, c);
        },
        40000, 400000 });
    return run(argc, argv, "C05",
        "file names and positions (all combinations of 0, 1, 2, 9, 10 and the maximum; random near and far ones); "
        "non-trivial: the line is known",
        cl);
}
