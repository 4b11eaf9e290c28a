#include "loc.hpp"

using namespace pbt;
using namespace loc;

static void same_range(const Range& r, const Index& f, const Index& l, const std::string& what) {
    PBT_CHECK(same(r.first, f) && same(r.last, l), what << " gives " << show(r) << ", expected " << show(Range{ f, l })
                                                        << " = [" << show(f) << " " << show(l) << "]");
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    auto construct = [](Src& s, Case& c, const Index& f, const Index& l) {
        auto name = file_name(s);
        c.show = show(name) + " " + show(f) + " " + show(l);
        Index last = before(l, f) ? f : l;
        Index f2 = f, l2 = l;
        Range r{ f2, l2 };
        PBT_CHECK(same(f, f2) && same(l, l2), "the arguments were changed");
        same_range(r, f, last, "the constructed range");
        SL sl{ name, r };
        same_range(sl.range, f, last, "the location's range");
        if (!name || name->empty()) {
            PBT_CHECK(!sl.file_name.has_value(), "has file name " << show(sl.file_name));
        } else {
            PBT_CHECK(sl.file_name == name, "has file name " << show(sl.file_name));
        }
        SL copy{ sl };
        SL moved{ std::move(copy) };
        SL assigned;
        assigned = moved;
        PBT_CHECK(assigned == sl && assigned.file_name == sl.file_name, "a copy differs");
        same_range(assigned.range, f, last, "a copy's range");
        c.nontrivial = !same(f, l);
        c.label(before(l, f) ? "last before first" : same(l, f) ? "equal" : "last after first");
        c.label(!name ? "no file" : name->empty() ? "empty file name" : "file name");
    };
    cl.push_back({ "construction, all small positions",
        [=](Src& s, Case& c) {
            auto v = s.draw(625);
            auto k = [&] {
                static const std::uint32_t t[] = { 0, 1, 2, 9, 0xffffffffu };
                auto x = t[v % 5];
                v /= 5;
                return x;
            };
            Index f, l;
            f.line = k(), f.column = k(), l.line = k(), l.column = k();
            construct(s, c, f, l);
        },
        20000, 200000, 625 });
    cl.push_back({ "construction",
        [=](Src& s, Case& c) {
            auto f = index(s);
            construct(s, c, f, near(s, f));
        },
        80000, 1000000 });
    cl.push_back({ "extension is the hull, in any order",
        [](Src& s, Case& c) {
            auto f = index(s);
            auto l = near(s, f);
            SL sl{ file_name(s), Range{ f, l } };
            auto name = sl.file_name;
            if (before(l, f)) {
                l = f;
            }
            Index lo = f, hi = l;
            std::vector<Index> seq;
            std::ostringstream o;
            o << show(sl.range);
            auto n = 1 + s.length(12);
            bool grew = false;
            for (std::size_t i = 0; i < n; ++i) {
                Index x = s.chance(1, 3) ? near(s, lo) : s.chance(1, 2) ? near(s, hi) : index(s);
                seq.push_back(x);
                o << " + " << show(x);
                c.show = o.str();
                auto x2 = x;
                sl.expand_to_include(x2);
                grew |= before(x, lo) || before(hi, x);
                if (before(x, lo)) {
                    lo = x;
                }
                if (before(hi, x)) {
                    hi = x;
                }
                PBT_CHECK(!before(sl.range.last, sl.range.first), "the range is inverted: " << show(sl.range));
                same_range(sl.range, lo, hi, "after " + std::to_string(i + 1) + " extensions the range");
                PBT_CHECK(sl.file_name == name, "the file name changed");
            }
            // The same ones in another order, and once more each.
            SL other{ name, Range{ f, l } };
            for (std::size_t i = seq.size(); i-- > 0;) {
                other.expand_to_include(seq[i]);
            }
            for (auto& x : seq) {
                other.expand_to_include(x);
            }
            same_range(other.range, lo, hi, "the reverse order");
            // Extension with one of its own ends (an alias) changes nothing.
            other.expand_to_include(other.range.last);
            other.expand_to_include(other.range.first);
            same_range(other.range, lo, hi, "extension with its own ends");
            c.nontrivial = grew && seq.size() >= 2;
            c.label(grew ? "grew" : "did not grow");
        },
        60000, 800000 });
    return run(argc, argv, "C04",
        "positions over the 32-bit range (boundaries, near ones, log-uniform), file names, sequences of extensions; "
        "non-trivial: first and last differ, or at least two extensions of which one enlarges the range",
        cl);
}
