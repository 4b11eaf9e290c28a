#include "loc.hpp"

using namespace pbt;
using namespace loc;

static int cmp(const Index& a, const Index& b) {
    return before(a, b) ? -1 : before(b, a) ? 1 : 0;
}
static int cmp(const Range& a, const Range& b) {
    auto k = cmp(a.first, b.first);
    return k ? k : cmp(a.last, b.last);
}

template <class T>
static void agree(const T& a, const T& b, int order, bool equal, const char* what) {
    PBT_CHECK((a < b) == (order < 0), what << ": a < b is " << (a < b));
    PBT_CHECK((a > b) == (order > 0), what << ": a > b is " << (a > b));
    PBT_CHECK((a <= b) == (order <= 0), what << ": a <= b is " << (a <= b));
    PBT_CHECK((a >= b) == (order >= 0), what << ": a >= b is " << (a >= b));
    PBT_CHECK((b < a) == (order > 0) && (b > a) == (order < 0), what << ": not antisymmetric");
    PBT_CHECK((a == b) == equal, what << ": a == b is " << (a == b));
    PBT_CHECK((a != b) == !equal, what << ": a != b is " << (a != b));
    PBT_CHECK((b == a) == equal, what << ": == is not symmetric");
    PBT_CHECK(a == a && b == b && !(a < a) && a <= a && a >= a, what << ": not reflexive");
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    auto judge = [](Src& s, Case& c, const Index& a1, const Index& a2, const Index& b1, const Index& b2) {
        agree(a1, b1, cmp(a1, b1), same(a1, b1), "positions");
        Range ra{ a1, a2 }, rb{ b1, b2 };
        auto fa = file_name(s);
        auto fb = s.chance(2, 3) ? fa : file_name(s);
        c.show = show(fa) + " " + show(ra) + " vs " + show(fb) + " " + show(rb);
        bool er = same(ra.first, rb.first) && same(ra.last, rb.last);
        agree(ra, rb, cmp(ra, rb), er, "ranges");
        SL la{ fa, ra }, lb{ fb, rb };
        auto norm = [](const std::optional<std::string>& f) { return f && f->empty() ? std::nullopt : f; };
        bool ef = norm(fa) == norm(fb);
        agree(la, lb, cmp(ra, rb), er && ef, "locations");
        c.nontrivial = !er || !ef;
        c.label(er ? ef ? "all equal" : "same range, other file"
                   : same(ra.first, rb.first) ? "same start"
                   : ra.first.line == rb.first.line ? "same line"
                                                    : "other line");
    };
    cl.push_back({ "all pairs over few coordinates",
        [=](Src& s, Case& c) {
            auto v = s.draw(6561);
            static const std::uint32_t t[] = { 0, 1, 0xffffffffu };
            auto k = [&] {
                auto x = t[v % 3];
                v /= 3;
                return x;
            };
            Index i[4];
            for (auto& x : i) {
                x.line = k(), x.column = k();
            }
            judge(s, c, i[0], i[1], i[2], i[3]);
        },
        6561 * 3, 6561 * 10, 6561 });
    cl.push_back({ "pairs",
        [=](Src& s, Case& c) {
            auto a1 = index(s), a2 = near(s, a1);
            auto b1 = s.chance(1, 3) ? a1 : near(s, a1);
            auto b2 = s.chance(1, 3) ? a2 : near(s, a2);
            judge(s, c, a1, a2, b1, b2);
        },
        100000, 1000000 });
    cl.push_back({ "triples: transitivity, sorting",
        [](Src& s, Case& c) {
            std::vector<SL> v;
            auto base = index(s);
            auto n = 3 + s.draw(6);
            std::ostringstream o;
            for (std::uint64_t i = 0; i < n; ++i) {
                auto f = s.chance(1, 3) ? base : near(s, base);
                SL l{ std::string{ "f.cq" }, Range{ f, s.chance(1, 3) ? f : near(s, f) } };
                v.push_back(l);
                o << show(l.range) << " ";
            }
            c.show = o.str();
            for (auto& x : v) {
                for (auto& y : v) {
                    for (auto& z : v) {
                        PBT_CHECK(!(x < y && y < z) || x < z, "not transitive");
                        PBT_CHECK(!(x == y && y == z) || x == z, "equality is not transitive");
                        PBT_CHECK((x < y) + (y < x) + (x == y) == 1, "not a total order");
                    }
                }
            }
            std::sort(v.begin(), v.end());
            for (std::size_t i = 0; i + 1 < v.size(); ++i) {
                PBT_CHECK(cmp(v[i].range, v[i + 1].range) <= 0, "sorting leaves " << show(v[i].range) << " before "
                                                                                  << show(v[i + 1].range));
            }
            c.nontrivial = true;
        },
        15000, 150000 });
    return run(argc, argv, "C06",
        "pairs and small sets of locations with frequently equal coordinates; non-trivial: the two are not identical",
        cl);
}
