#include <fmt/format.h>

#include "gen.hpp"
#include "libqasm/version.hpp"

using namespace pbt;
using cqasm::version::Version;
using Comps = std::vector<std::int64_t>;

static std::string join(const Comps& v) {
    std::string r;
    for (std::size_t i = 0; i < v.size(); ++i) {
        r += (i ? "." : "") + std::to_string(v[i]);
    }
    return r;
}

static int ref_cmp(Comps a, Comps b) {
    auto n = std::max(a.size(), b.size());
    a.resize(n, 0);
    b.resize(n, 0);
    return a < b ? -1 : a > b ? 1 : 0;
}

static std::int64_t component(Src& s) {
    return static_cast<std::int64_t>(gen::u32(s) & 0x7fffffffu);
}

static Comps comps(Src& s) {
    Comps v;
    auto n = 1 + s.length(s.chance(1, 10) ? 40 : 5);
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(s.chance(1, 3) ? 0 : component(s));
    }
    return v;
}

static Comps related(Src& s, Comps v) {
    switch (s.weighted({ 2, 3, 2, 2, 3 })) {
        case 0: break;
        case 1: v[s.flip() ? v.size() - 1 : s.index(v.size())] = component(s); break;
        case 2: v.insert(v.end(), 1 + s.draw(3), 0); break;
        case 3:
            v.push_back(component(s));
            break;
        default:
            if (v.size() > 1) {
                v.resize(1 + s.index(v.size() - 1));
            }
            if (s.flip()) {
                auto& x = v.back();
                x = x > 0 && s.flip() ? x - 1 : std::min<std::int64_t>(x + 1, 0x7fffffff);
            }
    }
    return v;
}

static void agree(const Version& a, const Version& b, int order) {
    PBT_CHECK((a == b) == (order == 0), "a == b is " << (a == b));
    PBT_CHECK((a != b) == (order != 0), "a != b is " << (a != b));
    PBT_CHECK((a < b) == (order < 0), "a < b is " << (a < b));
    PBT_CHECK((a > b) == (order > 0), "a > b is " << (a > b));
    PBT_CHECK((a <= b) == (order <= 0), "a <= b is " << (a <= b));
    PBT_CHECK((a >= b) == (order >= 0), "a >= b is " << (a >= b));
}

static void reads(const std::string& text, const Comps& v) {
    Version x{ text };
    PBT_CHECK(static_cast<const Comps&>(x) == v, "read " << quote(text) << " as " << join(x));
    Version y{ text.c_str() };
    PBT_CHECK(static_cast<const Comps&>(y) == v, "read (char*) " << quote(text) << " as " << join(y));
    std::ostringstream o;
    o << x;
    PBT_CHECK(o.str() == join(v), "printed " << quote(o.str()));
    PBT_CHECK(fmt::format("{}", x) == join(v), "formatted " << quote(fmt::format("{}", x)));
    Version back{ o.str() };
    PBT_CHECK(static_cast<const Comps&>(back) == v && back == x, "printing and reading again differs: " << join(back));
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    cl.push_back({ "reading and printing",
        [](Src& s, Case& c) {
            auto v = comps(s);
            c.show = join(v);
            reads(join(v), v);
            c.nontrivial = v.size() > 1;
            c.label("components: " + std::to_string(std::min<std::size_t>(v.size(), 6)));
            if (s.chance(1, 4)) {  // leading zeros
                std::string t;
                for (std::size_t i = 0; i < v.size(); ++i) {
                    t += (i ? "." : "") + std::string(s.draw(3), '0') + std::to_string(v[i]);
                }
                c.show = t;
                c.label("leading zeros");
                reads(t, v);
            }
        },
        60000, 600000 });
    cl.push_back({ "no version",
        [](Src& s, Case& c) {
            auto b = comps(s);
            bool zeros = s.flip();
            if (zeros) {
                std::fill(b.begin(), b.end(), 0);
            }
            c.show = "\"\" vs " + join(b);
            Version e{ std::string{} }, d;
            PBT_CHECK(e.empty() && d.empty(), "the empty text has components");
            agree(e, Version{ join(b) }, ref_cmp({}, b));
            agree(Version{ join(b) }, d, ref_cmp(b, {}));
            c.nontrivial = true;
        },
        5000, 50000 });
    cl.push_back({ "pairs",
        [](Src& s, Case& c) {
            auto a = comps(s);
            auto b = s.chance(4, 5) ? related(s, a) : comps(s);
            if (s.flip()) {
                std::swap(a, b);
            }
            c.show = join(a) + " vs " + join(b);
            auto k = ref_cmp(a, b);
            Version va{ join(a) }, vb{ join(b) };
            agree(va, vb, k);
            agree(vb, va, -k);
            agree(va, va, 0);
            c.nontrivial = a != b;
            c.label(k == 0 ? a == b ? "identical" : "equal up to zeros" : a.size() == b.size() ? "same length" : "other length");
        },
        100000, 1000000 });
    cl.push_back({ "triples",
        [](Src& s, Case& c) {
            auto a = comps(s), b = related(s, a), d = related(s, b);
            c.show = join(a) + " " + join(b) + " " + join(d);
            Version v[3] = { join(a), join(b), join(d) };
            for (auto& x : v) {
                for (auto& y : v) {
                    for (auto& z : v) {
                        PBT_CHECK(!(x <= y && y <= z) || x <= z, "not transitive");
                        PBT_CHECK(!(x == y && y < z) || x < z, "equal versions compare differently with a third");
                    }
                }
            }
            c.nontrivial = a != b && b != d;
        },
        30000, 300000 });
    cl.push_back({ "negative components",
        [](Src& s, Case& c) {
            auto v = comps(s);
            v[s.flip() ? v.size() - 1 : s.index(v.size())] = -1 - component(s);
            c.show = join(v);
            c.nontrivial = v.size() > 1;
            bool rejected = false;
            try {
                Version x{ join(v) };
            } catch (const std::exception&) {
                rejected = true;
            }
            PBT_CHECK(rejected, "accepted");
        },
        20000, 200000 });
    cl.push_back({ "components set directly",
        [](Src& s, Case& c) {
            auto wide = [&] {
                Comps v;
                for (auto n = s.length(8); n > 0; --n) {
                    v.push_back(s.chance(1, 3) ? 0 : gen::i64(s));
                }
                return v;
            };
            auto a = wide(), b = s.flip() ? wide() : a;
            switch (s.draw(4)) {
                case 0: b.push_back(gen::i64(s)); break;
                case 1: b.push_back(0); break;
                case 2:
                    if (!b.empty()) {
                        auto& x = b[s.index(b.size())];
                        x = static_cast<std::int64_t>(static_cast<std::uint64_t>(x) + (std::uint64_t{ 1 } << s.draw(64)));
                    }
                    break;
                default: break;
            }
            c.show = join(a) + " vs " + join(b);
            auto filled = [](const Comps& v) {
                Version x;
                for (auto i : v) {
                    x.push_back(i);
                }
                return x;
            };
            auto va = filled(a), vb = filled(b);
            auto k = ref_cmp(a, b);
            agree(va, vb, k);
            agree(vb, va, -k);
            std::ostringstream o;
            o << va;
            PBT_CHECK(o.str() == join(a), "printed " << quote(o.str()));
            c.nontrivial = a != b;
        },
        40000, 400000 });
    cl.push_back({ "malformed components",
        [](Src& s, Case& c) {
            auto v = comps(s);
            std::vector<std::string> parts;
            for (auto x : v) {
                parts.push_back(std::to_string(x));
            }
            auto where = s.weighted({ 2, 1, 2 });
            auto i = where == 0 ? parts.size() - 1 : where == 1 ? 0 : s.index(parts.size());
            bool large = s.chance(1, 3);
            if (large) {
                parts[i] = s.flip() ? std::to_string((std::uint64_t{ 1 } << (31 + s.draw(33))) + s.draw(5)) : "1" + std::string(9 + s.draw(30), '0');
            } else {
                parts[i] = s.pick({ "", "", "x", ".", "-", "+", "v3", "\"" });
            }
            std::string text;
            for (std::size_t k = 0; k < parts.size(); ++k) {
                text += (k ? "." : "") + parts[k];
            }
            if (text.empty()) {
                text = ".";
            }
            c.show = quote(text);
            c.nontrivial = parts.size() > 1;
            c.label(large ? "too large" : "no number");
            try {
                Version x{ text };
                // One that is too large for the reader may be read, but not as anything else.
                PBT_CHECK(large && fmt::format("{}", x) == text, "read as " << fmt::format("{}", x));
            } catch (const std::logic_error&) {
            }
        },
        20000, 200000 });
    return run(argc, argv, "C07",
        "lists of 1 to 40 components from 0 to 2^31-1 (any 64-bit ones, set directly) and variations of them (one component, trailing zeros, prefix, "
        "longer); non-trivial: more than one component, or the versions compared are not identical",
        cl);
}
