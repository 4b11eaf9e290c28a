#include "gen.hpp"
#include "libqasm/utils.hpp"

using namespace pbt;
using cqasm::utils::equal_case_insensitive;
using cqasm::utils::to_lowercase;

static std::string ref_lower(std::string s) {
    for (auto& c : s) {
        if (c >= 'A' && c <= 'Z') {
            c = static_cast<char>(c + 32);
        }
    }
    return s;
}

static void judge(const std::string& a, const std::string& b) {
    auto la = to_lowercase(a), lb = to_lowercase(b);
    PBT_CHECK(la == ref_lower(a), "lower-case form of " << quote(a) << " is " << quote(la));
    PBT_CHECK(lb == ref_lower(b), "lower-case form of " << quote(b) << " is " << quote(lb));
    PBT_CHECK(to_lowercase(la) == la, "lower-casing " << quote(a) << " twice differs");
    bool e = equal_case_insensitive(a, b);
    bool want = ref_lower(a) == ref_lower(b);
    PBT_CHECK(e == want, "compared as " << (e ? "equal" : "different"));
    PBT_CHECK(equal_case_insensitive(b, a) == want, "not symmetric");
    PBT_CHECK(equal_case_insensitive(a, a) && equal_case_insensitive(b, b), "not reflexive");
    PBT_CHECK(equal_case_insensitive(a, la) && equal_case_insensitive(lb, b), "differs from its own lower-case form");
}

static std::string word(Src& s, std::size_t max) {
    auto n = gen::odd_length(s, max);
    std::string r;
    auto kind = s.weighted({ 3, 2, 1 });
    for (std::size_t i = 0; i < n; ++i) {
        r += kind == 0 ? static_cast<char>((s.flip() ? 'a' : 'A') + s.draw(26))
            : kind == 1 ? s.pick(std::string{ "aAzZ@[`{_-09kKsSiI\x7f\x80\xc1\xe1\xff" })
                        : static_cast<char>(s.draw(256));
    }
    return r;
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    cl.push_back({ "every pair of bytes",
        [](Src& s, Case& c) {
            auto v = s.draw(65536);
            auto pre = word(s, 6), post = word(s, 6);
            auto a = pre + static_cast<char>(v >> 8) + post, b = pre + static_cast<char>(v & 255) + post;
            c.show = quote(a) + " ~ " + quote(b);
            judge(a, b);
            c.nontrivial = (v >> 8) != (v & 255);
            c.label(ref_lower(a) == ref_lower(b) ? "equal" : "different");
        },
        65536, 65536 * 4, 65536 });
    cl.push_back({ "related words",
        [](Src& s, Case& c) {
            auto a = word(s, 3000);
            auto b = a;
            auto kind = s.draw(6);
            if (kind >= 1) {  // other letter case here and there
                for (auto& x : b) {
                    if (((x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z')) && s.flip()) {
                        x = static_cast<char>(x ^ 0x20);
                    }
                }
            }
            if (kind == 2 && !b.empty()) {  // the case bit of any byte
                b[s.index(b.size())] ^= 0x20;
            } else if (kind == 3 && !b.empty()) {  // any other byte, often the last or the first
                auto i = s.weighted({ 1, 1, 1 });
                auto& x = i == 0 ? b.back() : i == 1 ? b.front() : b[s.index(b.size())];
                x = static_cast<char>(s.draw(256));
            } else if (kind == 4) {
                b += s.flip() ? std::string(1, static_cast<char>(s.draw(256))) : word(s, 5);
            } else if (kind == 5 && !b.empty()) {
                b.erase(s.index(b.size()), 1);
            }
            if (s.flip()) {
                std::swap(a, b);
            }
            c.show = quote(a) + " ~ " + quote(b);
            judge(a, b);
            c.nontrivial = a != b;
            c.label(a == b ? "identical" : ref_lower(a) == ref_lower(b) ? "equal up to case" : "different");
        },
        80000, 800000 });
    cl.push_back({ "unrelated words, transitivity",
        [](Src& s, Case& c) {
            auto a = word(s, 3), b = word(s, 3), d = word(s, 3);
            c.show = quote(a) + " ~ " + quote(b) + " ~ " + quote(d);
            judge(a, b);
            judge(b, d);
            PBT_CHECK(!(equal_case_insensitive(a, b) && equal_case_insensitive(b, d)) || equal_case_insensitive(a, d),
                "not transitive");
            c.nontrivial = !a.empty() && !b.empty();
        },
        40000, 400000 });
    cl.push_back({ "long words",
        [](Src& s, Case& c) {
            auto piece = word(s, 40);
            auto a = gen::stretched(s, piece, word(s, 5));
            auto b = a;
            for (auto n = s.draw(4); n > 0 && !b.empty(); --n) {
                auto& x = s.flip() ? b.back() : b[s.index(b.size())];
                x = s.chance(2, 3) ? static_cast<char>(x ^ 0x20) : static_cast<char>(s.draw(256));
            }
            if (s.chance(1, 4)) {
                b += s.flip() ? std::string(1, static_cast<char>(s.draw(256))) : word(s, 5);
            }
            c.show = std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes: " + quote(piece) + " again and again";
            judge(a, b);
            c.nontrivial = a != b;
            c.label(a == b ? "identical" : ref_lower(a) == ref_lower(b) ? "equal up to case" : "different");
        },
        150, 1500 });
    return run(argc, argv, "C03",
        "pairs of byte strings: all pairs of bytes in a random context, a word and a variation of it (case, case bit, "
        "one byte, longer, shorter), unrelated words; non-trivial: the two differ",
        cl);
}
