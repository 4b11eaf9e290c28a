// C29: literals.
#include "decide.hpp"
using namespace pbt;

// Natural numbers of any size, enough of them to compare decimal fractions with binary ones exactly.
struct Big {
    std::vector<std::uint32_t> d;  // little end first
    void trim() {
        while (!d.empty() && d.back() == 0) {
            d.pop_back();
        }
    }
    void mul_add(std::uint32_t m, std::uint32_t a) {
        std::uint64_t carry = a;
        for (auto& x : d) {
            carry += static_cast<std::uint64_t>(x) * m;
            x = static_cast<std::uint32_t>(carry);
            carry >>= 32;
        }
        if (carry) {
            d.push_back(static_cast<std::uint32_t>(carry));
        }
        trim();
    }
    std::uint32_t div(std::uint32_t m) {
        std::uint64_t rest = 0;
        for (auto i = d.size(); i-- > 0;) {
            rest = rest << 32 | d[i];
            d[i] = static_cast<std::uint32_t>(rest / m);
            rest %= m;
        }
        trim();
        return static_cast<std::uint32_t>(rest);
    }
    [[nodiscard]] int compare(const Big& o) const {
        if (d.size() != o.d.size()) {
            return d.size() < o.d.size() ? -1 : 1;
        }
        for (auto i = d.size(); i-- > 0;) {
            if (d[i] != o.d[i]) {
                return d[i] < o.d[i] ? -1 : 1;
            }
        }
        return 0;
    }
    void times(std::uint32_t m, long n) {
        for (long i = 0; i < n; ++i) {
            mul_add(m, 0);
        }
    }
    static Big from(std::uint64_t v) {
        Big b;
        b.d = { static_cast<std::uint32_t>(v), static_cast<std::uint32_t>(v >> 32) };
        b.trim();
        return b;
    }
    [[nodiscard]] std::string text() const {
        Big b = *this;
        std::string r;
        while (!b.d.empty()) {
            r += static_cast<char>('0' + b.div(10));
        }
        std::reverse(r.begin(), r.end());
        return r.empty() ? "0" : r;
    }
};
// A literal's digits and power of ten.
struct Decimal {
    Big n;
    long exp = 0;
};
static Decimal decimal(const std::string& t) {
    Decimal r;
    bool point = false;
    std::size_t i = 0;
    for (; i < t.size() && t[i] != 'e' && t[i] != 'E'; ++i) {
        if (t[i] == '.') {
            point = true;
        } else {
            r.n.mul_add(10, static_cast<std::uint32_t>(t[i] - '0'));
            r.exp -= point;
        }
    }
    if (i < t.size()) {
        r.exp += std::stol(t.substr(i + 1));
    }
    return r;
}
// Compares n * 10^e with m * 2^k.
static int compare(const Decimal& a, std::uint64_t m, long k) {
    Big x = a.n, y = Big::from(m);
    if (a.exp >= 0) {
        x.times(10, a.exp);
    } else {
        y.times(10, -a.exp);
    }
    if (k >= 0) {
        y.times(2, k);
    } else {
        x.times(2, -k);
    }
    return x.compare(y);
}
// Whether v is the double nearest to the literal, ties to even. v is finite and positive or zero.
static bool nearest(const Decimal& a, double v) {
    auto bits = std::bit_cast<std::uint64_t>(v);
    if (bits >> 63) {
        return false;
    }
    auto e = static_cast<long>(bits >> 52);
    std::uint64_t m = bits & 0xfffffffffffffull;
    if (e) {
        m |= 1ull << 52;
    } else {
        e = 1;
    }
    long k = e - 1075;
    bool even = !(m & 1);
    // Half way up.
    int up = compare(a, 2 * m + 1, k - 1);
    if (up > 0 || (up == 0 && !even)) {
        return false;
    }
    if (m == 0) {
        return true;
    }
    // Half way down: a smaller step below a power of two.
    bool edge = m == 1ull << 52 && e > 1;
    int down = edge ? compare(a, 4 * m - 1, k - 2) : compare(a, 2 * m - 1, k - 1);
    return down > 0 || (down == 0 && even);
}
// The point half way between a double and the next, or the double itself, in full.
static std::string exact_text(double v, bool half) {
    auto bits = std::bit_cast<std::uint64_t>(v);
    auto e = static_cast<long>(bits >> 52 & 0x7ff);
    std::uint64_t m = (bits & 0xfffffffffffffull) | (e ? 1ull << 52 : 0);
    long k = (e ? e : 1) - 1075;
    if (half) {
        m = 2 * m + 1;
        --k;
    }
    Big b = Big::from(m);
    if (k >= 0) {
        b.times(2, k);
        return b.text() + ".0";
    }
    b.times(5, -k);
    auto t = b.text();
    auto places = static_cast<std::size_t>(-k);
    if (t.size() <= places) {
        t = std::string(places + 1 - t.size(), '0') + t;
    }
    t.insert(t.size() - places, ".");
    return t;
}

static void check_real(const std::string& text, Case& c) {
    auto program = "version 3.0\nqubit q\nRx(" + text + ") q\n";
    c.show = program;
    auto p = lib::parse(program);
    auto a = lib::analyse(program);
    auto d = decimal(text);
    // Bounds: half way beyond the largest double, and the smallest normal one.
    bool over = compare(d, (1ull << 54) - 1, 970) >= 0;
    bool zero = d.n.d.empty();
    bool under = !zero && compare(d, 1, -1022) < 0;
    if (over) {
        c.label("too large");
        PBT_CHECK(p.errors.size() == 1 && a.errors.size() == 1, "a real that is too large gives:\n" << lib::outcome(a) << "for:\n" << program);
        PBT_CHECK(p.errors[0].message.find("'" + text + "'") != std::string::npos, "the error does not name the literal: " << p.errors[0].what << "\nfor:\n" << program);
        PBT_CHECK(p.errors[0].at.l1 == 3 && p.errors[0].at.c1 == 4, "the error is elsewhere: " << p.errors[0].what);
        return;
    }
    if (under && !p.tree) {  // below the normal range: may be refused
        c.label("too small, refused");
        PBT_CHECK(p.errors.size() == 1 && p.errors[0].message.find("'" + text + "'") != std::string::npos, "the error does not name the literal: " << lib::show(p.errors) << "for:\n" << program);
        return;
    }
    PBT_CHECK(p.tree && a.tree, "rejected: " << lib::show(a.errors) << "for:\n" << program);
    auto* st = p.result.root->as_program()->block->statements[1]->as_gate_instruction();
    auto* f = st->gate->parameters->items[0]->as_float_literal();
    PBT_CHECK(f, "not a real in the tree:\n" << *p.tree);
    PBT_CHECK(std::isfinite(f->value) && nearest(d, f->value), text << " is " << lib::hex(f->value) << " in the syntax tree");
    auto* v = a.result.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->as_const_float();
    PBT_CHECK(v && lib::hex(v->value) == lib::hex(f->value), text << " is something else in the semantic tree:\n" << *a.tree);
    // What is below the smallest normal number is accepted only where it is rounded to that number.
    PBT_CHECK(zero || std::isnormal(f->value), text << " is below the range of normal numbers, but is accepted, as " << lib::hex(f->value));
    c.label(zero ? "zero" : under ? "rounded up to normal" : "normal");
}

int main(int argc, char** argv) {
    auto integers = [](Src& s, Case& c) {
        std::string t;
        switch (s.weighted({ 4, 3, 3, 1 })) {
            case 0: t = std::to_string(static_cast<std::uint64_t>(gen::i64(s))); break;
            case 1: {
                for (auto n = 1 + s.draw(24); n > 0; --n) {
                    t += static_cast<char>('0' + s.draw(10));
                }
                break;
            }
            case 2: {  // near the limit
                auto b = Big::from(s.pick({ 9223372036854775807ull, 9223372036854775808ull, 4294967296ull, 2147483648ull, 18446744073709551615ull, 922337203685477580ull, 9223372036854775800ull }));
                t = b.text();
                if (s.flip()) {
                    t.back() = static_cast<char>('0' + s.draw(10));
                }
                if (s.chance(1, 4)) {
                    t += static_cast<char>('0' + s.draw(10));
                }
                break;
            }
            default: t = std::string(1 + s.draw(400), s.pick(std::string{ "019" }));
        }
        if (s.chance(1, 3)) {
            t = std::string(1 + s.draw(40), '0') + t;
        }
        bool fine = oracle::int_in_range(t);
        c.nontrivial = t.size() > 1;
        c.label(fine ? "in range" : "out of range");
        // In a parameter, an index, a wait, and as an array size.
        auto where = s.draw(4);
        std::string before = where == 0 ? "CRk(" : where == 1 ? "X v[" : where == 2 ? "wait(" : "qubit[", after = where == 0 ? ") q,r" : where == 1 ? "]" : where == 2 ? ")q" : "]z";
        std::string program = "version 3.0\nqubit q;qubit r;qubit[9223372036854775807] v\n" + before + t + after + "\n";
        c.show = program;
        auto p = lib::parse(program);
        auto a = lib::analyse(program);
        if (!fine) {
            PBT_CHECK(p.errors.size() == 1 && a.errors.size() == 1, "an integer out of range gives:\n" << lib::outcome(a) << "for:\n" << program);
            PBT_CHECK(p.errors[0].message.find("'" + t + "'") != std::string::npos, "the error does not name the literal: " << p.errors[0].what << "\nfor:\n" << program);
            PBT_CHECK(p.errors[0].at.l1 == 3 && p.errors[0].at.c1 == before.size() + 1, "the error is elsewhere: " << p.errors[0].what << "\nfor:\n" << program);
            return;
        }
        PBT_CHECK(p.tree, "not parsed: " << lib::show(p.errors) << "for:\n" << program);
        auto i = t.find_first_not_of('0');
        auto plain = i == std::string::npos ? "0" : t.substr(i);
        std::string want = where == 0 ? "int:" + plain + ")" : where == 1 ? "[int:" + plain + "]" : where == 2 ? "int:" + plain + ")" : "[" + plain + "] z";
        PBT_CHECK(p.tree->find(want) != std::string::npos, "the value of " << t << " is not in the syntax tree:\n" << *p.tree);
        if (where == 3 && plain == "0") {
            PBT_CHECK(a.errors.size() == 1, "an empty array");
            return;
        }
        if (where == 1 && plain == "9223372036854775807") {
            PBT_CHECK(a.errors.size() == 1, "an index out of range");
            return;
        }
        PBT_CHECK(a.tree, "rejected: " << lib::show(a.errors) << "for:\n" << program);
        want = where == 0 || where == 2 ? "int " + plain + ")" : where == 1 ? "{" + plain + "}" : "variable qubit[" + plain + "] z";
        PBT_CHECK(a.tree->find(want) != std::string::npos, "the value of " << t << " is not in the semantic tree:\n" << *a.tree);
    };
    auto reals = [](Src& s, Case& c) {
        std::string t;
        auto some = [&](std::size_t max) {
            std::string r;
            for (auto n = 1 + s.draw(max); n > 0; --n) {
                r += static_cast<char>('0' + (s.chance(1, 4) ? 0 : s.draw(10)));
            }
            return r;
        };
        switch (s.weighted({ 6, 3, 1 })) {
            case 0: {
                auto a = some(s.chance(1, 8) ? 60 : 6), b = some(s.chance(1, 8) ? 60 : 8);
                auto form = s.draw(3);
                t = form == 0 ? a + "." + b : form == 1 ? a + "." : "." + b;
                if (s.flip()) {
                    t += s.pick({ "e", "E" });
                    t += s.pick({ "", "+", "-" });
                    if (s.chance(1, 6)) {
                        t += std::string(1 + s.draw(3), '0');
                    }
                    t += std::to_string(s.chance(1, 3) ? 290 + s.draw(40) : s.chance(1, 4) ? s.draw(400) : s.draw(30));
                }
                break;
            }
            case 1: {  // a double, as printed with seventeen digits or fewer
                double v = std::fabs(gen::real(s));
                if (!std::isfinite(v)) {
                    v = 1.5;
                }
                char b[64];
                std::snprintf(b, sizeof b, "%.*e", static_cast<int>(1 + s.draw(20)), v);
                t = b;
                break;
            }
            default: t = s.pick({ std::string{ "1.7976931348623157e308" }, std::string{ "1.7976931348623158e308" }, std::string{ "1.7976931348623159e308" }, std::string{ "1.0e309" }, std::string{ "2.2250738585072014e-308" },
                         std::string{ "2.2250738585072011e-308" }, std::string{ "4.9e-324" }, std::string{ "1.0e-400" }, std::string{ "0.0e999999" }, std::string{ "0." }, std::string{ ".0" }, std::string{ "1.e5" }, std::string{ "9007199254740993.0" } });
        }
        c.nontrivial = t.size() > 3;
        check_real(t, c);
    };
    // Just below, at and just above the points half way between two doubles.
    auto midpoints = [](Src& s, Case& c) {
        auto bits = (static_cast<std::uint64_t>(s.chance(1, 4) ? s.draw(2046) + 1 : 1023 - 60 + s.draw(130)) << 52) | (s.chance(1, 4) ? s.pick({ 0ull, 1ull, 0xfffffffffffffull, 0xffffffffffffeull }) : static_cast<std::uint64_t>(gen::i64(s)) & 0xfffffffffffffull);
        auto t = exact_text(std::bit_cast<double>(bits), s.chance(4, 5));
        switch (s.draw(3)) {
            case 0: break;
            case 1: t += std::string(s.draw(4), '0') + "1"; break;
            default: {  // one less in the last place
                auto i = t.size();
                while (i-- > 0) {
                    if (t[i] == '.') {
                        continue;
                    }
                    if (t[i] != '0') {
                        --t[i];
                        break;
                    }
                    t[i] = '9';
                }
            }
        }
        c.nontrivial = true;
        check_real(t, c);
    };
    // Words that look like literals.
    auto words = [](Src& s, Case& c) {
        static const std::vector<std::string> others = { "True", "FALSE", "true1", "falsey", "e5", "E1", "inf", "nan", "_1", "tru", "I", "im" };
        bool real_word = s.flip();
        auto w = real_word ? s.pick({ std::string{ "true" }, std::string{ "false" } }) : s.pick(others);
        std::string program = "version 3.0\nqubit q\nwait(" + w + ")q\nRx(" + w + ")q\nRx(" + w + " ? 1 : 2)q\n";
        c.show = program;
        c.nontrivial = true;
        auto a = lib::analyse(program);
        auto p = lib::parse(program);
        PBT_CHECK(p.tree, "not parsed: " << lib::show(p.errors));
        PBT_CHECK((p.tree->find("bool:" + w) != std::string::npos) == real_word, "the word " << w << ":\n" << *p.tree);
        if (real_word) {
            std::string n = w == "true" ? "1" : "0", r = w == "true" ? "0x1p+0" : "0x0p+0", k = w == "true" ? "0x1p+0" : "0x1p+1";
            PBT_CHECK(a.tree, "rejected: " << lib::show(a.errors));
            PBT_CHECK(a.tree->find("(int " + n + ")") != std::string::npos && a.tree->find("(real " + r + ")") != std::string::npos && a.tree->find("(real " + k + ")") != std::string::npos, w << ":\n" << *a.tree);
        } else {
            PBT_CHECK(a.errors.size() == 3, w << " gives:\n" << lib::outcome(a));
        }
    };
    return run(argc, argv, "C29", "integer and real literals of all sizes; non-trivial: more than one digit (three for reals)",
        { { "integers", integers, 5000, 150000 }, { "reals", reals, 5000, 150000 }, { "half way between doubles", midpoints, 1500, 40000 }, { "words", words, 60, 200 } });
}
