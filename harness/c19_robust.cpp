// C19: any text.
#include "decide.hpp"
#include "progen.hpp"
#include "robust.hpp"
using namespace pbt;

static const std::vector<std::string> tokens = { "version", "3.0", "3", "2.1", "qubit", "bit", "qubit[3]", "bit[2]", "qubit [0]", "q", "b", "v", "pi", "eu", "tau", "true", "false", "X", "H", "CNOT", "Rx", "Rn", "CRk", "inv", "pow", "ctrl",
    "measure", "reset", "init", "barrier", "wait", "asm", "'''", "'''raw\n'''", "''", "'", "(", ")", "[", "]", "{", "}", ",", ".", "..", ":", ";", "\n", "\r\n", "\r", "=", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "**", "/", "%",
    "&", "&&", "|", "||", "^", "^^", "~", "!", "?", "@", "#", "$", "\\", "\"", "`", "//", "// c\n", "/*", "*/", "/* c */", "0", "1", "2", "07", "1.5", ".5", "1.", "1e5", "1e", "1e-", "1.e+3", "9223372036854775807", "9223372036854775808", "1e999",
    "1e-999", "1.0e999", "1.e-999", "99999999999999999999.0", "1.0e309", "measure(1.0)", "measure(1,2,3)", "wait(1)", "Rx(1)", "pow(2).", "ctrl.", "sin", "sqrt", "acos", "x.y", "_", "__", "é", "😀", "\t", "  ", "\xEF\xBB\xBF", "\xC2\xA0", "operator", "if", "int", "0x1F", "1q", "\x01", "\x7F", "\v", "\f" };

static void decide_text(const std::string& t, Case& c) {
    c.show = t.size() > 3000 ? t.substr(0, 1500) + "\n[... " + std::to_string(t.size()) + " bytes ...]\n" + t.substr(t.size() - 1) : t;
    if (!robust::utf8(t)) {
        c.show = pbt::quote(t.substr(0, 1500));
        c.label("not UTF-8, left out");
        return;
    }
    if (!robust::bounded(t)) {
        c.label("unbounded, left out");
        return;
    }
    c.nontrivial = t.size() > 12;
    auto k = robust::check(t);
    c.label(k == 0 ? "syntax error" : k == 1 ? "semantic error" : "accepted");
}
// A complete statement or none, of tokens.
static std::string soup(Src& s, std::size_t max) {
    std::string r;
    for (auto n = s.length(max); n > 0; --n) {
        r += s.pick(tokens) + s.pick({ std::string{ " " }, std::string{}, std::string{ "\n" } });
    }
    return r;
}
// The first n bytes of a text, up to a character boundary.
static std::size_t boundary(const std::string& t, std::size_t at) {
    while (at > 0 && at < t.size() && (static_cast<unsigned char>(t[at]) & 0xC0) == 0x80) {
        --at;
    }
    return at;
}
static std::string mutated(Src& s, std::string t) {
    for (auto n = 1 + s.draw(4); n > 0; --n) {
        auto i = boundary(t, s.draw(t.size() + 1)), j = boundary(t, s.draw(t.size() + 1));
        if (s.chance(2, 3)) {  // mostly short stretches
            j = boundary(t, std::min(t.size(), i + s.draw(6)));
        }
        if (i > j) {
            std::swap(i, j);
        }
        switch (s.draw(6)) {
            case 0: t.erase(i, j - i); break;
            case 1: t.insert(i, s.pick(tokens)); break;
            case 2: t.insert(j, t.substr(i, std::min<std::size_t>(j - i, 500))); break;
            case 3: t.replace(i, j - i, s.pick(tokens)); break;
            case 4: t = t.substr(0, j); break;
            default: {
                auto k = boundary(t, s.draw(t.size() + 1));
                auto cut = t.substr(i, j - i);
                t.erase(i, j - i);
                t.insert(std::min(k, boundary(t, std::min(k, t.size()))), cut);
            }
        }
    }
    return t;
}
static std::string times(const std::string& x, std::size_t n) {
    std::string r;
    r.reserve(x.size() * n);
    for (std::size_t i = 0; i < n; ++i) {
        r += x;
    }
    return r;
}

int main(int argc, char** argv) {
    auto soups = [](Src& s, Case& c) {
        std::string t = s.chance(1, 4) ? "" : "version 3.0\n";
        t += s.chance(1, 3) ? "" : "qubit[3] v\nqubit q\nbit b\n";
        decide_text(t + soup(s, 40), c);
    };
    auto mutations = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        if (s.chance(1, 3)) {
            auto p = decide::anything(s);
            auto t = model::text(p);
            decide_text(s.flip() ? t : mutated(s, t), c);
            return;
        }
        if (s.flip()) {
            g.valid(8);
        } else {
            for (auto n = 1 + s.length(8); n > 0; --n) {
                s.flip() ? (void)g.faulty_statement() : g.valid_statement();
            }
        }
        decide_text(mutated(s, model::text(g.p)), c);
    };
    auto texts = [](Src& s, Case& c) {
        auto t = gen::text(s, 200);
        switch (s.draw(4)) {
            case 0: break;
            case 1: t = "version 3.0\n" + t; break;
            case 2: t = "version 3.0\nqubit[4] q\nX " + t; break;
            default: t = "version 3.0\nasm(A) '''" + t + "'''\nqubit q";
        }
        decide_text(t, c);
    };
    // Long: tokens, lists, chains, programs. Deep: as far as is explored.
    auto extremes = [](Src& s, Case& c) {
        auto n = 1 + s.draw(s.pick({ std::size_t{ 10 }, std::size_t{ 1000 }, std::size_t{ 20000 } }));
        auto big = n * 10;
        auto few = 1 + n % 40, some = 1 + n % 160;
        std::string head = "version 3.0\nqubit[3] v; qubit q; bit[3] w; bit b\n", t;
        auto k = s.draw(30);
        c.label("kind " + std::to_string(k));
        switch (k) {
            case 0: t = "version " + times("3", big) + ".0\n"; break;
            case 1: t = "version 3." + times("0", big) + "\n"; break;
            case 2: t = head + "qubit " + times("a", big); break;
            case 3: t = head + "X " + times("a", big); break;
            case 4: t = head + times("a", big) + " q"; break;
            case 5: t = head + "Rx(" + times("1", big) + ") q"; break;
            case 6: t = head + "Rx(1." + times("1", big) + ") q"; break;
            case 7: t = head + "Rx(1e" + times("1", big) + ") q"; break;
            case 8: t = head + "Rx(" + times("0", big) + "1) q"; break;
            case 9: t = head + "qubit[" + times("9", big) + "] z"; break;
            case 10: t = head + "asm(A) '''" + times("x\n'", big / 3) + "z'''\nX q"; break;
            case 11: t = head + "/*" + times("* / ", big / 4) + "*/ X q"; break;
            case 12: t = head + "//" + times("x", big) + "\nX q"; break;
            case 13: t = head + "X v[" + times("0,", n / 8) + "1]"; break;
            case 14: t = head + "X v[" + times("0:2,", n / 8) + "1]"; break;
            case 15: t = head + "Rx(sin(" + times("1,", n / 8) + "1)) q"; break;
            case 16: t = head + "X " + times("q,", n / 8) + "q"; break;
            case 17: t = head + times("X q\n", n / 32); break;
            case 18: t = head + times("X none\n", n / 32); break;
            case 19: t = head + times(";", n / 4) + times("\n", n / 4); break;
            case 20: t = head + "Rx(" + times("(", few) + "1" + times(")", s.chance(3, 4) ? few : few - 1) + ") q"; break;
            case 21: t = head + "Rx(" + times("-", some) + "1) q"; break;
            case 22: t = head + "Rx(" + times("2**", some) + "1) q"; break;
            case 23: t = head + "Rx(1" + times("+1", some) + ") q"; break;
            case 24: t = head + "Rx(" + times("true?1:", few) + "1) q"; break;
            case 25: t = head + times("inv.", some) + "X q"; break;
            case 26: t = head + times("pow(2).", some) + "X q"; break;
            case 27: t = head + times("ctrl.", some) + "X q"; break;
            case 28: t = head + "Rx(" + times("sin(", few) + "1" + times(")", few) + ") q"; break;
            default: t = head + times("qubit x" + std::to_string(n) + ";", 1 + n / 100);
        }
        c.show = t.size() > 400 ? t.substr(0, 200) + " [... " + std::to_string(t.size()) + " bytes ...]" : t;
        c.nontrivial = n > 10;
        auto r = robust::check(t);
        c.label(r == 0 ? "syntax error" : r == 1 ? "semantic error" : "accepted");
    };
    // The version number that exhausted the stack, and its neighbours.
    auto digits = [](Src& s, Case& c) {
        auto n = s.pick({ std::size_t{ 50000 }, std::size_t{ 100000 }, std::size_t{ 200000 }, std::size_t{ 300000 } });
        auto t = s.flip() ? "version 3." + times("0", n) : "version " + times(std::string{ static_cast<char>('0' + s.draw(10)) }, n);
        c.show = t.substr(0, 20) + " [... " + std::to_string(n) + " digits]";
        c.nontrivial = true;
        robust::check(t);
    };
    return run(argc, argv, "C19", "texts: sequences of tokens, mutated programs, any characters, long and deep ones; non-trivial: more than 12 bytes",
        { { "token sequences", soups, 8000, 200000 }, { "mutated programs", mutations, 8000, 200000 }, { "any characters", texts, 6000, 150000 }, { "long and deep", extremes, 600, 6000 }, { "long versions", digits, 16, 64 } });
}
