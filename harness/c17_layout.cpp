// C17: layout does not matter.
#include "lib.hpp"
#include "progen.hpp"
using namespace pbt;

struct Crlf : model::Layout {
    std::string separator() override { return "\r\n"; }
    std::string finish() override { return "\r\n"; }
};
struct Mixed : model::Random {  // as Random, with comments in most gaps
    explicit Mixed(Src& s) : Random{ s } { rate = 2; }
};

static std::string parse_outcome(const std::string& text) {
    auto p = lib::parse(text);
    return p.tree ? *p.tree : "errors:\n" + lib::messages(p.errors);
}
static std::string full_outcome(const std::string& text) {
    auto a = lib::analyse(text);
    return a.tree ? *a.tree : "errors:\n" + lib::messages(a.errors);
}
static std::vector<std::pair<std::string, std::string>> variants(Src& s, model::Program& p) {
    std::vector<std::pair<std::string, std::string>> r;
    model::Layout canonical;
    r.emplace_back("canonical", model::write(p, canonical));
    model::Semicolons semi;
    r.emplace_back("semicolons", model::write(p, semi));
    model::Spaced spaced;
    r.emplace_back("spaced", model::write(p, spaced));
    Crlf crlf;
    r.emplace_back("crlf", model::write(p, crlf));
    model::Random random{ s };
    random.crlf = s.chance(1, 4);
    r.emplace_back("random", model::write(p, random));
    Mixed mixed{ s };
    r.emplace_back("comments", model::write(p, mixed));
    return r;
}
static void same(const std::vector<std::pair<std::string, std::string>>& v) {
    auto tree = parse_outcome(v[0].second), full = full_outcome(v[0].second);
    for (std::size_t i = 1; i < v.size(); ++i) {
        auto t = parse_outcome(v[i].second);
        PBT_CHECK(t == tree, v[i].first << " layout gives\n" << t << "where the canonical one gives\n" << tree << "for\n" << quote(v[i].second) << "\nand\n" << v[0].second);
        t = full_outcome(v[i].second);
        PBT_CHECK(t == full, v[i].first << " layout gives\n" << t << "where the canonical one gives\n" << full << "for\n" << quote(v[i].second) << "\nand\n" << v[0].second);
    }
}

int main(int argc, char** argv) {
    auto valid = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.eg.redundant = 0;
        g.valid(10);
        auto v = variants(s, g.p);
        c.show = v.back().second;
        c.nontrivial = g.p.stmts.size() >= 2;
        same(v);
        // Against the model too, so that a layout-independent mistake is not taken for agreement.
        oracle::Form f;
        PBT_CHECK(parse_outcome(v[0].second) == oracle::syn(g.p, f), "syntax tree of\n" << v[0].second);
    };
    auto faulty = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        std::string kinds;
        for (auto n = 1 + s.draw(4); n > 0; --n) {
            if (s.flip()) {
                g.valid_statement();
            }
            kinds += g.faulty_statement() + ";";
        }
        auto v = variants(s, g.p);
        c.show = v.back().second;
        c.nontrivial = true;
        c.label(kinds.substr(0, kinds.find(';')));
        auto full = full_outcome(v[0].second);
        PBT_CHECK(full.rfind("errors:", 0) == 0, "a faulty program is accepted:\n" << v[0].second);
        same(v);
    };
    // Syntax errors: a token is dropped, doubled, exchanged or put in, and the gaps are filled in two ways.
    auto broken = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(4);
        auto t = model::tokens(g.p);
        std::vector<std::string> words;
        for (auto& k : t.v) {
            words.push_back(k.separator ? "\n" : k.text);
        }
        static const std::vector<std::string> extra = { ")", "(", "]", "[", ",", ":", "=", "measure", "qubit", "+", "-", ".", "?", "q", "3", "version",
            "inv", "true", "\n", "1.5", "**", "'''x'''", "asm", "wait" };
        for (auto n = 1 + s.draw(2); n > 0; --n) {
            auto i = s.index(words.size());
            switch (s.draw(4)) {
                case 0: words.erase(words.begin() + static_cast<long>(i)); break;
                case 1: words.insert(words.begin() + static_cast<long>(i), words[i]); break;
                case 2: words[i] = s.pick(extra); break;
                default: words.insert(words.begin() + static_cast<long>(i), s.pick(extra));
            }
            if (words.empty()) {
                words.push_back("q");
            }
        }
        std::string plain, filled;
        bool version = false;
        for (auto& w : words) {
            plain += w + " ";
            filled += w;
            version = w == "version";
            if (!w.empty() && w.back() == '/') {
                filled += " ";
            }
            do {
                filled += version ? s.pick({ std::string{ " " }, std::string{ "\t" }, std::string{ "   " } }) :
                                    s.pick({ std::string{ " " }, std::string{ "\t" }, std::string{ " /* x */" }, std::string{ "/**/" }, std::string{ " /*\n*/ " } });
            } while (s.chance(1, 4));
            if (!version) {
                filled += " ";
            }
        }
        c.show = filled;
        auto a = parse_outcome(plain), b = parse_outcome(filled);
        c.nontrivial = a.rfind("errors:", 0) == 0;
        c.label(c.nontrivial ? "rejected" : "accepted");
        PBT_CHECK(a == b, "blanks and comments change the outcome from\n" << a << "to\n" << b << "for\n" << plain << "\nand\n" << filled);
        auto fa = full_outcome(plain), fb = full_outcome(filled);
        PBT_CHECK(fa == fb, "blanks and comments change the outcome from\n" << fa << "to\n" << fb << "for\n" << plain << "\nand\n" << filled);
    };
    // What is no layout: any other blank-like character, and a carriage return that ends no line.
    auto foreign = [](Src& s, Case& c) {
        static const std::vector<std::string> blanks = { "\r", "\f", "\v", "\xc2\xa0", "\xe2\x80\x89", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xc2\x85", "\xe3\x80\x80", "\xef\xbb\xbf",
            std::string(1, '\0'), "\x1c", "\x1a", "\b", "\\", "\\\n", "#", "--", "%%" };
        progen::ProgramGen g{ s };
        g.valid(3);
        auto good = model::text(g.p);
        auto x = s.pick(blanks);
        std::vector<std::string> gaps = { "qubit" + x + "zzz", "qubit " + x + " zzz", "qubit[2" + x + "] zzz", "qubit zzz" + x, x + "qubit zzz", x, "qubit zzz;" + x + ";qubit zzy", "qubit zzz " + x + "// end",
            "qubit /* x */" + x + "zzz" };
        if (x == "\r") {
            for (auto& t : { "qubit zzz // one\rtwo", "// one\rtwo", "//\r\rx", "qubit zzz\rqubit zzy", "\r\r" }) {
                gaps.emplace_back(t);
            }
        }
        auto junk = s.pick(gaps);
        if (junk.back() == '\r') {
            junk += '\r';  // else the line end would make it one
        }
        auto text = good + "\n" + junk + (s.flip() ? "\n" : "\nqubit zzx\n");
        c.show = quote(text);
        c.nontrivial = junk.size() > x.size();
        c.label(quote(x));
        PBT_CHECK(parse_outcome(text).rfind("errors:", 0) == 0 && full_outcome(text).rfind("errors:", 0) == 0, quote(junk) << " is accepted at the end of\n" << quote(text));
    };
    return run(argc, argv, "C17", "programs written in six layouts; non-trivial: at least two statements (second clause: any; third: rejected by the parser; fourth: next to something)",
        { { "valid programs", valid, 800, 25000 }, { "faulty programs", faulty, 800, 25000 }, { "syntax errors", broken, 2500, 60000 },
            { "what is no layout", foreign, 1500, 30000 } });
}
