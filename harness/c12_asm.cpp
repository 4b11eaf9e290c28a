// C12: raw text of assembly declarations.
#include "lib.hpp"
#include "progen.hpp"
using namespace pbt;

static model::S assembly(const std::string& backend, const std::string& raw) {
    auto st = std::make_shared<model::Stmt>();
    st->kind = model::Stmt::assembly;
    st->word = backend;
    st->name = raw;
    return st;
}

static void check(model::Program& p, const std::string& text) {
    oracle::Form f;
    auto parsed = lib::parse(text);
    PBT_CHECK(parsed.tree, "a valid program is not parsed:\n" << quote(text) << "\n" << lib::show(parsed.errors));
    PBT_CHECK(*parsed.tree == oracle::syn(p, f), "syntax tree:\n" << *parsed.tree << "expected:\n" << oracle::syn(p, f) << "for:\n" << quote(text));
    auto r = oracle::analyse(p, f);
    auto a = lib::analyse(text);
    PBT_CHECK(a.tree, "a valid program is rejected:\n" << quote(text) << "\n" << lib::show(a.errors));
    auto want = oracle::written(p, r, f);
    PBT_CHECK(lib::agree(want, *a.tree, r.rough), "semantic tree:\n" << *a.tree << "expected:\n" << want << "for:\n" << quote(text));
}

int main(int argc, char** argv) {
    auto random = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        std::size_t special = 0, count = 0;
        for (auto n = 1 + s.draw(6); n > 0; --n) {
            if (s.flip()) {
                g.valid_statement();
            } else {
                auto raw = s.chance(1, 12) ? std::string(s.length(40), s.pick(std::string{ " \t\n\r;/*\\\"a0" })) + std::string(s.length(3), s.pick(std::string{ " \t\n" })) :
                           s.chance(1, 30) ? std::string(1000 + s.draw(70000), s.pick(std::string{ "a'\n\\ " })) + "x" : progen::raw_text(s);
                for (std::size_t i = 0; (i = raw.find("'''", i)) != std::string::npos;) {
                    raw.replace(i, 3, "''x");
                }
                special += raw.find_first_of("'\n\\\r;/\"") != std::string::npos || std::any_of(raw.begin(), raw.end(), [](char x) { return x < 0; });
                ++count;
                g.add(assembly(progen::fresh_name(s), raw));
            }
        }
        model::Random layout{ s };
        layout.rate = 12;
        auto text = s.flip() ? model::text(g.p) : model::write(g.p, layout);
        c.show = text;
        c.nontrivial = special > 0;
        c.label(count > 1 ? "several declarations" : "at most one declaration");
        check(g.p, text);
    };
    // Every text of up to 4 characters over a small alphabet, between two other declarations.
    static const std::vector<std::string> letters = { "'", "\n", "\\", "/", "*", "a", ";", "\xc3\xa9" };
    std::uint64_t total = 0, power = 1;
    for (int i = 0; i <= 4; ++i) {
        total += power;
        power *= letters.size();
    }
    auto all = [=](Src& s, Case& c) {
        auto k = s.draw(total);
        std::uint64_t block = 1;
        std::size_t n = 0;
        while (k >= block) {
            k -= block;
            block *= letters.size();
            ++n;
        }
        std::string raw;
        for (std::size_t i = 0; i < n; ++i) {
            raw += letters[k % letters.size()];
            k /= letters.size();
        }
        c.show = quote(raw);
        c.nontrivial = !raw.empty();
        if (raw.find("'''") != std::string::npos || (!raw.empty() && raw.back() == '\'')) {
            c.nontrivial = false;  // cannot be written: ends earlier
            return;
        }
        model::Program p;
        p.stmts = { assembly("A", "before"), assembly("B", raw), assembly("C", "after") };
        auto text = model::text(p);
        check(p, text);
        p.stmts.insert(p.stmts.begin() + 1, std::make_shared<model::Stmt>());
        p.stmts[1]->word = "qubit";
        p.stmts[1]->name = "q";
        model::Semicolons l;
        check(p, model::write(p, l));
    };
    return run(argc, argv, "C12",
        "programs with assembly declarations; non-trivial: a raw text with a quote, backslash, line end, separator, comment marker or "
        "non-ASCII character (second clause: that is not empty and can be written)",
        { { "generated texts", random, 3000, 60000 }, { "all short texts", all, total, total, total } });
}
