// C21: the tree of a valid program, compared with what the model says it is.
#include "large.hpp"
using namespace pbt;

int main(int argc, char** argv) {
    auto body = [](Src& s, Case& c, std::size_t max) {
        progen::ProgramGen g{ s };
        if (max < 100) {
            g.valid(max);
        } else {  // at least max, and registers that are as large
            g.depth = 1;
            g.max_size = 1 + s.draw(2 * max);
            for (auto n = max + s.draw(2 * max); n > 0; --n) {
                g.valid_statement();
            }
        }
        model::Random layout{ s };
        layout.rate = 12;
        auto text = s.flip() ? model::text(g.p) : model::write(g.p, layout);
        c.show = max < 100 ? text : text.substr(0, 500) + "[... " + std::to_string(g.p.stmts.size()) + " statements]";
        c.nontrivial = g.p.stmts.size() >= 3;
        oracle::Form f;
        auto parsed = lib::parse(text);
        PBT_CHECK(parsed.tree, "a valid program is not parsed:\n" << text << "\n" << lib::show(parsed.errors));
        PBT_CHECK(*parsed.tree == oracle::syn(g.p, f), "syntax tree:\n" << *parsed.tree << "expected:\n" << oracle::syn(g.p, f) << "for:\n" << text);
        auto r = oracle::analyse(g.p, f);
        PBT_CHECK(r.faults.empty(), "generator: fault " << r.faults[0].second.what << " in\n" << text);
        auto a = lib::analyse(text);
        PBT_CHECK(a.tree, "a valid program is rejected:\n" << text << "\n" << lib::show(a.errors));
        auto want = oracle::written(g.p, r, f);
        PBT_CHECK(lib::agree(want, *a.tree, r.rough), "semantic tree:\n" << *a.tree << "expected:\n" << want << "for:\n" << text);
        for (auto& st : g.p.stmts) {
            static const char* kinds[] = { "variable", "gate", "measure", "reset/init/barrier", "wait", "asm" };
            c.label(kinds[st->kind]);
        }
    };
    // A hundred to a hundred thousand of something.
    auto big = [](Src& s, Case& c) {
        auto l = large::valid(s, static_cast<int>(s.draw(large::kinds)));
        auto text = model::text(l.p);
        c.show = std::to_string(l.n) + " " + l.what + ": " + (text.size() < 600 ? text : text.substr(0, 300) + "[...]" + text.substr(text.size() - 200));
        c.nontrivial = l.n >= 100;
        c.label(l.what);
        auto a = lib::analyse(text);
        auto r = oracle::analyse(l.p);
        PBT_CHECK(r.faults.empty(), "generator: fault " << r.faults[0].second.what);
        PBT_CHECK(a.tree, "rejected: " << lib::show(a.errors) << "with " << c.show);
        auto want = oracle::written(l.p, r, {});
        if (*a.tree != want && !lib::agree(want, *a.tree, r.rough)) {
            std::size_t i = 0;
            while (i < want.size() && i < a.tree->size() && want[i] == (*a.tree)[i]) {
                ++i;
            }
            i = i < 60 ? 0 : i - 60;
            PBT_CHECK(false, "semantic tree: [...]" << a.tree->substr(std::min(i, a.tree->size()), 200) << "\nexpected: [...]" << want.substr(std::min(i, want.size()), 200) << "\nwith " << c.show);
        }
    };
    return run(argc, argv, "C21", "valid programs of up to 60 statements, and of some hundreds, and large in one of 13 respects; non-trivial: at least three statements (last clause: at least a hundred of what there are many of)",
        { { "short programs", [=](Src& s, Case& c) { body(s, c, 12); }, 2000, 40000 },
            { "long programs", [=](Src& s, Case& c) { body(s, c, 60); }, 400, 8000 },
            { "hundreds of statements", [=](Src& s, Case& c) { body(s, c, 200); }, 40, 400 },
            { "large in one respect", big, 78, 3000 } });
}
