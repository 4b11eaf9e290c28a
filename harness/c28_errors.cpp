// C28: the errors of a program.
#include "decide.hpp"
using namespace pbt;

static bool inside(const model::Span& in, const model::Span& out) {
    auto le = [](std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d) { return a < c || (a == c && b <= d); };
    return le(out.l1, out.c1, in.l1, in.c1) && le(in.l2, in.c2, out.l2, out.c2);
}
static progen::ProgramGen faulty(Src& s, std::size_t max) {
    progen::ProgramGen g{ s };
    for (auto n = 1 + s.length(max); n > 0; --n) {
        if (s.flip()) {
            g.faulty_statement();
        } else {
            g.valid_statement();
        }
    }
    return g;
}

int main(int argc, char** argv) {
    // One error for each faulty statement, in order, in the statement, whatever the layout.
    auto exact = [](Src& s, Case& c) {
        auto g = faulty(s, 16);
        model::Random layout{ s };
        layout.rate = 10;
        auto text = s.flip() ? model::text(g.p) : model::write(g.p, layout);
        c.show = text;
        auto r = oracle::analyse(g.p);
        auto a = lib::analyse(text);
        c.nontrivial = r.faults.size() >= 2;
        PBT_CHECK(a.errors.size() == r.faults.size(), a.errors.size() << " errors for " << r.faults.size() << " faults:\n" << lib::show(a.errors) << "for:\n" << text);
        PBT_CHECK(!r.faults.empty() || a.tree, "no error and no tree");
        for (std::size_t i = 0; i < a.errors.size(); ++i) {
            auto& [n, f] = r.faults[i];
            c.label(f.what);
            PBT_CHECK(!a.errors[i].message.empty(), "an empty message for:\n" << text);
            PBT_CHECK(a.errors[i].at.set() && inside(a.errors[i].at, g.p.stmts[n]->extent),
                "fault '" << f.what << "' of the statement at " << model::show(g.p.stmts[n]->extent) << " is reported at " << model::show(a.errors[i].at) << ": " << a.errors[i].what << "\nfor:\n" << text);
        }
    };
    // Hundreds of them.
    auto many = [](std::size_t least, std::size_t most, Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.depth = 1;
        auto n = least + s.draw(most - least);
        for (std::size_t i = 0; i < n; ++i) {
            s.chance(5, 6) ? (void)g.faulty_statement() : g.valid_statement();
        }
        auto text = model::text(g.p);
        c.show = text.substr(0, 300) + "[... " + std::to_string(g.p.stmts.size()) + " statements]";
        auto r = oracle::analyse(g.p);
        auto a = lib::analyse(text);
        c.nontrivial = r.faults.size() > 100;
        PBT_CHECK(a.errors.size() == r.faults.size(), a.errors.size() << " errors for " << r.faults.size() << " faults in " << g.p.stmts.size() << " statements");
        for (std::size_t i = 0; i < a.errors.size(); ++i) {
            auto& [k, f] = r.faults[i];
            PBT_CHECK(a.errors[i].at.set() && inside(a.errors[i].at, g.p.stmts[k]->extent),
                "fault " << i << " '" << f.what << "' of the statement at " << model::show(g.p.stmts[k]->extent) << " is reported at " << model::show(a.errors[i].at) << ": " << a.errors[i].what);
        }
        PBT_CHECK(a.result.to_strings().size() == r.faults.size() + 1, "as strings: " << a.result.to_strings().size());
        PBT_CHECK(gen::read_json(a.result.to_json()).at("errors").a.size() == r.faults.size(), "as JSON");
    };
    // The message for a statement is the one it gets when it stands alone behind its declarations.
    auto alone = [](Src& s, Case& c) {
        auto g = faulty(s, 10);
        auto text = model::text(g.p);
        c.show = text;
        auto r = oracle::analyse(g.p);
        auto a = lib::analyse(text);
        c.nontrivial = r.faults.size() >= 2;
        PBT_CHECK(a.errors.size() == r.faults.size(), a.errors.size() << " errors for " << r.faults.size() << " faults:\n" << lib::show(a.errors) << "for:\n" << text);
        for (std::size_t i = 0; i < r.faults.size(); ++i) {
            auto n = r.faults[i].first;
            model::Program q;
            for (std::size_t k = 0; k < n; ++k) {
                bool bad = false;
                for (auto& f : r.faults) {
                    bad = bad || f.first == k;
                }
                if (g.p.stmts[k]->kind == model::Stmt::variable && !bad) {
                    q.stmts.push_back(g.p.stmts[k]);
                }
            }
            q.stmts.push_back(g.p.stmts[n]);
            auto t = model::text(q);
            auto b = lib::analyse(t);
            PBT_CHECK(b.errors.size() == 1 && b.errors[0].message == a.errors[i].message,
                "the statement's error is '" << a.errors[i].message << "', but alone:\n" << lib::show(b.errors) << "for:\n" << t << "and:\n" << text);
        }
    };
    // Correct statements put in between do not matter.
    auto padded = [](Src& s, Case& c) {
        auto g = faulty(s, 6);
        auto before = lib::analyse(model::text(g.p));
        c.nontrivial = !before.errors.empty();
        model::Program q;
        q.stmts.push_back(decide::variable("qubit", "unused_q", "3"));
        q.stmts.push_back(decide::variable("bit", "unused_b", "3"));
        auto pad = [&] {
            for (auto n = s.draw(3); n > 0; --n) {
                switch (s.draw(4)) {
                    case 0: q.stmts.push_back(decide::apply(decide::gate("H"), { model::ident("unused_q") })); break;
                    case 1: q.stmts.push_back(decide::measure(model::ident("unused_b"), model::ident("unused_q"))); break;
                    case 2: q.stmts.push_back(decide::simple("reset", decide::at("unused_q", { 2, 1 }))); break;
                    default: {
                        auto st = std::make_shared<model::Stmt>();
                        st->kind = model::Stmt::assembly;
                        st->word = "b";
                        st->name = progen::raw_text(s);
                        q.stmts.push_back(st);
                    }
                }
            }
        };
        for (auto& st : g.p.stmts) {
            pad();
            q.stmts.push_back(st);
        }
        pad();
        auto text = model::text(q);
        c.show = text;
        auto after = lib::analyse(text);
        PBT_CHECK(lib::messages(before.errors) == lib::messages(after.errors), "the errors change from\n" << lib::messages(before.errors) << "to\n" << lib::messages(after.errors) << "for:\n" << text);
    };
    // A syntax error is the only one reported, and there is no tree, no matter what else is wrong.
    auto syntax = [](Src& s, Case& c) {
        auto g = faulty(s, 6);
        auto t = model::tokens(g.p);
        static const std::vector<std::string> bad = { ")", "]", "= =", "version", "$", "qubit qubit", "measure measure", "'''", "asm asm", "wait )", "[", "9223372036854775808 9223372036854775808" };
        for (auto n = 1 + s.draw(3); n > 0; --n) {
            model::Tok k;
            k.text = s.pick(bad);
            t.v.insert(t.v.begin() + static_cast<long>(2 + s.draw(t.v.size() - 1)), k);
        }
        model::Layout l;
        auto text = model::write(t, l);
        c.show = text;
        auto p = lib::parse(text);
        auto a = lib::analyse(text);
        c.nontrivial = !p.errors.empty();
        c.label(p.errors.empty() ? "parsed" : "syntax error");
        if (p.errors.empty()) {
            return;
        }
        PBT_CHECK(p.errors.size() == 1 && a.errors.size() == 1, p.errors.size() << " and " << a.errors.size() << " syntax errors for:\n" << text);
        PBT_CHECK(a.errors[0].what == p.errors[0].what, "parsing reports " << p.errors[0].what << ", analysing " << a.errors[0].what << " for:\n" << text);
        PBT_CHECK(p.result.root.empty() && a.result.root.empty(), "a syntax error and a tree for:\n" << text);
    };
    // Anything that the grammar allows, as parameter, operand or index, decided by the model.
    auto anything = [](Src& s, Case& c) {
        auto p = decide::anything(s);
        auto o = decide::check(p, c, false);
        c.nontrivial = p.stmts.size() > o.want.faults.size() + 4 && !o.want.faults.empty();
    };
    return run(argc, argv, "C28", "programs of correct and faulty statements; non-trivial: at least two faults (third clause: one; fourth: a syntax error; last: a correct and a faulty statement)",
        { { "one error per fault", exact, 4000, 120000 }, { "hundreds of faults", [=](Src& s, Case& c) { many(100, 400, s, c); }, 48, 600 }, { "thousands of faults", [=](Src& s, Case& c) { many(1500, 4000, s, c); }, 4, 60 }, { "statements alone", alone, 1500, 40000 }, { "correct statements between", padded, 1500, 40000 }, { "syntax errors", syntax, 2000, 60000 },
            { "arbitrary expressions", anything, 4000, 100000 } });
}
