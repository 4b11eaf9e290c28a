// A program, decided by the library and by the model: the same tree, or the same faulty statements.
#pragma once

#include "lib.hpp"
#include "progen.hpp"

namespace decide {
using model::E;
using model::Expr;

inline model::S variable(const std::string& word, const std::string& name, const std::string& size = "") {
    auto st = std::make_shared<model::Stmt>();
    st->kind = model::Stmt::variable;
    st->word = word;
    st->name = name;
    st->size = size;
    return st;
}
inline model::G gate(const std::string& name, std::vector<E> params = {}, model::G inner = nullptr) {
    auto g = std::make_shared<model::Gate>();
    g->name = name;
    g->params = std::move(params);
    g->inner = std::move(inner);
    return g;
}
inline model::S apply(model::G g, std::vector<E> operands) {
    auto st = std::make_shared<model::Stmt>();
    st->kind = model::Stmt::gate;
    st->g = std::move(g);
    st->operands = std::move(operands);
    return st;
}
inline model::S simple(const std::string& word, E operand) {
    auto st = std::make_shared<model::Stmt>();
    st->kind = model::Stmt::simple;
    st->word = word;
    st->operands = { std::move(operand) };
    return st;
}
inline model::S wait(E time, E operand) {
    auto st = std::make_shared<model::Stmt>();
    st->kind = model::Stmt::wait;
    st->params = { std::move(time) };
    st->operands = { std::move(operand) };
    return st;
}
inline model::S measure(E bit, E qubit, std::vector<E> params = {}) {
    auto st = std::make_shared<model::Stmt>();
    st->kind = model::Stmt::measure;
    st->operands = { std::move(bit), std::move(qubit) };
    st->params = std::move(params);
    return st;
}
inline E at(const std::string& name, std::vector<std::int64_t> indices) {
    auto e = make(Expr::index, name);
    for (auto i : indices) {
        e->entries.push_back({ model::number(i), nullptr });
    }
    return e;
}

// Anything that the grammar allows, as parameter, operand or index.
inline model::Program anything(pbt::Src& s) {
    model::Program p;
    p.stmts = { decide::variable("qubit", "q"), decide::variable("qubit", "v", "3"), decide::variable("bit", "b"), decide::variable("bit", "w", "3") };
    progen::ExprGen g{ s, { "q", "v", "b", "w" } };
    auto expr = [&]() -> model::E {
        switch (s.draw(4)) {
            case 0: return model::ident(s.pick(g.names));
            case 1: return decide::at(s.pick({ std::string{ "v" }, std::string{ "w" } }), { static_cast<std::int64_t>(s.draw(4)) });
            case 2: return g.typed(s.pick(std::string{ "bif" }), 2);
            default: return g.free(3);
        }
    };
    auto exprs = [&](std::size_t n) {
        std::vector<model::E> r;
        for (; n > 0; --n) {
            r.push_back(expr());
        }
        return r;
    };
    for (auto n = 1 + s.length(5); n > 0; --n) {
        switch (s.weighted({ 8, 2, 2, 2 })) {
            case 0: {
                auto name = s.chance(1, 8) ? progen::fresh_name(s) : std::string{ s.pick(oracle::gates()).name };
                auto* f = oracle::gate_form(name);
                auto gate = decide::gate(name, exprs(f && !s.chance(1, 8) ? std::string{ f->params }.size() : s.draw(3)));
                for (auto m = s.chance(1, 3) ? 1 + s.draw(2) : 0; m > 0; --m) {
                    auto word = s.pick({ std::string{ "inv" }, std::string{ "pow" }, std::string{ "ctrl" } });
                    gate = decide::gate(word, word == "pow" ? exprs(1) : std::vector<model::E>{}, gate);
                }
                p.stmts.push_back(decide::apply(gate, exprs(f && !s.chance(1, 8) ? static_cast<std::size_t>(f->qubits) : 1 + s.draw(3))));
                break;
            }
            case 1: p.stmts.push_back(decide::simple(s.pick({ std::string{ "reset" }, std::string{ "init" }, std::string{ "barrier" } }), expr())); break;
            case 2: p.stmts.push_back(decide::wait(expr(), expr())); break;
            default: p.stmts.push_back(decide::measure(expr(), expr(), exprs(!s.chance(1, 3) ? 0 : s.flip() ? 3 : 1 + s.draw(4))));
        }
    }
    return p;
}

struct Outcome {
    oracle::Result want;
    lib::Analysed got;
    std::string text;
};
// With strict, each error is where the model has the fault; otherwise, in the faulty statement.
inline Outcome check(model::Program& p, pbt::Case& c, bool strict = true) {
    Outcome o;
    o.text = model::text(p);
    c.show = o.text;
    o.want = oracle::analyse(p);
    o.got = lib::analyse(o.text);
    auto& r = o.want;
    auto& a = o.got;
    if (r.faults.empty()) {
        c.label("accepted");
        PBT_CHECK(a.tree, "rejected: " << lib::show(a.errors) << "for:\n" << o.text);
        auto want = oracle::written(p, r, {});
        PBT_CHECK(lib::agree(want, *a.tree, r.rough), "semantic tree:\n" << *a.tree << "expected:\n" << want << "for:\n" << o.text);
    } else {
        for (auto& [i, f] : r.faults) {
            c.label(f.what);
        }
        PBT_CHECK(!a.tree, "accepted in spite of a fault (" << r.faults[0].second.what << "):\n" << *a.tree << "for:\n" << o.text);
        PBT_CHECK(a.errors.size() == r.faults.size(),
            a.errors.size() << " errors instead of " << r.faults.size() << " (" << r.faults[0].second.what << "): " << lib::show(a.errors) << "for:\n" << o.text);
        for (std::size_t i = 0; i < r.faults.size(); ++i) {
            auto& f = r.faults[i].second;
            auto& st = p.stmts[r.faults[i].first];
            PBT_CHECK(a.errors[i].at.l1 == st->extent.l1, "the error is on another line: " << a.errors[i].what << "\nfor:\n" << o.text);
            if (strict && f.exact) {
                PBT_CHECK(a.errors[i].at == f.at, "fault '" << f.what << "' at " << model::show(f.at) << " is reported at " << model::show(a.errors[i].at) << ": " << a.errors[i].what << "\nfor:\n" << o.text);
            }
        }
    }
    return o;
}

}  // namespace decide
