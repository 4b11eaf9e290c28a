// Programs that are large in one respect: what holds for small ones holds for them.
#pragma once

#include "decide.hpp"

namespace large {
using model::E;
using model::Expr;
using pbt::Src;

// One off a power of two or ten, up to max.
inline std::size_t size(Src& s, std::size_t max) {
    static const std::vector<std::size_t> marks = { 16, 20, 32, 50, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 100000 };
    std::size_t n = 0;
    while (n < marks.size() && marks[n] < max) {
        ++n;
    }
    return s.chance(1, 6) ? max - s.draw(3) : std::min(max, marks[s.index(n)] + s.draw(3) - 1);
}
inline std::string name(const std::string& stem, std::size_t i) { return stem + std::to_string(i); }
inline E range(const std::string& of, std::int64_t first, std::int64_t last) {
    auto e = make(Expr::index, of);
    e->entries.push_back({ model::number(first), model::number(last) });
    return e;
}
// A sum, product, difference or the like of many terms, in parentheses so that it is as deep as its logarithm.
inline E balanced(Src& s, std::size_t terms) {
    if (terms <= 1) {
        return model::number(static_cast<std::int64_t>(s.draw(9)));
    }
    auto left = balanced(s, terms / 2), right = balanced(s, terms - terms / 2);
    return make(Expr::binary, s.pick({ std::string{ "+" }, std::string{ "-" }, std::string{ "|" } }), { left, right });
}

struct Large {
    model::Program p;
    std::string what;
    std::size_t n = 0;
};
static constexpr int kinds = 13;
// kind: in which respect.
inline Large valid(Src& s, int kind) {
    Large r;
    auto& out = r.p.stmts;
    auto put = [&](model::S st) { out.push_back(std::move(st)); };
    auto some = [&](std::size_t n) { return static_cast<std::int64_t>(s.chance(1, 4) ? n - 1 : s.index(n)); };
    switch (kind) {
        case 0: {  // variables
            r.what = "variables";
            r.n = size(s, 5000);
            std::vector<std::size_t> qubits, bits;
            for (std::size_t i = 0; i < r.n; ++i) {
                bool qubit = i == 0 || (i > 1 && s.flip());
                (qubit ? qubits : bits).push_back(i);
                put(decide::variable(qubit ? "qubit" : "bit", name("v", i), s.chance(1, 8) ? "1" : ""));
            }
            for (int i = 0; i < 20; ++i) {
                auto q = name("v", i ? qubits[s.index(qubits.size())] : qubits.back());
                s.flip() ? put(decide::apply(decide::gate("X"), { model::ident(q) })) : put(decide::measure(model::ident(name("v", bits[s.index(bits.size())])), model::ident(q)));
            }
            break;
        }
        case 1: {  // statements
            r.what = "statements";
            r.n = size(s, 5000);
            put(decide::variable("qubit", "q", "9"));
            put(decide::variable("bit", "b", "9"));
            for (std::size_t i = 0; i < r.n; ++i) {
                switch (s.draw(6)) {
                    case 0: put(decide::simple(s.pick({ std::string{ "reset" }, std::string{ "barrier" }, std::string{ "init" } }), decide::at("q", { some(9) }))); break;
                    case 1: put(decide::measure(decide::at("b", { some(9) }), decide::at("q", { some(9) }))); break;
                    case 2: put(decide::wait(model::number(static_cast<std::int64_t>(i)), model::ident("q"))); break;
                    default: put(decide::apply(decide::gate("Rx", { model::number(static_cast<std::int64_t>(i)) }), { decide::at("q", { some(9) }) }));
                }
            }
            break;
        }
        case 2: {  // entries of an index list
            r.what = "index entries";
            r.n = size(s, 3000);
            auto of = size(s, 100000);
            put(decide::variable("qubit", "q", std::to_string(of)));
            std::vector<std::int64_t> l;
            for (std::size_t i = 0; i < r.n; ++i) {
                l.push_back(some(of));
            }
            put(decide::apply(decide::gate("X"), { decide::at("q", l) }));
            put(decide::simple("reset", decide::at("q", { some(of) })));
            break;
        }
        case 3: {  // elements of a range
            r.what = "elements of a range";
            r.n = size(s, 70000);
            auto of = r.n + s.draw(4), first = s.draw(of - r.n + 1);
            put(decide::variable("qubit", "q", std::to_string(of)));
            auto e = range("q", static_cast<std::int64_t>(first), static_cast<std::int64_t>(first + r.n - 1));
            s.flip() ? put(decide::apply(decide::gate("X"), { e })) : put(decide::simple("reset", e));
            break;
        }
        case 4: {  // elements that correspond to each other
            r.what = "corresponding elements";
            r.n = size(s, 70000);
            auto n = static_cast<std::int64_t>(r.n);
            put(decide::variable("qubit", "q", std::to_string(n)));
            put(decide::variable("qubit", "p", std::to_string(n)));
            put(decide::variable("bit", "b", std::to_string(n)));
            auto all = [&](const std::string& v) { return s.flip() ? model::ident(v) : range(v, 0, n - 1); };
            put(decide::measure(all("b"), all("q")));
            put(decide::apply(decide::gate("CNOT"), { all("q"), all("p") }));
            put(decide::simple("barrier", all("q")));
            break;
        }
        case 5: {  // modifiers
            r.what = "modifiers";
            r.n = size(s, 500);
            put(decide::variable("qubit", "q", "2"));
            bool ctrl = s.flip();
            auto g = decide::gate("X");
            for (std::size_t i = 0; i < r.n; ++i) {
                s.chance(1, 8) ? g = decide::gate("pow", { model::number(static_cast<std::int64_t>(i)) }, g) : g = decide::gate("inv", {}, g);
            }
            if (ctrl) {
                g = decide::gate("ctrl", {}, g);
            }
            put(decide::apply(g, ctrl ? std::vector<E>{ decide::at("q", { 0 }), decide::at("q", { 1 }) } : std::vector<E>{ model::ident("q") }));
            break;
        }
        case 6: {  // signs
            r.what = "signs";
            r.n = size(s, 200);
            put(decide::variable("qubit", "q"));
            auto e = model::number(1);
            for (std::size_t i = 0; i < r.n; ++i) {
                e = make(Expr::unary, s.chance(1, 3) ? "~" : "-", { e });
            }
            put(decide::apply(decide::gate("Rx", { e }), { model::ident("q") }));
            break;
        }
        case 7: {  // parentheses
            r.what = "parentheses";
            r.n = size(s, 200);
            put(decide::variable("qubit", "q", "3"));
            auto e = model::number(1);
            e->parens = static_cast<int>(r.n);
            put(s.flip() ? decide::apply(decide::gate("Rx", { e }), { model::ident("q") }) : decide::wait(e, model::ident("q")));
            break;
        }
        case 8: {  // terms
            r.what = "terms";
            r.n = size(s, 130);
            put(decide::variable("qubit", "q", "2"));
            put(decide::apply(decide::gate("Rx", { balanced(s, r.n) }), { model::ident("q") }));
            break;
        }
        case 9: {  // calls within calls
            r.what = "nested calls";
            r.n = size(s, 100);
            put(decide::variable("qubit", "q"));
            auto e = model::number(static_cast<std::int64_t>(s.draw(9)));
            for (std::size_t i = 0; i < r.n; ++i) {
                e = make(Expr::call, "abs", { e });
            }
            put(decide::apply(decide::gate("Rx", { e }), { model::ident("q") }));
            break;
        }
        case 10: {  // assembly declarations
            r.what = "assembly declarations";
            r.n = size(s, 3000);
            for (std::size_t i = 0; i < r.n; ++i) {
                auto st = std::make_shared<model::Stmt>();
                st->kind = model::Stmt::assembly;
                st->word = name("backend", i % 7);
                st->name = name("line ", i) + (s.chance(1, 5) ? "\n  more" : "");
                put(st);
            }
            break;
        }
        case 11: {  // registers
            r.what = "size of a register";
            static const std::vector<std::int64_t> more = { 1ll << 31, 1ll << 32, 1ll << 53, 1ll << 62, INT64_MAX - 1, 1000000000, 1ll << 24, 1ll << 20 };
            auto n = s.flip() ? s.pick(more) + static_cast<std::int64_t>(s.draw(3)) - 1 : static_cast<std::int64_t>(size(s, 200000));
            r.n = static_cast<std::size_t>(n);
            for (auto w : { "qubit", "bit" }) {
                put(decide::variable(w, w[0] == 'q' ? "q" : "b", std::to_string(n)));
            }
            put(decide::variable("qubit", "p", std::to_string(n)));
            put(decide::apply(decide::gate("SWAP"), { model::ident("p"), model::ident("q") }));
            put(decide::measure(model::ident("b"), model::ident("q")));
            put(decide::apply(decide::gate("H"), { decide::at("q", { n - 1 }) }));
            break;
        }
        default: {  // instructions on a long list each
            r.what = "lists";
            r.n = size(s, 300);
            put(decide::variable("qubit", "q", "300"));
            for (std::size_t i = 0; i < r.n; ++i) {
                put(decide::apply(decide::gate("H"), { range("q", 0, static_cast<std::int64_t>(i % 300)) }));
            }
        }
    }
    return r;
}

}  // namespace large
