// C24: gate modifiers.
#include "large.hpp"
using namespace pbt;
using model::E;
using model::Expr;

static E exponent(Src& s, bool good) {
    if (!good) {
        std::vector<E> bad = { model::ident("q"), model::ident("v"), model::ident("b"), model::ident("none"), make(Expr::binary, "/", { model::number(1), model::number(0) }), decide::at("v", { 0 }) };
        return s.pick(bad);
    }
    progen::ExprGen g{ s, {} };
    return g.sound(s.pick(std::string{ "bif" }), static_cast<int>(s.draw(3)));
}
static std::vector<E> fitting(const std::string& types, Src& s) {
    std::vector<E> r;
    progen::ExprGen g{ s, {} };
    for (char t : types) {
        r.push_back(g.sound(t == 'i' ? g.ib() : g.any(), 1));
    }
    return r;
}
static void declare(model::Program& p) {
    p.stmts = { decide::variable("qubit", "q"), decide::variable("qubit", "r"), decide::variable("qubit", "v", "2"), decide::variable("qubit", "u", "3"), decide::variable("bit", "b") };
}
static std::vector<E> operands(Src& s, std::size_t n) {
    std::vector<E> r;
    auto mode = s.draw(4);
    for (std::size_t i = 0; i < n; ++i) {
        switch (mode) {
            case 0: r.push_back(model::ident(i % 2 ? "r" : "q")); break;
            case 1: r.push_back(i % 2 ? decide::at("u", { 2, 0 }) : model::ident("v")); break;
            case 2: r.push_back(s.flip() ? model::ident("v") : model::ident("q")); break;
            default: r.push_back(s.chance(1, 6) ? model::ident("b") : decide::at("u", { static_cast<std::int64_t>(s.draw(3)) }));
        }
    }
    return r;
}

int main(int argc, char** argv) {
    static const char* words[] = { "inv", "pow", "ctrl" };
    auto& gates = oracle::gates();
    // Chains of up to four modifiers, over every gate, with one to three operands.
    const std::uint64_t chains = 1 + 3 + 9 + 27 + 81;
    auto all = [&](Src& s, Case& c) {
        auto k = s.draw(chains * gates.size() * 3);
        auto& form = gates[k % gates.size()];
        k /= gates.size();
        auto n = 1 + k % 3;
        k /= 3;
        std::size_t length = 0;
        for (std::uint64_t span = 1; k >= span; span *= 3) {
            k -= span;
            ++length;
        }
        auto g = decide::gate(form.name, fitting(form.params, s));
        for (std::size_t i = 0; i < length; ++i, k /= 3) {
            std::string w = words[k % 3];
            g = decide::gate(w, w == "pow" ? std::vector<E>{ exponent(s, true) } : std::vector<E>{}, g);
            c.label(w);
        }
        model::Program p;
        declare(p);
        p.stmts.push_back(decide::apply(g, operands(s, n)));
        c.nontrivial = length > 0;
        decide::check(p, c);
    };
    // Longer chains, mostly well-formed; exponents of all kinds.
    auto longer = [&](Src& s, Case& c) {
        auto& form = gates[s.chance(5, 6) ? s.index(20) : s.index(gates.size())];
        bool good = s.chance(2, 3);
        auto g = decide::gate(form.name, good || s.flip() ? fitting(form.params, s) : fitting(s.pick({ std::string{ "f" }, std::string{ "" }, std::string{ "fff" } }), s));
        auto length = s.chance(1, 25) ? large::size(s, 300) : 1 + s.draw(12);
        int qubits = form.qubits;
        for (std::uint64_t i = 0; i < length; ++i) {
            std::string w = s.flip() ? "inv" : "pow";
            if (i + 1 == length ? s.flip() : !good && s.chance(1, 12)) {
                w = "ctrl";
                qubits = 2;
            }
            g = decide::gate(w, w == "pow" ? std::vector<E>{ exponent(s, good || s.flip()) } : std::vector<E>{}, g);
        }
        model::Program p;
        declare(p);
        p.stmts.push_back(decide::apply(g, operands(s, good || s.flip() ? static_cast<std::size_t>(qubits) : 1 + s.draw(3))));
        if (s.chance(1, 3)) {
            p.stmts.push_back(decide::apply(decide::gate("inv", {}, decide::gate("X")), { model::ident("q") }));
        }
        c.nontrivial = length >= 2;
        decide::check(p, c);
    };
    return run(argc, argv, "C24", "modified gates; non-trivial: at least one modifier (second clause: at least two)",
        { { "all short chains", all, 9075, 60000, chains * gates.size() * 3 }, { "long chains", longer, 4000, 120000 } });
}
