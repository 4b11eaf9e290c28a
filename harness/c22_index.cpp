// C22: index references.
#include "large.hpp"
using namespace pbt;
using model::E;
using model::Expr;

// Where a reference can stand.
enum Place { in_gate, in_reset, in_two, in_measure_bit, in_measure_qubit, places };
static const char* place_names[] = { "gate", "reset", "two-qubit gate", "measure, bit", "measure, qubit" };

using decide::variable;
static model::S use(Place where, const E& e) {
    switch (where) {
        case in_gate: return decide::apply(decide::gate("X"), { e });
        case in_reset: return decide::simple("reset", e);
        case in_two: return decide::apply(decide::gate("CNOT"), { e, model::copy(e) });
        case in_measure_bit: return decide::measure(e, model::ident("q"));
        default: return decide::measure(model::ident("b"), e);
    }
}
// The statement, compared with the model: accepted with those elements, or one error.
static void check(model::Program& p, Case& c) {
    auto o = decide::check(p, c, false);
    if (!o.got.tree) {
        return;
    }
    // The type of each reference.
    for (auto& st : o.got.result.root->block->statements) {
        auto* g = st->as_gate_instruction();
        auto* n = st->as_non_gate_instruction();
        if (!g && !n) {
            continue;
        }
        for (auto& x : g ? g->operands : n->operands) {
            if (auto* ref = x->as_index_ref()) {
                auto t = lib::val::type_of(x);
                bool qubit = ref->variable->typ->as_qubit_array() != nullptr;
                auto count = static_cast<std::int64_t>(ref->indices.size());
                char want = count == 1 ? (qubit ? 'Q' : 'B') : (qubit ? 'V' : 'W');
                PBT_CHECK(lib::letter(*t) == want && lib::val::size_of(x) == count,
                    "a reference to " << count << " elements has type " << lib::type(*t) << " and size " << lib::val::size_of(x) << " for:\n" << o.text);
            }
        }
    }
}

static E any_index(Src& s, std::int64_t size) {
    static const std::vector<std::string> huge = { "9223372036854775807", "9223372036854775806", "4611686018427387904", "4294967296", "4294967295", "2147483648",
        "2147483647", "18014398509481985" };
    switch (s.weighted({ 10, 4, 2, 2, 2, 1, 1 })) {
        case 0: return model::number(static_cast<std::int64_t>(s.draw(static_cast<std::uint64_t>(std::min<std::int64_t>(size, 64)))));
        case 1: return model::number(std::max<std::int64_t>(0, size - 2 + static_cast<std::int64_t>(s.draw(4))));
        case 2: return make(Expr::integer, s.pick(huge));
        case 3: return make(Expr::unary, "-", { s.flip() ? model::number(static_cast<std::int64_t>(s.draw(3))) : make(Expr::integer, s.pick(huge)) });
        case 4: {
            progen::ExprGen g{ s, { "q", "b", "r" } };
            g.wild = s.chance(1, 3);
            return g.typed('i', 2);
        }
        case 5: return make(Expr::boolean, s.flip() ? "true" : "false");
        default: {
            std::vector<E> bad = { make(Expr::real, "1.0"), model::ident("pi"), model::ident("r"), model::ident("nothing"), make(Expr::call, "sin", { model::number(0) }),
                make(Expr::call, "abs", { make(Expr::unary, "-", { model::number(1) }) }) };
            return s.pick(bad);
        }
    }
}

int main(int argc, char** argv) {
    auto lists = [](Src& s, Case& c) {
        model::Program p;
        bool qubit = s.chance(2, 3);
        static const std::vector<std::string> sizes = { "9223372036854775807", "4294967296", "2147483648", "1000000000000" };
        auto size = s.weighted({ 6, 2, 1 });
        std::string text = size == 0 ? std::to_string(1 + s.draw(9)) : size == 1 ? std::to_string(1 + s.draw(70)) : s.pick(sizes);
        auto n = oracle::int_of(text);
        p.stmts.push_back(variable(qubit ? "qubit" : "bit", "r", text));
        p.stmts.push_back(variable("qubit", "q", s.flip() ? "" : std::to_string(1 + s.draw(6))));
        p.stmts.push_back(variable("bit", "b", s.flip() ? "" : std::to_string(1 + s.draw(6))));
        auto e = make(Expr::index, s.chance(1, 12) ? s.pick({ std::string{ "q" }, std::string{ "pi" }, std::string{ "R" } }) : "r");
        std::int64_t total = 0;
        for (auto k = 1 + s.length(6); k > 0; --k) {
            model::Entry x{ any_index(s, n), s.chance(1, 3) ? any_index(s, n) : nullptr };
            // Long ranges within a huge register are outside what this checks (and what memory holds).
            try {
                if (x.last) {
                    oracle::World w;
                    auto f = oracle::eval(w, x.first), l = oracle::eval(w, x.last);
                    if (oracle::fits(f, 'i') && oracle::fits(l, 'i')) {
                        auto a = oracle::as_i(f), b = oracle::as_i(l);
                        if (a >= 0 && b > a && (b - a > 5000 || total > 20000) && std::min(b, n) - a > 5000) {
                            x.last = model::copy(x.first);
                        } else if (b > a) {
                            total += std::min<std::int64_t>(5000, static_cast<std::int64_t>(static_cast<std::uint64_t>(b) - static_cast<std::uint64_t>(a)));
                        }
                    }
                }
            } catch (const oracle::Fault&) {
            }
            e->entries.push_back(x);
        }
        auto where = static_cast<Place>(qubit ? s.pick({ 0, 1, 2, 4 }) : 3);
        if (s.chance(1, 20)) {
            where = static_cast<Place>(s.index(places));
        }
        c.label(place_names[where]);
        p.stmts.push_back(use(where, e));
        if (s.chance(1, 4)) {  // the next statement is not affected
            p.stmts.push_back(use(qubit ? in_gate : in_measure_bit, model::copy(e)));
        }
        c.nontrivial = e->entries.size() > 1 || e->entries[0].last;
        check(p, c);
    };
    // Small registers: every list of up to two entries with indices from -1 to the size.
    auto small = [](Src& s, Case& c) {
        model::Program p;
        auto n = static_cast<std::int64_t>(1 + s.draw(4));
        auto where = static_cast<Place>(s.pick({ 0, 3 }));
        p.stmts.push_back(variable(where == in_gate ? "qubit" : "bit", "r", std::to_string(n)));
        p.stmts.push_back(variable("qubit", "q", std::to_string(n)));
        auto e = make(Expr::index, "r");
        auto number = [&] {
            auto v = static_cast<std::int64_t>(s.draw(static_cast<std::uint64_t>(n) + 2)) - 1;
            return v < 0 ? make(Expr::unary, "-", { model::number(-v) }) : model::number(v);
        };
        for (auto k = 1 + s.draw(2); k > 0; --k) {
            auto first = number();
            e->entries.push_back({ first, s.flip() ? number() : nullptr });
        }
        p.stmts.push_back(use(where, e));
        c.nontrivial = e->entries.size() > 1 || e->entries[0].last;
        check(p, c);
    };
    // Ranges with ends far outside: rejected, at once.
    auto far = [](Src& s, Case& c) {
        model::Program p;
        auto n = static_cast<std::int64_t>(1 + s.draw(50));
        p.stmts.push_back(variable("qubit", "r", std::to_string(n)));
        auto e = make(Expr::index, "r");
        auto big = [&] { return static_cast<std::int64_t>(s.flip() ? INT64_MAX - static_cast<std::int64_t>(s.draw(3)) : static_cast<std::int64_t>(1) << (31 + s.draw(32))); };
        auto lit = [&](std::int64_t v) { return v < 0 ? make(Expr::unary, "-", { model::number(-v) }) : model::number(v); };
        for (auto k = 1 + s.draw(3); k > 0; --k) {
            switch (s.draw(4)) {
                case 0: e->entries.push_back({ lit(static_cast<std::int64_t>(s.draw(static_cast<std::uint64_t>(n)))), lit(big()) }); break;
                case 1: e->entries.push_back({ lit(-big()), lit(static_cast<std::int64_t>(s.draw(static_cast<std::uint64_t>(n)))) }); break;
                case 2: e->entries.push_back({ lit(-big()), lit(big()) }); break;
                default: e->entries.push_back({ lit(n), lit(big()) });
            }
        }
        c.nontrivial = true;
        p.stmts.push_back(use(s.flip() ? in_gate : in_reset, e));
        check(p, c);
    };
    // A register of any size: its last element exists, the one after does not.
    auto edge = [](Src& s, Case& c) {
        model::Program p;
        auto n = s.flip() ? gen::i64(s) : static_cast<std::int64_t>(s.draw(3000)) + 1;
        n = n == INT64_MIN ? INT64_MAX : n < 0 ? -n : n == 0 ? 1 : n;
        bool qubit = s.flip();
        p.stmts.push_back(variable(qubit ? "qubit" : "bit", "r", std::to_string(n)));
        p.stmts.push_back(variable("qubit", "q", ""));
        for (auto k : { n - 1, n, n - 2, n / 2 }) {
            if (k >= 0) {
                auto e = make(Expr::index, "r");
                e->entries.push_back({ model::number(k), s.flip() ? nullptr : model::number(k) });
                p.stmts.push_back(use(qubit ? in_gate : in_measure_bit, e));
            }
        }
        c.nontrivial = n > 1;
        check(p, c);
    };
    // Thousands of elements.
    auto many = [](Src& s, Case& c) {
        auto l = large::valid(s, s.pick({ 2, 3, 4, 11, 12 }));
        if (s.chance(1, 3)) {  // one that does not exist
            auto& st = l.p.stmts.back();
            auto& e = st->operands.back();
            auto of = e->text;
            for (auto& v : l.p.stmts) {
                if (v->kind == model::Stmt::variable && v->name == of && !v->size.empty() && v->size.size() < 18) {
                    auto n = oracle::int_of(v->size);
                    if (e->kind == Expr::index) {
                        e->entries.insert(e->entries.begin() + static_cast<long>(s.draw(e->entries.size() + 1)), { model::number(n), nullptr });
                    }
                }
            }
        }
        check(l.p, c);
        c.label(l.what);
        c.show = std::to_string(l.n) + " " + l.what + ": " + c.show.substr(0, 300);
        c.nontrivial = l.n >= 100;
    };
    return run(argc, argv, "C22", "index lists over registers of all sizes; non-trivial: more than one entry or a range (last clauses: a register of several elements, a hundred elements)",
        { { "index lists", lists, 6000, 200000 }, { "small registers", small, 3000, 60000 }, { "far ranges", far, 1500, 40000 }, { "edges of registers", edge, 2000, 60000 }, { "thousands of elements", many, 60, 3000 } });
}
