// C15: constant expressions, against an evaluator of our own.
#include "lib.hpp"
#include "progen.hpp"
using namespace pbt;
namespace ct = cqasm::tree;
using oracle::Val;

// An analyzer with a function that notes the value and type it is called with.
static std::vector<std::string> seen;
static lib::v3::analyzer::Analyzer& analyzer() {
    static auto a = [] {
        auto r = std::make_unique<lib::v3::analyzer::Analyzer>(lib::v3::default_analyzer());
        auto note = [](const lib::val::Values& vs) -> lib::val::Value {
            seen.push_back(lib::value(*vs[0]));
            return ct::make<lib::val::ConstFloat>(0.0);
        };
        for (auto t : { "f", "i", "b" }) {
            r->register_consteval_core_function("note", t, note);
        }
        return r;
    }();
    return *a;
}

static std::string show(const model::E& e) {
    model::Tokens t;
    model::put_expr(t, e, 0);
    model::Layout l;
    auto r = model::write(t, l);
    r.pop_back();
    return r;
}
static void collect(const model::E& e, std::set<std::string>& ops) {
    if (e->kind == model::Expr::call || e->kind == model::Expr::unary || e->kind == model::Expr::binary || e->kind == model::Expr::ternary) {
        ops.insert(e->text);
    }
    for (auto& a : e->args) {
        collect(a, ops);
    }
}

// Each expression in a statement of its own, on a line of its own.
static void check(const std::vector<model::E>& es, Case& c) {
    std::string text = "version 3.0\nqubit q\n";
    for (auto& e : es) {
        text += "Rx(note(" + show(e) + ")) q\n";
    }
    c.show = text;
    seen.clear();
    auto a = lib::take(analyzer().analyze_string(text, std::nullopt));
    auto got = seen;
    std::size_t next = 0, error = 0;
    for (std::size_t i = 0; i < es.size(); ++i) {
        auto line = static_cast<std::uint32_t>(i + 3);
        try {
            auto want = oracle::eval(oracle::World{}, es[i]);
            PBT_CHECK(error >= a.errors.size() || a.errors[error].at.l1 != line,
                "no error expected for " << show(es[i]) << " which is " << oracle::sem(want) << " but: " << a.errors[error].what);
            PBT_CHECK(next < got.size(), "no value for " << show(es[i]));
            PBT_CHECK(lib::agree(oracle::sem(want), got[next], want.rough), show(es[i]) << " evaluates to " << got[next] << ", not " << oracle::sem(want));
            ++next;
            c.label(want.k == Val::b ? "bool" : want.k == Val::i ? "int" : "real");
        } catch (const oracle::Fault& f) {
            PBT_CHECK(error < a.errors.size() && a.errors[error].at.l1 == line, "no error for " << show(es[i]) << " (" << f.what << ")");
            PBT_CHECK(!a.errors[error].message.empty(), "an error without a message for " << show(es[i]));
            ++error;
            c.label("error: " + f.what);
        }
    }
    PBT_CHECK(error == a.errors.size() && next == got.size(), "there are " << a.errors.size() << " errors and " << got.size() << " values for\n" << text << lib::show(a.errors));
    PBT_CHECK(a.tree.has_value() == (error == 0), "tree and errors, for\n" << text);
}

// Values at the edges, written as expressions.
static const std::vector<std::string>& edges() {
    static const std::vector<std::string> v = { "true", "false", "0", "1", "2", "3", "-1", "-2", "7", "-7", "63", "64", "62", "-64", "65",
        "9223372036854775807", "-9223372036854775807", "-9223372036854775807-1", "9223372036854775806", "4611686018427387904",
        "9007199254740993", "-9007199254740993", "4294967296", "2147483648", "0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.5", "2.0", "3.5",
        "1.0e308", "-1.0e308", "1.0/0.0", "-1.0/0.0", "0.0/0.0", "2.3e-308", "9223372036854775807.0", "9007199254740993.0", "pi" };
    return v;
}
static model::E edge(std::size_t i) {
    // Parsed by hand: an optional sign, and the two that are quotients or differences.
    auto lit = [](std::string t) {
        bool neg = t[0] == '-';
        if (neg) {
            t = t.substr(1);
        }
        auto e = t == "true" || t == "false" ? model::make(model::Expr::boolean, t) : t == "pi" ? model::ident(t) :
            t.find('.') != std::string::npos ? model::make(model::Expr::real, t) : model::make(model::Expr::integer, t);
        return neg ? model::make(model::Expr::unary, "-", { e }) : e;
    };
    auto& t = edges()[i];
    if (auto k = t.find('/'); k != std::string::npos) {
        return model::make(model::Expr::binary, "/", { lit(t.substr(0, k)), lit(t.substr(k + 1)) });
    }
    if (t == "-9223372036854775807-1") {
        return model::make(model::Expr::binary, "-", { lit("-9223372036854775807"), lit("1") });
    }
    return lit(t);
}

int main(int argc, char** argv) {
    static const std::vector<std::string> ops = { "+", "-", "*", "/", "%", "**", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|",
        "^", "&&", "||", "^^" };
    static std::vector<std::string> ones = { "-", "+", "~", "!", "abs" };
    for (auto& f : oracle::real_functions()) {
        ones.push_back(f.first);
    }
    auto n = edges().size();
    // One case per operator and left operand: all right operands.
    auto pairs = [n](Src& s, Case& c) {
        auto k = s.draw(ops.size() * n);
        std::vector<model::E> es;
        for (std::size_t j = 0; j < n; ++j) {
            es.push_back(model::make(model::Expr::binary, ops[k / n], { edge(k % n), edge(j) }));
        }
        check(es, c);
        c.nontrivial = true;
    };
    auto singles = [n](Src& s, Case& c) {
        auto k = s.draw(ones.size());
        std::vector<model::E> es;
        for (std::size_t j = 0; j < n; ++j) {
            es.push_back(k < 4 ? model::make(model::Expr::unary, ones[k], { edge(j) }) : model::make(model::Expr::call, ones[k], { edge(j) }));
            // and with a wrong number of arguments
            if (k >= 4) {
                es.push_back(model::make(model::Expr::call, ones[k], { edge(j), edge(j) }));
            }
        }
        if (k >= 4) {
            es.push_back(model::make(model::Expr::call, ones[k], {}));
        }
        check(es, c);
        c.nontrivial = true;
    };
    auto ternary = [n](Src& s, Case& c) {
        auto k = s.draw(n);
        std::vector<model::E> es;
        for (std::size_t j = 0; j < n; ++j) {
            for (auto cond : { 0, 1, 3, 26 }) {
                es.push_back(model::make(model::Expr::ternary, "?", { edge(static_cast<std::size_t>(cond)), edge(k), edge(j) }));
            }
        }
        check(es, c);
        c.nontrivial = true;
    };
    auto random = [](Src& s, Case& c) {
        std::vector<model::E> es;
        std::set<std::string> used;
        for (auto k = 1 + s.draw(8); k > 0; --k) {
            progen::ExprGen g{ s, {} };
            g.wild = s.chance(1, 3);
            es.push_back(g.typed(s.pick(std::string{ "bif" }), 1 + static_cast<int>(s.draw(5))));
            collect(es.back(), used);
        }
        check(es, c);
        c.nontrivial = used.size() >= 2;
    };
    // Arbitrary operand pairs under one operator.
    auto operands = [](Src& s, Case& c) {
        std::vector<model::E> es;
        auto op = s.pick(ops);
        auto lit = [&](bool small) {
            if (small) {
                return model::number(s.range(0, 70));
            }
            auto v = gen::i64(s);
            if (v == INT64_MIN) {
                v = INT64_MAX;
            }
            return v < 0 ? model::make(model::Expr::unary, "-", { model::number(-v) }) : model::number(v);
        };
        for (int k = 0; k < 16; ++k) {
            auto a = s.chance(1, 4) ? progen::real_literal(s) : lit(s.chance(1, 4));
            auto b = s.chance(1, 4) ? progen::real_literal(s) : lit(op == "<<" || op == ">>" ? s.chance(9, 10) : s.chance(1, 4));
            es.push_back(model::make(model::Expr::binary, op, { a, b }));
        }
        check(es, c);
        c.nontrivial = true;
    };
    // The parameter of an instruction is the value promoted to its type; a bool and an int where a real is expected.
    auto params = [](Src& s, Case& c) {
        progen::ExprGen g{ s, {} };
        char kind = s.pick(std::string{ "bif" });
        auto e = g.sound(kind, 3);
        auto v = oracle::eval(oracle::World{}, e);
        bool integral = v.k != Val::f;
        auto text = "version 3.0\nqubit q\nRx(" + show(e) + ") q\nwait(" + show(e) + ") q\n";
        c.show = text;
        c.nontrivial = e->args.size() > 0;
        auto a = lib::analyse(text);
        PBT_CHECK(a.errors.size() == (integral ? 0 : 1), "errors:\n" << lib::show(a.errors) << "for\n" << text);
        if (integral) {
            auto want = "api 3.0\nversion 3.0\nvariable qubit q\ngate Rx:Q Rx(" + oracle::sem(oracle::promoted(v, 'f')) + ") (q:qubit)\ndo wait:Q wait(" +
                oracle::sem(oracle::promoted(v, 'i')) + ") (q:qubit)\n";
            PBT_CHECK(lib::agree(want, *a.tree, v.rough), "tree:\n" << *a.tree << "expected:\n" << want);
        }
    };
    return run(argc, argv, "C15", "constant expressions; non-trivial: at least two different operators or functions (first clauses: every operator "
        "with every pair of 41 edge values)",
        { { "operators at the edges", pairs, ops.size() * n, ops.size() * n, ops.size() * n },
            { "functions at the edges", singles, ones.size(), ones.size(), ones.size() },
            { "conditionals at the edges", ternary, n, n, n }, { "expression trees", random, 4000, 120000 },
            { "operands", operands, 2000, 60000 }, { "parameters", params, 1000, 20000 } });
}
