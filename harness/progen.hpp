// Generators of programs.
#pragma once

#include "oracle.hpp"

namespace progen {
using namespace model;

inline const std::vector<std::string>& name_pool() {
    static const std::vector<std::string> v = { "q", "Q", "qq", "b", "B", "q0", "q_", "_q", "_", "__", "x", "X", "H", "CNOT",
        "Rx", "measured", "Measure", "QUBIT", "qubits", "bits", "inverse", "power", "ctrl_", "version1", "Version", "trues",
        "True", "PI", "Pi", "e", "E1", "e5", "sin", "abs", "operator", "asm_", "waiting", "i", "tau_",
        "int", "float", "bool", "if", "for", "let", "const", "gate", "def", "U", "resets", "initial", "barrier_", "inv_", "pow2", "qubit_", "bit1", "null", "NULL", "none",
        "inf", "nan", "INF", "E", "ex", "x0", "map", "end", "false_", "measure2", "aVeryLongNameThatGoesOnAndOn_0123456789" };
    return v;
}
inline bool keyword(const std::string& n) {
    static const std::set<std::string> k = { "version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl",
        "qubit", "bit", "asm", "true", "false" };
    return k.contains(n);
}
inline std::string fresh_name(Src& s) {
    if (!s.chance(1, 3)) {
        return s.pick(name_pool());
    }
    static const std::string first = "abcxyzABCXYZ_qQ", rest = "abcxyzABCXYZ_qQ0189";
    for (;;) {
        std::string r(1, s.pick(first));
        for (auto n = s.length(10); n > 0; --n) {
            r += s.pick(rest);
        }
        if (s.chance(1, 40)) {
            r += std::string(20 + s.draw(300), s.pick(rest));
        }
        if (!keyword(r)) {
            return r;
        }
    }
}

// ----------------------------------------------------------------------------------------------------- expressions ---

inline E int_literal(Src& s) {
    std::string t;
    switch (s.weighted({ 8, 3, 2, 1 })) {
        case 0: t = std::to_string(s.draw(10)); break;
        case 1: t = std::to_string(s.draw(1000)); break;
        case 2: {
            auto v = gen::i64(s);
            t = std::to_string(v < 0 ? (v == INT64_MIN ? INT64_MAX : -v) : v);
            break;
        }
        default: t = s.pick({ std::string{ "9223372036854775807" }, std::string{ "9223372036854775806" }, std::string{ "4611686018427387904" }, std::string{ "2147483648" } });
    }
    if (s.chance(1, 16)) {
        t = std::string(1 + s.draw(3), '0') + t;
    }
    return make(Expr::integer, t);
}
inline E real_literal(Src& s) {
    std::string t;
    auto digits = [&](std::size_t max) {
        std::string d;
        for (auto n = 1 + s.index(max); n > 0; --n) {
            d += static_cast<char>('0' + s.draw(10));
        }
        return d;
    };
    auto form = s.draw(3);
    t = form == 0 ? digits(3) + "." + digits(4) : form == 1 ? digits(4) + "." : "." + digits(4);
    if (s.chance(1, 4)) {
        t += s.pick({ "e", "E" });
        t += s.pick({ "", "+", "-" });
        t += std::to_string(s.draw(s.chance(1, 5) ? 290 : 12));
    }
    return make(Expr::real, t);
}

struct ExprGen {
    Src& s;
    std::vector<std::string> names;   // non-constant names that may turn up
    bool wild = false;                // types need not fit
    unsigned redundant = 8;           // one expression in so many gets redundant parentheses

    E decorate(E e) {
        if (redundant && s.chance(1, redundant)) {
            e->parens = 1 + static_cast<int>(s.draw(2));
        }
        return e;
    }
    // kind: 'b', 'i', 'f'
    E typed(char kind, int depth) {
        if (wild && s.chance(1, 12)) {
            kind = s.pick(std::string{ "bif" });
        }
        if (wild && !names.empty() && s.chance(1, 24)) {
            return decorate(ident(s.pick(names)));
        }
        return decorate(bare(kind, depth));
    }
    E bin(const std::string& op, E a, E b) { return make(Expr::binary, op, { std::move(a), std::move(b) }); }
    E bare(char kind, int depth) {
        bool leaf = depth <= 0 || s.chance(1, 4);
        if (!leaf && s.chance(1, 10)) {
            return make(Expr::ternary, "?", { typed('b', depth - 1), typed(kind, depth - 1), typed(kind == 'f' && s.flip() ? 'i' : kind, depth - 1) });
        }
        if (!leaf && kind != 'b' && s.chance(1, 12)) {
            return make(Expr::unary, "+", { typed(kind, depth - 1) });
        }
        switch (kind) {
            case 'b': {
                if (leaf) {
                    return make(Expr::boolean, s.flip() ? "true" : "false");
                }
                switch (s.weighted({ 2, 4, 4 })) {
                    case 0: return make(Expr::unary, "!", { typed('b', depth - 1) });
                    case 1: return bin(s.pick({ std::string{ "&&" }, std::string{ "||" }, std::string{ "^^" } }), typed('b', depth - 1), typed('b', depth - 1));
                    default: {
                        char l = s.pick(std::string{ "iiffb" }), r = s.chance(1, 4) ? s.pick(std::string{ "ifb" }) : l;
                        static const std::vector<std::string> ops = { "<", ">", "<=", ">=", "==", "!=" };
                        return bin(s.pick(ops), typed(l, depth - 1), typed(r, depth - 1));
                    }
                }
            }
            case 'i': {
                if (leaf) {
                    return int_literal(s);
                }
                switch (s.weighted({ 2, 2, 10, 2 })) {
                    case 0: return make(Expr::unary, "-", { typed(ib(), depth - 1) });
                    case 1: return make(Expr::unary, "~", { typed(ib(), depth - 1) });
                    case 2: {
                        static const std::vector<std::string> ops = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>" };
                        auto op = s.pick(ops);
                        auto a = typed(ib(), depth - 1);
                        auto b = (op == "<<" || op == ">>") && !s.chance(1, 8) ? decorate(number(static_cast<std::int64_t>(s.draw(64)))) :
                                                                               typed(ib(), depth - 1);
                        return bin(op, a, b);
                    }
                    default: return make(Expr::call, "abs", { typed(ib(), depth - 1) });
                }
            }
            default: {
                if (leaf) {
                    return s.chance(1, 4) ? ident(s.pick({ std::string{ "pi" }, std::string{ "eu" }, std::string{ "tau" } })) : real_literal(s);
                }
                switch (s.weighted({ 2, 8, 3, 5, 1 })) {
                    case 0: return make(Expr::unary, "-", { typed('f', depth - 1) });
                    case 1: {
                        static const std::vector<std::string> ops = { "+", "-", "*", "/" };
                        auto op = s.pick(ops);
                        bool left = s.flip();
                        return bin(op, typed(left ? 'f' : any(), depth - 1), typed(left ? any() : 'f', depth - 1));
                    }
                    case 2: return bin("**", typed(any(), depth - 1), typed(any(), depth - 1));
                    case 3: {
                        static const std::vector<std::string> fs = { "sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh",
                            "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh" };
                        return make(Expr::call, s.pick(fs), { typed(any(), depth - 1) });
                    }
                    default: return make(Expr::call, "abs", { typed('f', depth - 1) });
                }
            }
        }
    }
    char ib() { return s.chance(1, 6) ? 'b' : 'i'; }
    char any() { return s.pick(std::string{ "fiffib" }); }

    // Any syntactically valid expression, of whatever type.
    E free(int depth) {
        if (depth <= 0 || s.chance(1, 5)) {
            switch (s.weighted({ 3, 3, 3, 1 })) {
                case 0: return decorate(int_literal(s));
                case 1: return decorate(ident(s.chance(1, 4) ? s.pick({ std::string{ "pi" }, std::string{ "nope" } }) : names.empty() || s.chance(1, 4) ? fresh_name(s) : s.pick(names)));
                case 2: return decorate(real_literal(s));
                default: return decorate(make(Expr::boolean, s.flip() ? "true" : "false"));
            }
        }
        switch (s.weighted({ 3, 10, 2, 2, 2 })) {
            case 0: return decorate(make(Expr::unary, s.pick({ std::string{ "-" }, std::string{ "+" }, std::string{ "~" }, std::string{ "!" } }), { free(depth - 1) }));
            case 1: {
                static const std::vector<std::string> ops = { "||", "^^", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=",
                    "<<", ">>", "+", "-", "*", "/", "%", "**", "**" };
                auto a = free(depth - 1);
                return decorate(bin(s.pick(ops), a, free(depth - 1)));
            }
            case 2: {
                auto a = free(depth - 1);
                auto b = free(depth - 1);
                return decorate(make(Expr::ternary, "?", { a, b, free(depth - 1) }));
            }
            case 3: {
                std::vector<E> args;
                for (auto n = s.draw(4); n > 0; --n) {
                    args.push_back(free(depth - 1));
                }
                return decorate(make(Expr::call, fresh_name(s), args));
            }
            default: {
                auto e = make(Expr::index, names.empty() || s.chance(1, 4) ? fresh_name(s) : s.pick(names));
                for (auto n = 1 + s.draw(3); n > 0; --n) {
                    auto a = free(depth - 1);
                    e->entries.push_back({ a, s.chance(1, 3) ? free(depth - 1) : nullptr });
                }
                return decorate(e);
            }
        }
    }
    // A constant whose evaluation succeeds.
    E sound(char kind, int depth) {
        for (int i = 0; i < 8; ++i) {
            auto e = typed(kind, depth);
            try {
                oracle::eval(oracle::World{}, e);
                return e;
            } catch (const oracle::Fault&) {
            }
        }
        return kind == 'b' ? make(Expr::boolean, "true") : kind == 'i' ? number(1) : make(Expr::real, "0.5");
    }
};

// ---------------------------------------------------------------------------------------------------------- programs ---

inline std::string raw_text(Src& s) {
    static const std::vector<std::string> bits = { "x q[0]", "\n", "\r\n", "'", "''", "\\", "\"", "//", "/*", "*/", ";", "version 3.0",
        "\xc3\xa9", "\xf0\x9f\x98\x80", "\t", " ", "asm(", ")", "measure", "%", "\\n", "\\'", "#", "{", "}", "$", "" };
    std::string r;
    if (s.chance(1, 4)) {
        r = gen::text(s, 60);
    } else {
        for (auto n = s.length(12); n > 0; --n) {
            r += s.pick(bits);
        }
    }
    for (std::size_t i; (i = r.find("'''")) != std::string::npos;) {
        r.erase(i, 1);
    }
    while (!r.empty() && r.back() == '\'') {
        r.pop_back();
    }
    return r;
}

struct ProgramGen {
    Src& s;
    oracle::World w;
    Program p;
    ExprGen eg;
    int depth = 2;
    std::size_t max_size = 8;

    explicit ProgramGen(Src& src) : s{ src }, eg{ src, {} } {}

    std::vector<std::shared_ptr<oracle::Var>> of(bool qubit) {
        std::vector<std::shared_ptr<oracle::Var>> r;
        for (auto& v : w.vars) {
            if (v->qubit == qubit) {
                r.push_back(v);
            }
        }
        return r;
    }
    void add(const S& st) {
        p.stmts.push_back(st);
        oracle::Result ignored;
        try {
            oracle::analyse(w, st, {}, ignored);
            if (st->kind == Stmt::variable) {
                eg.names.push_back(st->name);
            }
        } catch (const oracle::Fault&) {
        }
    }
    S variable(bool qubit) {
        auto st = std::make_shared<Stmt>();
        st->kind = Stmt::variable;
        st->word = qubit ? "qubit" : "bit";
        for (int i = 0; i < 20; ++i) {
            st->name = i < 10 ? fresh_name(s) : "v" + std::to_string(w.vars.size()) + "_" + std::to_string(i);
            if (!w.names.contains(st->name)) {
                break;
            }
        }
        if (s.chance(2, 3)) {
            st->size = std::to_string(1 + s.draw(max_size));
            if (s.chance(1, 16)) {
                st->size = "00" + st->size;
            }
        }
        return st;
    }
    void declare(bool qubit) { add(variable(qubit)); }
    std::shared_ptr<oracle::Var> var(bool qubit) {
        auto l = of(qubit);
        if (l.empty() || (l.size() < 6 && s.chance(1, 8))) {
            declare(qubit);
            l = of(qubit);
        }
        return s.pick(l);
    }
    E index_number(std::int64_t v) {
        if (v <= 1 && s.chance(1, 30)) {
            return make(Expr::boolean, v ? "true" : "false");
        }
        if (s.chance(1, 12)) {
            auto k = static_cast<std::int64_t>(s.draw(5));
            return make(Expr::binary, "-", { number(v + k), number(k) });
        }
        return number(v);
    }
    // A reference with the given number of elements (0: any), or nothing if there is no such.
    E reference(bool qubit, std::int64_t elements) {
        std::vector<std::shared_ptr<oracle::Var>> fitting;
        for (auto& v : of(qubit)) {
            if (elements == 0 || v->array || v->size == elements) {
                fitting.push_back(v);
            }
        }
        if (fitting.empty()) {
            return nullptr;
        }
        auto v = s.pick(fitting);
        if (!v->array || ((elements == 0 || v->size == elements) && s.flip())) {
            return eg.decorate(ident(v->name));
        }
        auto e = make(Expr::index, v->name);
        auto left = elements ? elements : 1 + static_cast<std::int64_t>(s.draw(5));
        while (left > 0) {
            auto run = std::min<std::int64_t>({ left, v->size, s.flip() ? 1 : 1 + static_cast<std::int64_t>(s.draw(4)) });
            auto first = s.range(0, v->size - run);
            if (run > 1 || s.chance(1, 5)) {
                e->entries.push_back({ index_number(first), index_number(first + run - 1) });
            } else {
                e->entries.push_back({ index_number(first), nullptr });
            }
            left -= run;
        }
        return eg.decorate(e);
    }
    std::int64_t elements(const E& e) { return oracle::width(oracle::eval(w, e)); }
    std::vector<E> params(const std::string& types) {
        std::vector<E> r;
        for (char t : types) {
            r.push_back(eg.sound(t == 'f' ? eg.any() : eg.ib(), depth));
        }
        return r;
    }
    G named_gate(int qubits) {
        std::vector<const oracle::GateForm*> l;
        for (auto& g : oracle::gates()) {
            if (!qubits || g.qubits == qubits) {
                l.push_back(&g);
            }
        }
        auto* f = s.pick(l);
        auto g = std::make_shared<Gate>();
        g->name = f->name;
        g->params = params(f->params);
        return g;
    }
    G modified(G g, const std::string& m) {
        auto r = std::make_shared<Gate>();
        r->name = m;
        r->inner = std::move(g);
        if (m == "pow") {
            r->params = params("f");
        }
        return r;
    }
    S gate() {
        auto st = std::make_shared<Stmt>();
        st->kind = Stmt::gate;
        int qubits;
        if (s.chance(1, 3)) {
            st->g = named_gate(1);
            qubits = 1;
            for (auto n = s.draw(4); n > 0; --n) {
                st->g = modified(st->g, s.flip() ? "inv" : "pow");
            }
            if (s.flip()) {
                st->g = modified(st->g, "ctrl");
                qubits = 2;
            }
        } else {
            st->g = named_gate(0);
            qubits = oracle::gate_form(st->g->name)->qubits;
        }
        var(true);
        auto first = reference(true, 0);
        st->operands.push_back(first);
        if (qubits == 2) {
            auto second = reference(true, elements(first));
            if (!second) {
                second = copy(first);
            }
            st->operands.push_back(second);
            if (s.flip()) {
                std::swap(st->operands[0], st->operands[1]);
            }
        }
        return st;
    }
    E single(const std::shared_ptr<oracle::Var>& v) {
        if (!v->array) {
            return ident(v->name);
        }
        auto e = make(Expr::index, v->name);
        e->entries.push_back({ number(s.range(0, v->size - 1)), nullptr });
        return e;
    }
    S measure() {
        auto st = std::make_shared<Stmt>();
        st->kind = Stmt::measure;
        var(true);
        var(false);
        E q = reference(true, 0);
        E b = reference(false, elements(q));
        if (!b) {
            q = single(s.pick(of(true)));
            b = single(s.pick(of(false)));
        }
        st->operands = { b, q };
        if (s.chance(1, 4)) {
            st->params = params("fff");
        }
        return st;
    }
    S other() {
        auto st = std::make_shared<Stmt>();
        switch (s.draw(4)) {
            case 0:
                st->kind = Stmt::wait;
                st->params = params("i");
                break;
            case 1:
                st->kind = Stmt::assembly;
                st->word = fresh_name(s);
                st->name = raw_text(s);
                return st;
            default:
                st->kind = Stmt::simple;
                st->word = s.pick({ std::string{ "reset" }, std::string{ "init" }, std::string{ "barrier" } });
        }
        var(true);
        st->operands.push_back(reference(true, 0));
        return st;
    }
    // One statement that is valid where it stands (declaring what it needs before it).
    void valid_statement() {
        S st;
        switch (s.weighted({ 3, 8, 3, 4 })) {
            case 0: st = variable(!s.chance(1, 3)); break;
            case 1: st = gate(); break;
            case 2: st = measure(); break;
            default: st = other();
        }
        add(st);
    }
    void valid(std::size_t max) {
        for (auto n = 1 + s.length(max); n > 0; --n) {
            valid_statement();
        }
    }

    // One statement with a fault: the kind of fault is returned.
    std::string faulty_statement() {
        auto name_of = [&] {  // an undeclared name
            for (;;) {
                auto n = fresh_name(s);
                if (!w.names.contains(n)) {
                    return n;
                }
            }
        };
        auto target = [&](const S& st) -> E& { return st->operands[s.index(st->operands.size())]; };
        S st;
        std::string what;
        switch (s.draw(15)) {
            case 0: {
                st = variable(s.flip());
                auto n = s.pick(std::vector<std::string>{ "pi", "eu", "tau" });
                st->name = w.vars.empty() || s.chance(1, 4) ? n : s.pick(w.vars)->name;
                what = "redeclared";
                break;
            }
            case 1:
                st = variable(s.flip());
                st->size = s.flip() ? "0" : "000";
                what = "empty array";
                break;
            case 2:
                st = s.flip() ? gate() : other_with_operand();
                target(st) = ident(name_of());
                what = "undeclared operand";
                break;
            case 3: {
                st = gate();
                // Declared names do not matter here, the names of gates do.
                auto name = name_of();
                while (oracle::gate_form(name)) {
                    name += "_";
                }
                innermost(st->g)->name = s.flip() ? name : s.pick({ std::string{ "x" }, std::string{ "h" }, std::string{ "cnot" }, std::string{ "RX" }, std::string{ "X9" }, std::string{ "mX" } });
                what = "unknown gate";
                break;
            }
            case 4:
                st = gate();
                if (s.flip()) {
                    innermost(st->g)->params.push_back(number(1));
                } else if (!innermost(st->g)->params.empty() && s.flip()) {
                    innermost(st->g)->params.pop_back();
                } else {
                    innermost(st->g)->params = { number(1), number(2) };
                }
                what = "parameter count";
                break;
            case 5:
                st = gate();
                st->operands.push_back(copy(st->operands[0]));
                if (st->operands.size() == 3 && s.flip()) {
                    st->operands.resize(1);
                }
                what = "operand count";
                break;
            case 6: {
                st = s.flip() ? gate() : other_with_operand();
                var(true);
                auto v = declare_array(true);
                auto e = make(Expr::index, v->name);
                e->entries.push_back({ number(static_cast<std::int64_t>(s.draw(static_cast<std::uint64_t>(v->size)))), nullptr });
                auto bad = s.chance(1, 3) ? make(Expr::unary, "-", { number(1 + static_cast<std::int64_t>(s.draw(3))) }) :
                                            number(v->size + static_cast<std::int64_t>(s.draw(3)));
                e->entries.insert(e->entries.begin() + static_cast<long>(s.draw(e->entries.size() + 1)), Entry{ bad, nullptr });
                target(st) = e;
                what = "index out of range";
                break;
            }
            case 7: {
                st = s.flip() ? gate() : other_with_operand();
                auto v = declare_array(true);
                auto e = make(Expr::index, v->name);
                auto a = static_cast<std::int64_t>(s.draw(3));
                e->entries.push_back({ number(a + 1 + static_cast<std::int64_t>(s.draw(3))), number(a) });
                target(st) = e;
                what = "inverted range";
                break;
            }
            case 8: {
                st = s.flip() ? gate() : other_with_operand();
                auto v = declare_array(true);
                auto e = make(Expr::index, v->name);
                e->entries.push_back({ s.flip() ? real_literal(s) : s.flip() ? ident(v->name) : ident("pi"), nullptr });
                target(st) = e;
                what = "index no integer";
                break;
            }
            case 9: {
                st = s.flip() ? gate() : other_with_operand();
                auto e = make(Expr::index, "");
                std::vector<std::string> l = { "pi", "tau" };
                for (auto& v : w.vars) {
                    if (!v->array) {
                        l.push_back(v->name);
                    }
                }
                e->text = s.pick(l);
                e->entries.push_back({ number(0), nullptr });
                target(st) = e;
                what = "not indexable";
                break;
            }
            case 10: {
                st = s.flip() ? gate() : other_with_operand();
                auto l = of(false);
                target(st) = l.empty() || s.flip() ? eg.sound(s.pick(std::string{ "bif" }), 1) : ident(s.pick(l)->name);
                what = "kind of operand";
                break;
            }
            case 11: {
                st = gate();
                st->g = modified(st->g, "ctrl");
                st->g = modified(st->g, s.pick({ std::string{ "ctrl" }, std::string{ "inv" }, std::string{ "pow" } }));
                what = "modifier of a multi-qubit gate";
                break;
            }
            case 12: {
                st = measure();
                if (s.flip()) {
                    std::swap(st->operands[0], st->operands[1]);
                } else {
                    auto v = declare_array(false);
                    auto e = make(Expr::index, v->name);
                    auto n = elements(st->operands[1]) + 1;
                    for (std::int64_t i = 0; i < n; ++i) {
                        e->entries.push_back({ number(0), nullptr });
                    }
                    st->operands[0] = e;
                }
                what = "measure";
                break;
            }
            case 13: {
                st = measure();
                static const std::vector<std::string> counts = { "f", "ff", "ffff", "fffff", "i", "b", "ii" };
                st->params = params(s.pick(counts));
                what = "parameter count of a measure";
                break;
            }
            default: {
                st = gate();
                auto g = named_gate(1);
                g->name = "Rx";
                std::vector<E> bad = { ident(name_of()), make(Expr::call, "nofunction", { number(1) }),
                    make(Expr::binary, "/", { number(1), number(0) }), make(Expr::call, "sin", { number(1), number(2) }),
                    make(Expr::unary, "!", { number(1) }), make(Expr::binary, "&&", { number(1), number(0) }),
                    make(Expr::binary, "<<", { number(1), number(64) }) };
                if (!w.vars.empty()) {
                    bad.push_back(ident(s.pick(w.vars)->name));
                }
                g->params = { s.pick(bad) };
                st->g = g;
                st->operands.resize(1);
                what = "bad parameter";
                break;
            }
        }
        add(st);
        return what;
    }
    G innermost(G g) {
        while (g->inner) {
            g = g->inner;
        }
        return g;
    }
    S other_with_operand() {
        auto st = std::make_shared<Stmt>();
        st->kind = Stmt::simple;
        st->word = s.pick({ std::string{ "reset" }, std::string{ "init" }, std::string{ "barrier" } });
        var(true);
        st->operands.push_back(reference(true, 0));
        return st;
    }
    std::shared_ptr<oracle::Var> declare_array(bool qubit) {
        for (auto& v : of(qubit)) {
            if (v->array && s.flip()) {
                return v;
            }
        }
        auto st = variable(qubit);
        st->size = std::to_string(1 + s.draw(max_size));
        add(st);
        return w.vars.back();
    }
};

}  // namespace progen
