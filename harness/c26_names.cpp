// C26: names.
#include "decide.hpp"
using namespace pbt;
using model::E;
using model::Expr;

// Names that are close to each other.
static std::vector<std::string> pool(Src& s) {
    static const std::vector<std::string> bases = { "q", "ab", "X", "pi", "_", "sin", "q0", "Tau", "eu", "abs", "bit0", "CNOT" };
    std::vector<std::string> r;
    for (auto n = 1 + s.draw(3); n > 0; --n) {
        auto b = s.pick(bases);
        r.push_back(b);
        auto up = b, down = b;
        for (auto& c : up) {
            c = static_cast<char>(std::toupper(c));
        }
        for (auto& c : down) {
            c = static_cast<char>(std::tolower(c));
        }
        for (auto& x : { up, down, b + "_", "_" + b, b + b, b + "0", b.substr(0, b.size() - 1) }) {
            if (!x.empty() && !std::isdigit(static_cast<unsigned char>(x[0])) && !progen::keyword(x) && s.flip()) {
                r.push_back(x);
            }
        }
    }
    if (s.chance(1, 4)) {
        r.push_back(s.pick({ std::string{ "pi" }, std::string{ "tau" }, std::string{ "eu" } }));
    }
    return r;
}

int main(int argc, char** argv) {
    auto histories = [](Src& s, Case& c) {
        auto names = pool(s);
        model::Program p;
        std::set<std::string> declared;
        for (auto n = 2 + s.length(14); n > 0; --n) {
            auto name = s.pick(names);
            E ref = model::ident(name);
            if (s.chance(1, 4)) {
                ref = decide::at(name, { 0 });
            }
            switch (s.weighted({ 4, 3, 2, 1, 1 })) {
                case 0:
                    p.stmts.push_back(decide::variable(s.chance(2, 3) ? "qubit" : "bit", name, s.flip() ? "" : std::to_string(s.draw(4))));
                    declared.insert(name);
                    break;
                case 1: p.stmts.push_back(decide::apply(decide::gate("H"), { ref })); break;
                case 2: p.stmts.push_back(decide::measure(ref, model::ident(s.pick(names)))); break;
                case 3: p.stmts.push_back(decide::apply(decide::gate("Rx", { ref }), { model::ident(s.pick(names)) })); break;
                default: p.stmts.push_back(decide::apply(decide::gate("CNOT"), { ref, model::ident(s.pick(names)) }));
            }
        }
        c.nontrivial = declared.size() >= 2;
        auto o = decide::check(p, c);
        if (!o.got.tree) {
            return;
        }
        // Each reference is to the very variable declared.
        auto& root = *o.got.result.root;
        auto known = [&](const lib::val::ValueBase& v) {
            const lib::sem::Variable* target = nullptr;
            if (auto* x = v.as_variable_ref()) {
                target = &*x->variable;
            } else if (auto* y = v.as_index_ref()) {
                target = &*y->variable;
            } else {
                return true;
            }
            for (auto& x : root.variables) {
                if (&*x == target) {
                    return true;
                }
            }
            return false;
        };
        for (auto& st : root.block->statements) {
            auto* g = st->as_gate_instruction();
            auto* n = st->as_non_gate_instruction();
            for (auto& v : g ? g->operands : n->operands) {
                PBT_CHECK(known(*v), "an operand refers to no variable of the program, for:\n" << o.text);
            }
        }
    };
    // Every name in the pool, declared and used: accepted as that variable; used in any other spelling: rejected.
    auto spelling = [](Src& s, Case& c) {
        std::string name;
        do {
            name = progen::fresh_name(s);
        } while (name == "pi" || name == "eu" || name == "tau");
        model::Program p;
        p.stmts.push_back(decide::variable("qubit", name));
        p.stmts.push_back(decide::apply(decide::gate("X"), { model::ident(name) }));
        auto other = name;
        switch (s.draw(5)) {
            case 0: other += s.pick(std::string{ "_0aZ" }); break;
            case 1: other = "_" + other; break;
            case 2: {
                auto i = s.index(other.size());
                auto ch = static_cast<unsigned char>(other[i]);
                other[i] = static_cast<char>(std::isupper(ch) ? std::tolower(ch) : std::toupper(ch));
                break;
            }
            case 3: other.pop_back(); break;
            default: std::swap(other[0], other[s.index(other.size())]);
        }
        if (other.empty() || std::isdigit(static_cast<unsigned char>(other[0])) || progen::keyword(other)) {
            other = name + "x";
        }
        p.stmts.push_back(decide::apply(decide::gate("X"), { model::ident(other) }));
        if (s.flip()) {
            p.stmts.push_back(decide::variable("bit", other));
        }
        c.nontrivial = other != name;
        decide::check(p, c);
    };
    // What is no name: one with any other character in it, or that begins with a digit.
    auto no_names = [](Src& s, Case& c) {
        static const std::vector<std::string> others = { "$", "@", "#", "`", "\\", "\"", "'", ".", "-", "!", "?", "~", "{", "}", "%", "&", "|", "^", "<", "*", "+", ":", "=", ",", "(", "]", "/", "\x7f", "\x01",
            "\xc3\xa9", "\xc3\x9f", "\xce\xb1", "\xc2\xb2", "\xd9\xa1", "\xef\xbc\xa1", "\xf0\x9d\x91\x8e", "\xe2\x80\x8b", std::string(1, '\0') };
        std::string name;
        do {
            name = progen::fresh_name(s);
        } while (name.size() > 40);
        auto bad = name;
        auto digit = s.chance(1, 4);
        if (digit) {
            bad = std::to_string(s.draw(1000)) + name;
        } else {
            bad.insert(s.index(name.size() + 1), s.pick(others));
        }
        std::string text = "version 3.0\n";
        switch (s.draw(4)) {
            case 0: text += "qubit " + bad + "\n"; break;
            case 1: text += "bit[2] " + bad + "\n"; break;
            case 2: text += "qubit " + name + "\nqubit " + bad + "\nX " + name + "\n"; break;
            default: text += "asm(" + bad + ") '''x'''\n";
        }
        c.show = quote(text);
        c.nontrivial = true;
        c.label(digit ? "begins with a digit" : "another character");
        auto a = lib::analyse(text);
        auto p = lib::parse(text);
        PBT_CHECK(!a.tree && !p.tree && !p.errors.empty(), quote(bad) << " is accepted as a name, in\n" << quote(text));
    };
    // Long names that are alike but for their end, or for a letter somewhere.
    auto long_names = [](Src& s, Case& c) {
        auto n = s.flip() ? (std::size_t{ 1 } << (3 + s.draw(10))) + s.draw(4) - 2 : 1 + s.draw(3000);
        std::string stem(n, s.pick(std::string{ "qX_i" }));
        for (auto k = s.draw(4); k > 0; --k) {
            stem[s.index(n)] = s.pick(std::string{ "abAB_019" });
        }
        if (std::isdigit(static_cast<unsigned char>(stem[0]))) {
            stem[0] = 'q';
        }
        std::vector<std::string> names = { stem };
        while (names.size() < 4) {
            auto t = s.pick(names);
            switch (s.draw(4)) {
                case 0: t += s.pick(std::string{ "ab_0" }); break;
                case 1: t.back() = t.back() == 'z' ? 'y' : 'z'; break;
                case 2: t[s.index(t.size())] = s.pick(std::string{ "kK" }); break;
                default: t = "_" + t;
            }
            names.push_back(t);
        }
        for (auto& t : names) {
            t = progen::keyword(t) || t == "pi" || t == "eu" || t == "tau" ? t + "_" : t;
        }
        model::Program p;
        std::set<std::string> declared;
        for (auto k = 3 + s.length(8); k > 0; --k) {
            auto name = s.pick(names);
            switch (s.draw(4)) {
                case 0: p.stmts.push_back(decide::apply(decide::gate("H"), { model::ident(name) })); break;
                case 1: p.stmts.push_back(decide::apply(decide::gate("CNOT"), { decide::at(name, { 1 }), model::ident(s.pick(names)) })); break;
                default: p.stmts.push_back(decide::variable(s.chance(3, 4) ? "qubit" : "bit", name, s.flip() ? "" : std::to_string(1 + s.draw(3)))); declared.insert(name);
            }
        }
        c.nontrivial = declared.size() >= 2 && n >= 16;
        decide::check(p, c);
        c.show = c.show.size() > 3000 ? c.show.substr(0, 3000) + "..." : c.show;
    };
    return run(argc, argv, "C26", "declarations and uses over near-colliding names; non-trivial: at least two names declared (second clause: two spellings; third: of at least 16 characters)",
        { { "histories", histories, 5000, 150000 }, { "spellings", spelling, 4000, 100000 }, { "long names", long_names, 1500, 30000 }, { "no names", no_names, 1500, 30000 } });
}
