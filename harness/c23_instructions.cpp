// C23: which instructions are accepted.
#include "decide.hpp"
using namespace pbt;
using model::E;
using model::Expr;

static const std::vector<std::string> non_gates = { "reset", "init", "barrier", "wait", "measure" };
static const std::vector<std::string>& unknown() {
    static const std::vector<std::string> v = { "x", "h", "RX", "Rxx", "cnot", "CNOTS", "X9", "X900", "mX", "sdag", "SDag", "swap", "CRK", "C", "u", "U1", "q", "v2", "pi", "sin",
        "_X", "TDAG", "Reset", "Wait", "Measure", "measure_z", "prep", "H2", "CR_k", "Rn2" };
    return v;
}
static std::vector<std::string> gate_names() {
    std::vector<std::string> r;
    for (auto& g : oracle::gates()) {
        r.push_back(g.name);
    }
    return r;
}
static void declare(model::Program& p) {
    p.stmts = { decide::variable("qubit", "q"), decide::variable("qubit", "p"), decide::variable("qubit", "v1", "1"), decide::variable("qubit", "v2", "2"), decide::variable("qubit", "v3", "3"),
        decide::variable("bit", "b"), decide::variable("bit", "w1", "1"), decide::variable("bit", "w2", "2"), decide::variable("bit", "w3", "3") };
}
// The kinds of operand: two of each number of qubits, bits, constants, and references to things that do not exist.
static E operand(std::uint64_t k) {
    static const std::vector<E> all = { model::ident("q"), model::ident("p"), model::ident("v1"), model::ident("v2"), model::ident("v3"), model::ident("b"), model::ident("w1"),
        model::ident("w2"), model::ident("w3"), decide::at("v3", { 1 }), decide::at("v3", { 2, 0 }), decide::at("v2", { 0, 0, 1 }), decide::at("w3", { 0 }), decide::at("w3", { 1, 2 }),
        model::number(1), make(Expr::real, "0.5"), make(Expr::boolean, "true"), model::ident("pi"), model::ident("none"), decide::at("v1", { 0 }) };
    return model::copy(all[k % all.size()]);
}
static constexpr std::uint64_t kinds = 20;
static E parameter(char k, Src& s) {
    switch (k) {
        case 'b': return make(Expr::boolean, s.flip() ? "true" : "false");
        case 'i': return progen::int_literal(s);
        case 'f': return progen::real_literal(s);
        case 'q': return model::ident(s.pick({ std::string{ "q" }, std::string{ "v2" }, std::string{ "b" }, std::string{ "w2" } }));
        case 'n': return model::ident("none");
        default: {
            progen::ExprGen g{ s, { "q", "b" } };
            g.wild = s.chance(1, 4);
            return g.typed(s.pick(std::string{ "bif" }), 2);
        }
    }
}
static model::S statement(const std::string& name, const std::vector<E>& params, std::vector<E> operands) {
    if (name == "measure") {
        if (operands.size() < 2) {
            operands.push_back(model::copy(operands[0]));
        }
        return decide::measure(operands[0], operands[1], params);
    }
    if (name == "wait") {
        return decide::wait(params.empty() ? model::number(3) : params[0], operands[0]);
    }
    if (std::find(non_gates.begin(), non_gates.end(), name) != non_gates.end()) {
        return decide::simple(name, operands[0]);
    }
    return decide::apply(decide::gate(name, params), operands);
}
static std::string documented(const std::string& name) {
    if (auto* g = oracle::gate_form(name)) {
        return g->params;
    }
    return name == "wait" ? "i" : "";
}

int main(int argc, char** argv) {
    auto names = gate_names();
    names.insert(names.end(), non_gates.begin(), non_gates.end());
    // Every instruction with every pair of operands, and with each single one.
    auto per_name = kinds * kinds + kinds;
    auto operands = [&](Src& s, Case& c) {
        auto k = s.draw(names.size() * per_name);
        auto& name = names[k / per_name];
        k %= per_name;
        std::vector<E> os = k < kinds ? std::vector<E>{ operand(k) } : std::vector<E>{ operand((k - kinds) / kinds), operand((k - kinds) % kinds) };
        if (s.chance(1, 8)) {
            os.insert(os.begin() + static_cast<long>(s.draw(os.size() + 1)), operand(s.draw(kinds)));
        }
        std::vector<E> ps;
        for (char t : name == "measure" && s.chance(1, 4) ? "fff" : documented(name)) {
            ps.push_back(parameter(t == 'i' ? 'i' : s.pick(std::string{ "bif" }), s));
        }
        model::Program p;
        declare(p);
        p.stmts.push_back(statement(name, ps, os));
        auto o = decide::check(p, c);
        c.nontrivial = true;
    };
    // Every instruction with every number of parameters up to seven, of all kinds.
    auto params = [&](Src& s, Case& c) {
        auto k = s.draw(names.size() * 8 * 6);
        auto& name = names[k / 48];
        auto count = k / 6 % 8;
        char kind = "bifqnx"[k % 6];
        std::vector<E> ps;
        for (std::uint64_t i = 0; i < count; ++i) {
            ps.push_back(parameter(s.chance(1, 3) ? s.pick(std::string{ "bifx" }) : kind, s));
        }
        if (count > 0 && s.flip()) {  // only one of the kind, the others fine
            auto at = s.index(count);
            for (std::size_t i = 0; i < count; ++i) {
                if (i != at) {
                    ps[i] = parameter(s.pick(std::string{ "bif" }), s);
                }
            }
        }
        auto* g = oracle::gate_form(name);
        bool two = name == "measure" || (g && g->qubits == 2);
        model::Program p;
        declare(p);
        std::vector<E> os;
        if (name == "measure") {
            os = { operand(5), operand(0) };
        } else if (two) {
            os = { operand(0), operand(1) };
        } else {
            os = { operand(s.pick({ 0u, 3u, 10u })) };
        }
        p.stmts.push_back(statement(name, ps, os));
        decide::check(p, c);
        c.nontrivial = count > 0;
    };
    // Every parameter of every instruction, replaced by one of another kind; the others as documented.
    struct Spot {
        std::string name, form;
        std::size_t at;
        char kind;
    };
    std::vector<Spot> spots;
    for (auto& name : names) {
        for (auto& form : name == "measure" ? std::vector<std::string>{ "f", "ff", "fff" } : std::vector<std::string>{ documented(name) }) {
            for (std::size_t at = 0; at < form.size(); ++at) {
                for (char kind : std::string{ "qrcwyuvnbifx" }) {
                    spots.push_back({ name, form, at, kind });
                }
            }
        }
    }
    auto replaced = [&](Src& s, Case& c) {
        auto& spot = spots[s.draw(spots.size())];
        std::vector<E> ps;
        for (std::size_t i = 0; i < spot.form.size(); ++i) {
            char t = spot.form[i];
            ps.push_back(parameter(i != spot.at ? t == 'i' ? 'i' : s.pick(std::string{ "bif" }) : 'n', s));
        }
        auto& e = ps[spot.at];
        switch (spot.kind) {
            case 'q': e = model::ident("q"); break;
            case 'r': e = model::ident("v2"); break;
            case 'c': e = model::ident("b"); break;
            case 'w': e = model::ident("w3"); break;
            case 'y': e = decide::at("v3", { 1 }); break;
            case 'u': e = decide::at("w2", { 0, 1 }); break;
            case 'v': e = model::ident("v1"); break;
            default: e = parameter(spot.kind, s);
        }
        auto* g = oracle::gate_form(spot.name);
        model::Program p;
        declare(p);
        std::vector<E> os = { operand(spot.name == "measure" ? 5 : 0) };
        if (spot.name == "measure" || (g && g->qubits == 2)) {
            os.push_back(operand(1));
            if (spot.name == "measure" && s.flip()) {
                os[1] = operand(0);
            }
        }
        p.stmts.push_back(statement(spot.name, ps, os));
        decide::check(p, c);
        c.nontrivial = true;
    };
    // Anything goes: several statements, known and unknown names, some with modifiers.
    auto mix = [&](Src& s, Case& c) {
        model::Program p;
        declare(p);
        for (auto n = 1 + s.draw(5); n > 0; --n) {
            auto name = s.chance(1, 8) ? s.pick(unknown()) : s.pick(names);
            std::vector<E> ps, os;
            auto* g = oracle::gate_form(name);
            if (s.chance(3, 4)) {
                for (char t : documented(name)) {
                    ps.push_back(parameter(t == 'i' ? s.pick(std::string{ "iib" }) : 'x', s));
                }
            } else {
                for (auto m = s.draw(6); m > 0; --m) {
                    ps.push_back(parameter(s.pick(std::string{ "bifqx" }), s));
                }
            }
            std::size_t count = s.chance(3, 4) ? (g && g->qubits == 2) || name == "measure" ? 2 : 1 : 1 + s.draw(4);
            for (std::size_t i = 0; i < count; ++i) {
                os.push_back(operand(s.chance(2, 3) ? s.pick({ 0u, 1u, 2u, 3u, 4u, 9u, 10u, 11u }) : s.draw(kinds)));
            }
            auto st = statement(name, ps, os);
            if (st->kind == model::Stmt::gate && s.chance(1, 5)) {
                st->g = decide::gate("inv", {}, st->g);
            }
            p.stmts.push_back(st);
        }
        c.nontrivial = true;
        decide::check(p, c);
    };
    // Equal numbers of elements are needed, whatever the registers and lists.
    auto sizes = [&](Src& s, Case& c) {
        model::Program p;
        auto a = static_cast<std::int64_t>(1 + s.draw(40));
        if (s.chance(1, 3)) {  // large, and around numbers that something may wrap around at
            a = std::max<std::int64_t>(1, (std::int64_t{ 1 } << s.draw(22)) + s.range(-2, 2));
        } else if (s.chance(1, 3)) {
            a = static_cast<std::int64_t>(1 + s.draw(700));
        }
        auto b = a;
        if (s.flip()) {
            switch (s.draw(4)) {
                case 0: b = static_cast<std::int64_t>(1 + s.draw(4)); break;
                case 1: b = a + (std::int64_t{ 1 } << s.draw(34)); break;
                case 2: b = static_cast<std::int64_t>(1 + s.draw(700)); break;
                default: b = std::max<std::int64_t>(1, a + s.range(-2, 2));
            }
        }
        p.stmts = { decide::variable("qubit", "q", std::to_string(a)), decide::variable("qubit", "r", std::to_string(b)), decide::variable("bit", "c", std::to_string(b)) };
        auto ref = [&](const std::string& name, std::int64_t size) {
            if (s.flip()) {
                return model::ident(name);
            }
            auto e = make(Expr::index, name);
            size = std::min<std::int64_t>(size, s.chance(1, 4) ? 600 : 40);
            for (auto n = 1 + s.draw(3); n > 0; --n) {
                auto x = s.range(0, size - 1), y = s.range(0, size - 1);
                e->entries.push_back({ model::number(std::min(x, y)), s.flip() ? model::number(std::max(x, y)) : nullptr });
            }
            return e;
        };
        static const std::vector<std::string> two = { "CNOT", "CZ", "SWAP" };
        auto x = ref("q", a), y = ref("r", b), z = ref("c", b);
        p.stmts.push_back(decide::apply(decide::gate(s.pick(two)), { x, y }));
        p.stmts.push_back(decide::apply(decide::gate("CR", { model::number(1) }), { model::copy(y), model::copy(x) }));
        p.stmts.push_back(decide::measure(z, model::copy(x)));
        c.nontrivial = a > 1;
        decide::check(p, c);
    };
    return run(argc, argv, "C23", "one or more instructions over registers of one to three elements; non-trivial: an instruction with its operands (second clause: with parameters)",
        { { "operands", operands, 13000, 100000, names.size() * per_name }, { "parameters", params, 4000, 60000, names.size() * 48 }, { "one parameter replaced", replaced, 1500, 20000, spots.size() },
            { "mixtures", mix, 4000, 120000 },
            { "numbers of elements", sizes, 2000, 60000 } });
}
