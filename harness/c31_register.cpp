// C31: what is registered with an analyzer, against a model of it.
#include <any>
#include <tuple>

#include "decide.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
using namespace pbt;
namespace ct = cqasm::tree;
using lib::v3::analyzer::Analyzer;

struct Const {  // a value of kind b, i or f
    char kind;
    std::int64_t i = 0;
    double f = 0;
};
static Const promoted(const Const& c, char to) {
    if (to == c.kind) {
        return c;
    }
    return to == 'f' ? Const{ 'f', 0, static_cast<double>(c.i) } : Const{ to, c.i, 0 };
}
static bool fits(char from, char to) {
    return from == to || (from == 'b' && (to == 'i' || to == 'f')) || (from == 'i' && to == 'f');
}
static std::string show(const Const& c) {
    return c.kind == 'b' ? c.i ? "true" : "false" : c.kind == 'i' ? "int " + std::to_string(c.i) : "real " + lib::hex(c.f);
}
static lib::val::Value value(const Const& c) {
    if (c.kind == 'b') {
        return ct::make<lib::val::ConstBool>(c.i != 0);
    }
    if (c.kind == 'i') {
        return ct::make<lib::val::ConstInt>(c.i);
    }
    return ct::make<lib::val::ConstFloat>(c.f);
}
// Written without operators.
static std::string literal(const Const& c) {
    if (c.kind == 'b') {
        return c.i ? "true" : "false";
    }
    if (c.kind == 'i') {
        return std::to_string(c.i);
    }
    char b[64];
    std::snprintf(b, sizeof b, "%.17e", c.f);
    return b;
}
static Const constant(Src& s) {
    auto k = s.pick(std::string{ "bif" });
    return k == 'b' ? Const{ 'b', static_cast<std::int64_t>(s.draw(2)), 0 } : k == 'i' ? Const{ 'i', static_cast<std::int64_t>(s.draw(2000)), 0 } : Const{ 'f', 0, static_cast<double>(s.draw(1000)) / 8 };
}

struct Scope {
    std::map<std::string, Const> constants;
    std::vector<std::pair<std::string, std::string>> forms;  // instruction name and operand kinds, in order
};
struct Function {
    std::string name, kinds;
    int tag;
};
struct Model {
    bool default_constants = false, default_functions = false, default_instructions = false;
    std::vector<Scope> scopes = { {} };  // innermost last
    std::vector<Function> functions;
};
// The result of a registered function: a number that tells which it was and what it was given.
static std::int64_t digest(int tag, const std::vector<std::string>& args) {
    std::uint64_t h = hash_str(std::to_string(tag));
    for (auto& a : args) {
        h = mix(h ^ hash_str(a));
    }
    return static_cast<std::int64_t>(h >> 2);
}
struct Pair {
    std::unique_ptr<Analyzer> a;
    Model m;
    std::vector<std::pair<std::string, std::string>> forms, functions;  // ever registered, whether still there or not
    std::vector<std::string> constants;
};

static const std::vector<std::string> constant_names = { "k", "K", "kk", "pi", "Pi", "tau", "eu", "zq", "true", "false", "zz" };
static const std::vector<std::string> function_names = { "f", "F", "sin", "sqrt", "operator+", "operator-", "operator<", "operator!", "g" };
static const std::vector<std::string> instruction_names = { "X", "H", "CNOT", "Rx", "Rn", "CRk", "reset", "barrier", "init", "wait", "measure" };
static const std::vector<std::string> operands = { "zq", "zp", "zv", "zb", "zw", "zu", "7", "true", "0.5" };
static char kind_of(const std::string& o) {
    return o == "zq" || o == "zp" ? 'Q' : o == "zv" || o == "zu" ? 'V' : o == "zb" ? 'B' : o == "zw" ? 'W' : o == "7" ? 'i' : o == "true" ? 'b' : 'f';
}
static std::size_t qubits_of(const std::string& o) {
    return o == "zq" || o == "zp" ? 1 : o == "zv" ? 2 : o == "zu" ? 3 : 0;
}
static std::size_t bits_of(const std::string& o) {
    return o == "zb" ? 1 : o == "zw" ? 2 : 0;
}
static std::string written(const std::string& o, char to) {
    if (o == "zq" || o == "zp") {
        return o + ":qubit";
    }
    if (o == "zv" || o == "zu") {
        return o + (o == "zv" ? ":qubit[2]" : ":qubit[3]");
    }
    if (o == "zb") {
        return "zb:bit";
    }
    if (o == "zw") {
        return "zw:bit[2]";
    }
    return show(promoted(o == "7" ? Const{ 'i', 7, 0 } : o == "true" ? Const{ 'b', 1, 0 } : Const{ 'f', 0, 0.5 }, to));
}
static const std::string declarations = "version 3.0\nqubit zq\nqubit zp\nqubit[2] zv\nqubit[3] zu\nbit zb\nbit[2] zw\n";

static Pair make(Src& s, std::string& log) {
    Pair p;
    auto base = s.draw(4);
    if (base == 0) {
        p.a = std::make_unique<Analyzer>(lib::v3::default_analyzer());
        p.m.default_constants = p.m.default_functions = p.m.default_instructions = true;
        log += "default analyzer\n";
    } else {
        p.a = std::make_unique<Analyzer>();
        p.m.default_constants = s.flip();
        p.m.default_functions = s.flip();
        p.m.default_instructions = s.flip();
        if (p.m.default_constants) {
            p.a->register_default_constants();
        }
        if (p.m.default_functions) {
            p.a->register_default_functions();
        }
        if (p.m.default_instructions) {
            p.a->register_default_instructions();
        }
        log += std::string{ "analyzer with" } + (p.m.default_constants ? " constants" : "") + (p.m.default_functions ? " functions" : "") + (p.m.default_instructions ? " instructions" : "") + "\n";
    }
    auto& g = p.m.scopes[0];
    if (p.m.default_constants) {
        g.constants = { { "true", { 'b', 1, 0 } }, { "false", { 'b', 0, 0 } }, { "pi", { 'f', 0, 3.14159265358979323846 } }, { "eu", { 'f', 0, 2.71828182845904523536 } }, { "tau", { 'f', 0, 6.28318530717958647693 } } };
    }
    if (p.m.default_instructions) {
        for (auto& f : oracle::gates()) {
            for (auto t : f.qubits == 1 ? std::vector<std::string>{ "Q", "V" } : std::vector<std::string>{ "QQ", "QV", "VQ", "VV" }) {
                g.forms.push_back({ f.name, t });
            }
        }
        for (std::string n : { "reset", "init", "barrier", "wait" }) {
            g.forms.push_back({ n, "Q" });
            g.forms.push_back({ n, "V" });
        }
        for (auto t : { "BQ", "BV", "WQ", "WV" }) {
            g.forms.push_back({ "measure", t });
        }
    } else {  // the values of constants and calls are seen as parameters of these
        for (auto [n, t] : { std::pair{ "Rx", "Q" }, std::pair{ "CRk", "QQ" } }) {
            p.a->register_instruction(n, t);
            g.forms.push_back({ n, t });
        }
    }
    return p;
}

static const Const* find_constant(const Model& m, const std::string& n) {
    for (auto s = m.scopes.rbegin(); s != m.scopes.rend(); ++s) {
        if (auto it = s->constants.find(n); it != s->constants.end()) {
            return &it->second;
        }
    }
    return nullptr;
}
static const std::string* find_form(const Model& m, const std::string& n, const std::vector<std::string>& os) {
    for (auto s = m.scopes.rbegin(); s != m.scopes.rend(); ++s) {
        for (auto f = s->forms.rbegin(); f != s->forms.rend(); ++f) {
            bool ok = f->first == n && f->second.size() == os.size();
            for (std::size_t i = 0; ok && i < os.size(); ++i) {
                ok = fits(kind_of(os[i]), f->second[i]);
            }
            if (ok) {
                return &f->second;
            }
        }
    }
    return nullptr;
}
static const Function* find_function(const Model& m, const std::string& n, const std::vector<Const>& args) {
    for (auto f = m.functions.rbegin(); f != m.functions.rend(); ++f) {
        bool ok = f->name == n && f->kinds.size() == args.size();
        for (std::size_t i = 0; ok && i < args.size(); ++i) {
            ok = fits(args[i].kind, f->kinds[i]);
        }
        if (ok) {
            return &*f;
        }
    }
    return nullptr;
}

static void change(Src& s, Pair& p, int& tag, std::string& log) {
    switch (s.weighted({ 4, 4, 5, 2, 2 })) {
        case 0: {
            auto n = s.pick(constant_names);
            auto c = constant(s);
            auto& scope = p.m.scopes.back();
            log += "constant " + n + " = " + show(c);
            bool want = !scope.constants.contains(n), got = true;
            try {
                p.a->register_variable(n, value(c));
            } catch (const cqasm::error::AnalysisError& e) {
                got = false;
                PBT_CHECK(std::string{ e.what() }.find("'" + n + "'") != std::string::npos, "the refusal does not state the name: " << e.what());
            }
            PBT_CHECK(got == want, (want ? "refused" : "taken twice") << ":\n" << log);
            if (want) {
                scope.constants[n] = c;
                p.constants.push_back(n);
            }
            log += want ? "\n" : " (refused)\n";
            break;
        }
        case 1: {
            Function f{ s.pick(function_names), "", ++tag };
            for (auto n = s.chance(1, 10) ? 4 + s.draw(30) : s.draw(4); n > 0; --n) {
                f.kinds += s.pick(std::string{ "bif" });
            }
            log += "function " + f.name + "(" + f.kinds + ") #" + std::to_string(tag) + "\n";
            auto fn = [t = tag](const lib::val::Values& vs) -> lib::val::Value {
                std::vector<std::string> args;
                for (auto& v : vs) {
                    args.push_back(lib::value(*v));
                }
                return ct::make<lib::val::ConstInt>(digest(t, args));
            };
            if (s.flip()) {
                p.a->register_consteval_core_function(f.name, f.kinds, fn);
            } else {
                p.a->register_consteval_core_function(f.name, lib::typ::from_spec(f.kinds), fn);
            }
            p.m.functions.push_back(f);
            p.functions.push_back({ f.name, f.kinds });
            break;
        }
        case 2: {
            auto n = s.pick(instruction_names);
            std::string t;
            for (auto k = n == "measure" ? 2 : n == "reset" || n == "init" || n == "barrier" || n == "wait" ? 1 : s.chance(1, 10) ? 4 + s.draw(40) : 1 + s.draw(3); k > 0; --k) {
                t += s.pick(t.size() < 3 ? std::string{ "QVBWbif" } : std::string{ t[0], t[0], t[0], t[1], 'i' });
            }
            log += "instruction " + n + " " + t + "\n";
            if (s.flip()) {
                p.a->register_instruction(n, t);
            } else {
                p.a->register_instruction(lib::v3::instruction::Instruction{ n, t });
            }
            p.m.scopes.back().forms.push_back({ n, t });
            p.forms.push_back({ n, t });
            break;
        }
        case 3:
            for (auto n = s.chance(1, 8) ? 2 + s.draw(40) : 1; n > 0; --n) {
                p.a->push_scope();
                p.m.scopes.push_back({});
                log += "push_scope\n";
            }
            break;
        default:
            if (p.m.scopes.size() > 1) {
                p.a->pop_scope();
                p.m.scopes.pop_back();
                log += "pop_scope\n";
            }
    }
}

// What a program sees of it. Returns whether it was accepted.
static lib::Analysed program(Pair& p, const std::string& statement, std::string& log, const std::string& before = declarations) {
    log += "> " + statement + "\n";
    return lib::take(p.a->analyze_string(before + statement + "\n", std::nullopt));
}
static std::string last_line(const lib::Analysed& a) {
    auto t = *a.tree;
    t.pop_back();
    return t.substr(t.rfind('\n') + 1);
}
static bool ask(Src& s, Pair& p, std::string& log) {
    for (auto& scope : p.m.scopes) {  // the declarations are no use then
        if (&scope == &p.m.scopes.back() && scope.constants.contains("zq")) {
            auto a = program(p, "", log);
            PBT_CHECK(!a.tree && a.errors.size() == 1 && a.errors[0].message.find("'zq'") != std::string::npos, "the name of a registered constant can be declared again:\n" << log << lib::outcome(a));
            return false;
        }
    }
    switch (s.draw(4)) {
        case 0: {
            auto n = !p.constants.empty() && s.flip() ? s.pick(p.constants) : s.pick(constant_names);
            auto* c = n == "zq" ? nullptr : find_constant(p.m, n);
            auto* registered = c;
            bool keyword = n == "true" || n == "false";  // a literal, whatever is registered
            Const lit{ 'b', n == "true", 0 };
            if (keyword) {
                c = &lit;
            }
            auto a = program(p, "Rx(" + n + ") zp", log), b = program(p, "CRk(" + n + ") zp, zp", log);
            if (!c) {
                PBT_CHECK(!a.tree && !b.tree, "a name that is not registered is found:\n" << log << lib::outcome(a));
            } else {
                PBT_CHECK(a.tree, "not found:\n" << log << lib::outcome(a));
                auto want = "Rx(" + show(promoted(*c, 'f')) + ") (zp:qubit)";
                auto got = last_line(a);
                PBT_CHECK(got.size() >= want.size() && got.compare(got.size() - want.size(), want.size(), want) == 0, got << " instead of " << want << ":\n" << log);
                PBT_CHECK(b.tree.has_value() == (c->kind != 'f'), "its kind is another one:\n" << log << lib::outcome(b));
                if (b.tree) {
                    PBT_CHECK(last_line(b).find("CRk(int " + std::to_string(c->i) + ") ") != std::string::npos, last_line(b) << " for\n" << log);
                }
            }
            if (n != "zq") {
                std::string direct;
                try {
                    direct = lib::value(*p.a->resolve_variable(n));
                } catch (const cqasm::error::AnalysisError&) {
                }
                PBT_CHECK(direct == (registered ? show(*registered) : ""), "resolve_variable gives " << quote(direct) << " for " << n << ":\n" << log);
            }
            return c;
        }
        case 1: {
            auto n = s.pick(function_names);
            std::vector<Const> args;
            std::optional<std::string> kinds;
            if (!p.functions.empty() && s.flip()) {  // one of those registered, with arguments that fit
                auto& f = s.pick(p.functions);
                auto k = f.second.size();
                if (f.first.rfind("operator", 0) != 0 || (k == 2 && f.first != "operator!") || (k == 1 && (f.first == "operator!" || f.first == "operator-"))) {
                    n = f.first;
                    kinds = f.second;
                }
            }
            bool op = n.rfind("operator", 0) == 0;
            auto count = kinds ? kinds->size() : op ? n == "operator!" ? 1 : n == "operator-" ? 1 + s.draw(2) : 2 : s.draw(4);
            for (std::size_t i = 0; i < count; ++i) {
                args.push_back(constant(s));
                while (kinds && !fits(args[i].kind, (*kinds)[i])) {
                    args[i] = (*kinds)[i] == 'b' ? Const{ 'b', static_cast<std::int64_t>(s.draw(2)), 0 } : Const{ 'i', static_cast<std::int64_t>(s.draw(2000)), 0 };
                }
            }
            std::string call;
            if (op) {
                auto o = n.substr(8);
                call = count == 1 ? o + " " + literal(args[0]) : literal(args[0]) + " " + o + " " + literal(args[1]);
            } else {
                for (auto& x : args) {
                    call += (call.empty() ? n + "(" : ", ") + literal(x);
                }
                call = call.empty() ? n + "()" : call + ")";
            }
            auto* f = find_function(p.m, n, args);
            auto a = program(p, "CRk(" + call + ") zp, zp", log), b = program(p, "Rx(" + call + ") zp", log);
            if (f) {
                std::vector<std::string> given;
                for (std::size_t i = 0; i < args.size(); ++i) {
                    given.push_back(show(promoted(args[i], f->kinds[i])));
                }
                auto want = "CRk(int " + std::to_string(digest(f->tag, given)) + ") ";
                PBT_CHECK(a.tree, "rejected:\n" << log << lib::outcome(a));
                PBT_CHECK(last_line(a).find(want) != std::string::npos, last_line(a) << "\ninstead of " << want << " (#" << f->tag << ")\n" << log);
                PBT_CHECK(b.tree, "rejected:\n" << log << lib::outcome(b));
                lib::val::Values vs;
                for (auto& x : args) {
                    vs.add(value(x));
                }
                PBT_CHECK(lib::value(*p.a->resolve_function(n, vs)) == "int " + std::to_string(digest(f->tag, given)), "resolve_function gives " << lib::value(*p.a->resolve_function(n, vs)) << "\n" << log);
            } else if (!p.m.default_functions) {
                PBT_CHECK(!a.tree && !b.tree, "a function that was not registered like that is called:\n" << log << lib::outcome(b));
            } else {  // the predefined one
                auto fresh = lib::v3::default_analyzer();
                auto want = lib::take(fresh.analyze_string("version 3.0\nqubit zp\nRx(" + call + ") zp\n", std::nullopt));
                PBT_CHECK(want.tree.has_value() == b.tree.has_value() && (!b.tree || last_line(want) == last_line(b)), "a predefined function: " << lib::outcome(b) << " instead of " << lib::outcome(want) << "\n" << log);
            }
            return f;
        }
        case 2: {
            auto n = s.pick(instruction_names);
            std::string ever;
            if (!p.forms.empty() && s.flip()) {
                std::tie(n, ever) = s.pick(p.forms);
            }
            std::vector<std::string> os;
            auto count = n == "measure" ? 2 : n == "reset" || n == "init" || n == "barrier" || n == "wait" ? 1 : 1 + s.draw(3);
            // mostly one of the forms that there are
            std::vector<std::string> there;
            for (auto& scope : p.m.scopes) {
                for (auto& f : scope.forms) {
                    if (f.first == n) {
                        there.push_back(f.second);
                    }
                }
            }
            if (!ever.empty() || (!there.empty() && s.chance(3, 4))) {
                for (char k : ever.empty() ? s.pick(there) : ever) {
                    std::vector<std::string> of;
                    for (auto& o : operands) {
                        if (fits(kind_of(o), k)) {
                            of.push_back(o);
                        }
                    }
                    os.push_back(s.pick(of));
                }
            } else {
                for (std::size_t i = 0; i < count; ++i) {
                    os.push_back(s.pick(operands));
                }
            }
            bool measure = n == "measure";
            if (measure && (os[0][0] != 'z')) {
                os[0] = "zb";  // only a name may stand there
            }
            std::string text, params;
            if (n == "Rx") {
                params = "real " + lib::hex(1.0);
                text = "Rx(1.0) ";
            } else if (n == "Rn") {
                params = "real " + lib::hex(1.0) + " real " + lib::hex(0.0) + " real " + lib::hex(0.0) + " real " + lib::hex(1.0) + " real " + lib::hex(0.0);
                text = "Rn(1, 0, 0, 1, 0) ";
            } else if (n == "CRk") {
                params = "int 2";
                text = "CRk(2) ";
            } else if (n == "wait") {
                params = "int 5";
                text = "wait(5) ";
            } else {
                text = n + " ";
            }
            if (measure) {
                text = os[0] + " = measure " + os[1];
            } else {
                for (std::size_t i = 0; i < os.size(); ++i) {
                    text += (i ? ", " : "") + os[i];
                }
            }
            auto* form = find_form(p.m, n, os);
            bool want = form;
            std::size_t qubits = 0, bits = 0, width = 0;
            bool equal = true;
            for (auto& o : os) {
                auto q = qubits_of(o);
                qubits += q;
                bits += bits_of(o);
                if (q) {
                    equal = equal && (!width || width == q);
                    width = q;
                }
            }
            bool other = measure || n == "reset" || n == "init" || n == "barrier" || n == "wait";
            want = want && (measure ? qubits == bits : other || equal);
            auto a = program(p, text, log);
            PBT_CHECK(a.tree.has_value() == want, (want ? "a registered form is rejected:\n" : "accepted without being registered:\n") << log << lib::outcome(a));
            if (want) {
                std::string args;
                for (std::size_t i = 0; i < os.size(); ++i) {
                    args += (i ? " " : "") + written(os[i], (*form)[i]);
                }
                auto line = std::string{ other ? "do " : "gate " } + n + ":" + *form + " " + n + "(" + params + ") (" + args + ")";
                PBT_CHECK(last_line(a) == line, last_line(a) << "\ninstead of\n" << line << "\n" << log);
            }
            return want;
        }
        default: {  // a variable with the name of a constant: refused in its scope, hiding it in an inner one
            auto n = s.pick(constant_names);
            if (n == "true" || n == "false" || n == "zq") {
                n = "k";
            }
            bool want = !p.m.scopes.back().constants.contains(n);
            auto a = program(p, "qubit[7] " + n, log);
            PBT_CHECK(a.tree.has_value() == want, (want ? "a new name is refused:\n" : "a registered name is declared again:\n") << log << lib::outcome(a));
            if (want) {
                auto b = program(p, "qubit " + n + "; Rx(1) " + n, log);
                PBT_CHECK(b.tree && last_line(b).find("(" + n + ":qubit)") != std::string::npos, "a declared variable is not the one that is used:\n" << log << lib::outcome(b));
            }
            return true;
        }
    }
}

int main(int argc, char** argv) {
    auto history = [](Src& s, Case& c) {
        std::vector<Pair> all;
        std::string log;
        all.push_back(make(s, log));
        int tag = 0, found = 0;
        for (auto n = 4 + s.length(30); n > 0; --n) {
            auto k = s.index(all.size());
            auto& p = all[k];
            auto start = log.size();
            switch (s.weighted({ 8, 8, 1, 1, 1 })) {
                case 0:
                    change(s, p, tag, log);
                    for (auto& other : all) {  // to be asked for there, too, where it must not be found
                        other.forms = p.forms;
                        other.functions = p.functions;
                        other.constants = p.constants;
                    }
                    break;
                case 1: found += ask(s, p, log); break;
                case 2:
                    if (all.size() < 4) {
                        log += "copy it:\n";
                        Pair q{ std::make_unique<Analyzer>(*p.a), p.m, p.forms, p.functions, p.constants };
                        all.push_back(std::move(q));
                    }
                    break;
                case 3: {  // one takes over what another has, or only changes its place
                    auto j = s.index(all.size());
                    auto how = s.draw(4);
                    log += (how < 2 ? "assign it to [" + std::to_string(j) + "]" : how == 2 ? "assign a copy of it to [" + std::to_string(j) + "]" : std::string{ "move it" }) + "\n";
                    if (how == 3) {
                        p.a = std::make_unique<Analyzer>(std::move(*p.a));
                        break;
                    }
                    if (how == 2) {
                        *all[j].a = Analyzer{ *p.a };
                    } else {
                        *all[j].a = *p.a;
                    }
                    all[j].m = Model{ p.m };
                    break;
                }
                default:
                    if (all.size() < 4) {
                        log += "another one: ";
                        all.push_back(make(s, log));
                    }
            }
            if (log.size() > start && all.size() > 1) {
                log.insert(start, "[" + std::to_string(k) + "] ");
            }
            c.show = log;
        }
        c.nontrivial = found >= 2;
        c.label(found ? found > 3 ? "several found" : "some found" : "none found");
    };
    // Registering with the Python wrapper is registering with its analyzer.
    auto wrapper = [](Src& s, Case& c) {
        bool without = s.flip();
        V3xAnalyzer w{ "3.0", without };
        std::string log = without ? "V3xAnalyzer without instructions\n" : "V3xAnalyzer\n";
        Pair p;
        p.a = std::make_unique<Analyzer>();
        p.a->register_default_constants();
        p.a->register_default_functions();
        if (!without) {
            p.a->register_default_instructions();
        }
        bool any = false;
        for (auto n = 1 + s.length(6); n > 0; --n) {
            auto name = s.pick(instruction_names);
            if (s.flip()) {
                std::string t;
                for (auto k = 1 + s.draw(2); k > 0; --k) {
                    t += s.pick(std::string{ "QVBWif" });
                }
                w.register_instruction(name, t);
                p.a->register_instruction(name, t);
                log += "instruction " + name + " " + t + "\n";
            } else {
                auto text = declarations + (name == "measure" ? s.pick(operands) + " = measure " : name == "Rx" || name == "CRk" || name == "wait" ? name + s.pick({ std::string{ "(2) " }, std::string{ "(1 + 1) " }, std::string{ "(abs(-3)) " }, std::string{ "(true ? 4 : 5) " }, std::string{ "(cos(pi)) " } }) : name + " ") + s.pick(operands) + (s.chance(1, 4) ? ", " + s.pick(operands) : "") + "\n";
                log += "> " + text.substr(declarations.size());
                auto got = w.analyze_string(text, "");
                auto want = p.a->analyze_string(text, std::nullopt).to_strings();
                any = any || want.size() == 1;
                PBT_CHECK(got == want, "the wrapped analyzer has another outcome:\n" << log);
            }
            c.show = log;
        }
        c.nontrivial = any;
    };
    // A gate with a name of its own. Known finding: the names that programs can use are those of the catalogue, whatever
    // is registered. Exactly that outcome is let through.
    auto own = [](Src& s, Case& c) {
        auto a = lib::v3::default_analyzer();
        auto n = s.pick({ std::string{ "foo" }, std::string{ "x" }, std::string{ "CCX" }, std::string{ "Rzz" }, std::string{ "myGate" } });
        a.register_instruction(n, "Q");
        auto text = "version 3.0\nqubit q\n" + n + " q\n";
        c.show = text;
        c.nontrivial = true;
        auto r = lib::take(a.analyze_string(text, std::nullopt));
        if (r.tree) {
            PBT_CHECK(last_line(r) == "gate " + n + ":Q " + n + "() (q:qubit)", last_line(r) << " for a registered gate");
            c.label("usable");
        } else {
            PBT_CHECK(r.errors.size() == 1 && r.errors[0].message == "couldn't find instruction '" + n + "'", "a registered gate: " << lib::show(r.errors));
            c.label("known finding: not usable");
        }
    };
    return run(argc, argv, "C31", "histories of registrations, scopes, copies and programs; non-trivial: at least two uses of something registered were found",
        { { "history", history, 12000, 150000 }, { "python wrapper", wrapper, 800, 20000 }, { "names of one's own", own, 50, 100 } });
}
