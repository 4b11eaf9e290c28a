// Reference semantics for the model's programs, written from the language's documentation, and the way both it and the
// library's trees are written down for comparison.
#pragma once

#include <charconv>
#include <cmath>

#include "model.hpp"

namespace oracle {
using namespace model;

inline std::string hex(double d) {
    if (std::isnan(d)) {
        return "nan";
    }
    char b[64];
    std::snprintf(b, sizeof b, "%a", d);
    std::string r;
    for (const char* p = b; *p; ++p) {  // whatever the locale's decimal separator is, a point
        if (std::strchr("0123456789abcdefinpx+-", *p)) {
            r += *p;
        } else if (r.empty() || r.back() != '.') {
            r += '.';
        }
    }
    return r;
}

// ------------------------------------------------------------------------------------------------- syntax, written ---

struct Form {
    bool locations = false;
    std::optional<std::string> file = std::nullopt;  // the name every location is to have, if it matters
    [[nodiscard]] std::string at(const Span& s) const { return locations ? show(s) : ""; }
};

inline std::int64_t int_of(const std::string& digits) {  // in range by construction
    std::uint64_t v = 0;
    for (char c : digits) {
        v = v * 10 + static_cast<std::uint64_t>(c - '0');
    }
    return static_cast<std::int64_t>(v);
}
inline bool int_in_range(const std::string& digits) {
    unsigned __int128 v = 0;
    for (char c : digits) {
        v = v * 10 + static_cast<unsigned>(c - '0');
        if (v > static_cast<unsigned __int128>(INT64_MAX)) {
            return false;
        }
    }
    return true;
}
inline double real_of(const std::string& t) {
    return std::strtod(t.c_str(), nullptr);
}

inline std::string syn(const E& e, const Form& f);
inline std::string syn(const std::vector<E>& l, const Form& f) {
    std::string r = "(";
    for (auto& e : l) {
        r += (r.size() > 1 ? " " : "") + syn(e, f);
    }
    return r + ")";
}
inline std::string syn(const E& e, const Form& f) {
    switch (e->kind) {
        case Expr::boolean: return "bool:" + e->text + f.at(e->at);
        case Expr::integer: return "int:" + std::to_string(int_of(e->text)) + f.at(e->at);
        case Expr::real: return "real:" + hex(real_of(e->text)) + f.at(e->at);
        case Expr::name: return "name:" + e->text + f.at(e->at);
        case Expr::index: {
            std::string r = "index:" + e->text + f.at(e->at) + "[";
            for (auto& x : e->entries) {
                r += (r.back() == '[' ? "" : " ") + syn(x.first, f) + (x.last ? ".." + syn(x.last, f) : "");
            }
            return r + "]";
        }
        case Expr::call: return "call:" + e->text + f.at(e->at) + syn(e->args, f);
        case Expr::unary:
            if (e->text == "+") {
                return syn(e->args[0], f);
            }
            return "(" + e->text + f.at(e->at) + " " + syn(e->args[0], f) + ")";
        case Expr::binary:
            return "(" + e->text + f.at(e->at) + " " + syn(e->args[0], f) + " " + syn(e->args[1], f) + ")";
        case Expr::ternary:
            return "(?" + f.at(e->at) + " " + syn(e->args[0], f) + " " + syn(e->args[1], f) + " " + syn(e->args[2], f) + ")";
    }
    return "?";
}
inline std::string syn(const G& g, const Form& f) {
    return g->name + f.at(g->at) + syn(g->params, f) + (g->inner ? "." + syn(g->inner, f) : "");
}
inline std::string syn(const S& s, const Form& f) {
    switch (s->kind) {
        case Stmt::variable:
            return "variable " + s->word + (s->size.empty() ? "" : "[" + std::to_string(int_of(s->size)) + "]") +
                f.at(s->type_at) + " " + s->name + f.at(s->at);
        case Stmt::gate: return "gate" + f.at(s->g->at) + " " + syn(s->g, f) + " " + syn(s->operands, f);
        case Stmt::measure: return "do measure" + f.at(s->at) + syn(s->params, f) + " " + syn(s->operands, f);
        case Stmt::simple: return "do " + s->word + f.at(s->at) + "() " + syn(s->operands, f);
        case Stmt::wait: return "do wait" + f.at(s->at) + syn(s->params, f) + " " + syn(s->operands, f);
        case Stmt::assembly: return "asm " + s->word + " " + pbt::quote(s->name);
    }
    return "?";
}
inline std::string version_text(const std::string& v) {  // digits and at most one dot; leading zeros do not count
    std::string r;
    std::size_t i = 0;
    while (i < v.size()) {
        auto j = v.find('.', i);
        if (j == std::string::npos) {
            j = v.size();
        }
        r += (i ? "." : "") + std::to_string(int_of(v.substr(i, j - i)));
        i = j + 1;
    }
    return r;
}
inline std::string syn(const Program& p, const Form& f) {
    std::string r = "version " + version_text(p.version) + f.at(p.version_at) + "\n";
    for (auto& s : p.stmts) {
        r += syn(s, f) + "\n";
    }
    return r;
}

// --------------------------------------------------------------------------------------------------------- meaning ---

struct Var {
    std::string name;
    bool qubit = true;
    bool array = false;
    std::int64_t size = 1;
};
struct Val {
    enum Kind { b, i, f, var, idx } k = b;
    bool bv = false;
    std::int64_t iv = 0;
    double fv = 0;
    std::shared_ptr<Var> v;
    std::vector<std::int64_t> indices;
    bool rough = false;  // went through a function whose last bits the standard does not fix
};
inline Val mk(bool x) {
    Val v;
    v.k = Val::b;
    v.bv = x;
    return v;
}
inline Val mk(std::int64_t x) {
    Val v;
    v.k = Val::i;
    v.iv = x;
    return v;
}
inline Val mk(double x) {
    Val v;
    v.k = Val::f;
    v.fv = x;
    return v;
}
inline bool constant(const Val& v) {
    return v.k <= Val::f;
}
inline double as_f(const Val& v) {
    return v.k == Val::f ? v.fv : v.k == Val::i ? static_cast<double>(v.iv) : v.bv ? 1.0 : 0.0;
}
inline std::int64_t as_i(const Val& v) {
    return v.k == Val::i ? v.iv : v.bv ? 1 : 0;
}

struct Fault {
    std::string what;  // a word for the kind of fault
    Span at;           // where the library is to report it; not set: nowhere more precise than its statement
    bool exact = true; // whether the place is fixed by what the user can expect (otherwise: in the statement)
};

struct World {
    std::map<std::string, Val> names;
    std::vector<std::shared_ptr<Var>> vars;
    World() {
        names["true"] = mk(true);
        names["false"] = mk(false);
        names["pi"] = mk(3.14159265358979323846);
        names["eu"] = mk(2.71828182845904523536);
        names["tau"] = mk(6.28318530717958647692);
    }
};

inline std::int64_t wrap(std::uint64_t x) {
    return static_cast<std::int64_t>(x);
}

inline double power(double a, double b) {
    return std::pow(a, b);
}

// Division truncates toward zero, the remainder has the sign of the dividend.
inline Val apply_int(const std::string& op, std::int64_t a, std::int64_t b, const Span& at) {
    auto ua = static_cast<std::uint64_t>(a), ub = static_cast<std::uint64_t>(b);
    if (op == "+") return mk(wrap(ua + ub));
    if (op == "-") return mk(wrap(ua - ub));
    if (op == "*") return mk(wrap(ua * ub));
    if (op == "/" || op == "%") {
        if (b == 0) {
            throw Fault{ "division by zero", at };
        }
        __int128 x = a, y = b;
        __int128 q = x / y;
        if (q > INT64_MAX) {
            throw Fault{ "division overflow", at };
        }
        return op == "/" ? mk(static_cast<std::int64_t>(q)) : mk(static_cast<std::int64_t>(x - q * y));
    }
    if (op == "<<" || op == ">>") {
        if (b < 0 || b > 63) {
            throw Fault{ "shift count", at };
        }
        if (op == "<<") {
            std::uint64_t r = ua;
            for (std::int64_t k = 0; k < b; ++k) {
                r *= 2;
            }
            return mk(wrap(r));
        }
        __int128 r = a;  // floor division by a power of two
        for (std::int64_t k = 0; k < b; ++k) {
            r = (r - (r % 2 != 0 && r < 0 ? 1 : 0)) / 2;
        }
        return mk(static_cast<std::int64_t>(r));
    }
    std::uint64_t r = 0;
    for (int k = 0; k < 64; ++k) {
        bool x = ua >> k & 1, y = ub >> k & 1;
        bool z = op == "&" ? x && y : op == "|" ? x || y : x != y;
        r |= static_cast<std::uint64_t>(z) << k;
    }
    return mk(wrap(r));
}

template <class T>
bool compare(const std::string& op, T a, T b) {
    return op == "<" ? a < b : op == ">" ? a > b : op == "<=" ? a <= b : op == ">=" ? a >= b : op == "==" ? a == b : a != b;
}

inline Val unary(const std::string& op, const Val& a, const Span& at) {
    Fault none{ "no such operation", at };
    if (!constant(a)) {
        throw none;
    }
    Val r;
    if (op == "-") {
        r = a.k == Val::f ? mk(-a.fv) : mk(wrap(0 - static_cast<std::uint64_t>(as_i(a))));
    } else if (op == "~") {
        if (a.k == Val::f) {
            throw none;
        }
        r = mk(-1 - as_i(a) + 0);
    } else {
        if (a.k != Val::b) {
            throw none;
        }
        r = mk(!a.bv);
    }
    r.rough = a.rough;
    return r;
}
inline Val binary(const std::string& op, const Val& a, const Val& b, const Span& at) {
    Fault none{ "no such operation", at };
    if (!constant(a) || !constant(b)) {
        throw none;
    }
    bool ff = a.k == Val::f || b.k == Val::f;
    bool bb = a.k == Val::b && b.k == Val::b;
    Val r;
    if (op == "**") {
        r = mk(power(as_f(a), as_f(b)));
        r.rough = true;
    } else if (op == "+" || op == "-" || op == "*" || op == "/") {
        if (ff) {
            double x = as_f(a), y = as_f(b);
            r = mk(op == "+" ? x + y : op == "-" ? x - y : op == "*" ? x * y : x / y);
        } else {
            r = apply_int(op, as_i(a), as_i(b), at);
        }
    } else if (op == "%" || op == "<<" || op == ">>" || op == "&" || op == "|" || op == "^") {
        if (ff) {
            throw none;
        }
        r = apply_int(op, as_i(a), as_i(b), at);
    } else if (op == "&&" || op == "||" || op == "^^") {
        if (!bb) {
            throw none;
        }
        r = mk(op == "&&" ? a.bv && b.bv : op == "||" ? a.bv || b.bv : a.bv != b.bv);
    } else {
        r = mk(bb ? compare<int>(op, a.bv, b.bv) : ff ? compare(op, as_f(a), as_f(b)) : compare(op, as_i(a), as_i(b)));
    }
    r.rough = r.rough || a.rough || b.rough;
    return r;
}
inline const std::map<std::string, double (*)(double)>& real_functions() {
    static const std::map<std::string, double (*)(double)> m = { { "sqrt", std::sqrt }, { "exp", std::exp },
        { "log", std::log }, { "sin", std::sin }, { "cos", std::cos }, { "tan", std::tan }, { "sinh", std::sinh },
        { "cosh", std::cosh }, { "tanh", std::tanh }, { "asin", std::asin }, { "acos", std::acos }, { "atan", std::atan },
        { "asinh", std::asinh }, { "acosh", std::acosh }, { "atanh", std::atanh } };
    return m;
}
inline Val call(const std::string& name, const std::vector<Val>& args, const Span& at) {
    Fault none{ "no such function", at };
    for (auto& a : args) {
        if (!constant(a)) {
            throw none;
        }
    }
    if (name == "abs" && args.size() == 1) {
        auto& a = args[0];
        Val r = a.k == Val::f ? mk(std::fabs(a.fv)) :
            mk(wrap(as_i(a) < 0 ? 0 - static_cast<std::uint64_t>(as_i(a)) : static_cast<std::uint64_t>(as_i(a))));
        r.rough = a.rough;
        return r;
    }
    auto f = real_functions().find(name);
    if (f == real_functions().end() || args.size() != 1) {
        throw none;
    }
    auto r = mk(f->second(as_f(args[0])));
    r.rough = name != "sqrt" || args[0].rough;
    return r;
}

inline Val eval(const World& w, const E& e);

inline std::int64_t eval_index(const World& w, const E& e, const Span& owner) {
    try {
        auto v = eval(w, e);
        if (v.k == Val::i || v.k == Val::b) {
            return as_i(v);
        }
    } catch (Fault& f) {
        f.exact = false;
        throw;
    }
    throw Fault{ "index is no integer", e->at, false };
}

inline constexpr std::int64_t too_many = 1 << 20;

inline Val eval(const World& w, const E& e) {
    switch (e->kind) {
        case Expr::boolean: return mk(e->text == "true");
        case Expr::integer: return mk(int_of(e->text));
        case Expr::real: return mk(real_of(e->text));
        case Expr::name: {
            auto it = w.names.find(e->text);
            if (it == w.names.end()) {
                throw Fault{ "no such name", e->at };
            }
            return it->second;
        }
        case Expr::index: {
            auto it = w.names.find(e->text);
            if (it == w.names.end()) {
                throw Fault{ "no such name", e->at };
            }
            if (it->second.k != Val::var || !it->second.v->array) {
                throw Fault{ "not indexable", e->at };
            }
            auto& var = it->second.v;
            Val r;
            r.k = Val::idx;
            r.v = var;
            bool outside = false;
            for (auto& x : e->entries) {
                auto first = eval_index(w, x.first, e->at);
                auto last = first;
                if (x.last) {
                    last = eval_index(w, x.last, e->at);
                    if (first > last) {
                        throw Fault{ "inverted range", e->at };
                    }
                }
                if (first < 0 || last >= var->size) {
                    outside = true;
                    continue;
                }
                for (auto k = first; k <= last; ++k) {
                    r.indices.push_back(k);
                }
            }
            if (outside) {
                throw Fault{ "index out of range", e->at };
            }
            return r;
        }
        case Expr::call: {
            std::vector<Val> args;
            for (auto& a : e->args) {
                args.push_back(eval(w, a));
            }
            return call(e->text, args, e->at);
        }
        case Expr::unary:
            if (e->text == "+") {
                return eval(w, e->args[0]);
            }
            return unary(e->text, eval(w, e->args[0]), e->at);
        case Expr::binary: {
            auto a = eval(w, e->args[0]);
            auto b = eval(w, e->args[1]);
            return binary(e->text, a, b, e->at);
        }
        case Expr::ternary: {
            auto c = eval(w, e->args[0]);
            auto a = eval(w, e->args[1]);
            auto b = eval(w, e->args[2]);
            if (!constant(a) || !constant(b) || c.k != Val::b) {
                throw Fault{ "no such operation", e->at };
            }
            Val r;
            if (a.k == Val::f || b.k == Val::f) {
                r = mk(c.bv ? as_f(a) : as_f(b));
            } else if (a.k == Val::i || b.k == Val::i) {
                r = mk(c.bv ? as_i(a) : as_i(b));
            } else {
                r = mk(c.bv ? a.bv : b.bv);
            }
            r.rough = c.rough || (c.bv ? a.rough : b.rough);
            return r;
        }
    }
    throw Fault{ "?", e->at };
}

// The node whose location the value of an expression takes.
inline const Span& place(const E& e) {
    return e->kind == Expr::unary && e->text == "+" ? place(e->args[0]) : e->at;
}

inline std::string type_name(const Var& v) {
    return std::string{ v.qubit ? "qubit" : "bit" } + (v.array ? "[" + std::to_string(v.size) + "]" : "");
}
inline std::string sem(const Val& v) {
    switch (v.k) {
        case Val::b: return v.bv ? "true" : "false";
        case Val::i: return "int " + std::to_string(v.iv);
        case Val::f: return "real " + hex(v.fv);
        case Val::var: return v.v->name + ":" + type_name(*v.v);
        case Val::idx: {
            std::string r = v.v->name + ":" + type_name(*v.v) + "{";
            for (auto i : v.indices) {
                r += (r.back() == '{' ? "" : ",") + std::to_string(i);
            }
            return r + "}";
        }
    }
    return "?";
}

struct Param {
    const char* types;  // f, i
};
struct GateForm {
    const char* name;
    const char* params;
    int qubits;
};
// The documented gates.
inline const std::vector<GateForm>& gates() {
    static const std::vector<GateForm> g = { { "H", "", 1 }, { "I", "", 1 }, { "X", "", 1 }, { "X90", "", 1 },
        { "mX90", "", 1 }, { "Y", "", 1 }, { "Y90", "", 1 }, { "mY90", "", 1 }, { "Z", "", 1 }, { "Z90", "", 1 },
        { "mZ90", "", 1 }, { "S", "", 1 }, { "Sdag", "", 1 }, { "T", "", 1 }, { "Tdag", "", 1 }, { "Rx", "f", 1 },
        { "Ry", "f", 1 }, { "Rz", "f", 1 }, { "Rn", "fffff", 1 }, { "U", "fff", 1 }, { "CNOT", "", 2 }, { "CZ", "", 2 },
        { "SWAP", "", 2 }, { "CR", "f", 2 }, { "CRk", "i", 2 } };
    return g;
}
inline const GateForm* gate_form(const std::string& n) {
    for (auto& g : gates()) {
        if (n == g.name) {
            return &g;
        }
    }
    return nullptr;
}
inline bool fits(const Val& v, char t) {
    return t == 'f' ? constant(v) : v.k == Val::i || v.k == Val::b;
}
inline Val promoted(const Val& v, char t) {
    Val r = t == 'f' ? mk(as_f(v)) : mk(as_i(v));
    r.rough = v.rough;
    return r;
}

struct Result {
    std::vector<std::string> variables, statements;  // written down, in order
    std::vector<std::pair<std::size_t, Fault>> faults;  // statement number and fault
    bool rough = false;
    bool version_ok = true;
};

inline std::string sem(const std::vector<Val>& vs, const std::vector<E>& es, const Form& f) {
    std::string r = "(";
    for (std::size_t i = 0; i < vs.size(); ++i) {
        r += (i ? " " : "") + sem(vs[i]) + f.at(place(es[i]));
    }
    return r + ")";
}

inline std::int64_t width(const Val& v) {
    return v.k == Val::idx ? static_cast<std::int64_t>(v.indices.size()) : v.k == Val::var ? v.v->size : 0;
}
// Letter of the operand kind: Q/V for qubits, B/W for bits, 0 for anything else.
inline char letter(const Val& v) {
    if (constant(v)) {
        return 0;
    }
    bool many = v.k == Val::idx ? v.indices.size() != 1 : v.v->array;
    return v.v->qubit ? (many ? 'V' : 'Q') : (many ? 'W' : 'B');
}

// Evaluates a gate; returns how many qubits it acts on, and writes it down.
inline int eval_gate(const World& w, const G& g, const Form& f, std::string& out, std::string& terminal, bool& rough) {
    int inner = 0;
    std::string in_text;
    if (g->inner) {
        inner = eval_gate(w, g->inner, f, in_text, terminal, rough);
    }
    std::vector<Val> ps;
    for (auto& p : g->params) {
        ps.push_back(eval(w, p));
    }
    std::string types;
    int qubits = 1;
    if (g->inner) {
        types = g->name == "pow" ? "f" : "";
        qubits = g->name == "ctrl" ? 2 : 1;
    } else {
        auto* form = gate_form(g->name);
        if (!form) {
            throw Fault{ "no such gate", g->at };
        }
        types = form->params;
        qubits = form->qubits;
        terminal = g->name;
    }
    if (types.size() != ps.size()) {
        throw Fault{ "number of parameters", g->at };
    }
    for (std::size_t i = 0; i < ps.size(); ++i) {
        if (!fits(ps[i], types[i])) {
            throw Fault{ "kind of parameter", g->at };
        }
        ps[i] = promoted(ps[i], types[i]);
        rough = rough || ps[i].rough;
    }
    if (g->inner && inner != 1) {
        throw Fault{ "modifier of a multi-qubit gate", g->at };
    }
    out = g->name + f.at(g->at) + sem(ps, g->params, f) + (g->inner ? "." + in_text : "");
    return qubits;
}

inline void analyse(World& w, const S& s, const Form& f, Result& r) {
    std::vector<Val> ps, os;
    auto operands = [&] {
        for (auto& o : s->operands) {
            os.push_back(eval(w, o));
        }
    };
    auto letters = [&] {
        std::string l;
        for (auto& o : os) {
            auto c = letter(o);
            l += c ? c : '?';
        }
        return l;
    };
    switch (s->kind) {
        case Stmt::variable: {
            auto v = std::make_shared<Var>();
            v->name = s->name;
            v->qubit = s->word == "qubit";
            v->array = !s->size.empty();
            if (v->array) {
                v->size = int_of(s->size);
                if (v->size <= 0) {
                    throw Fault{ "empty array", s->type_at, false };
                }
            }
            if (w.names.contains(s->name)) {
                throw Fault{ "redeclared", s->at };
            }
            Val x;
            x.k = Val::var;
            x.v = v;
            w.names[s->name] = x;
            w.vars.push_back(v);
            r.variables.push_back("variable " + type_name(*v) + " " + v->name + f.at(s->at));
            return;
        }
        case Stmt::gate: {
            std::string text, terminal;
            int qubits = eval_gate(w, s->g, f, text, terminal, r.rough);
            operands();
            auto l = letters();
            if (os.size() != static_cast<std::size_t>(qubits) || l.find_first_not_of("QV") != std::string::npos) {
                throw Fault{ "operands of a gate", s->g->at };
            }
            for (auto& o : os) {
                if (width(o) != width(os[0])) {
                    throw Fault{ "sizes of operands", s->g->at };
                }
            }
            auto name = s->g->inner ? (qubits == 1 ? "1q_" : "2q_") + terminal : s->g->name;
            r.statements.push_back("gate" + f.at(s->g->at) + " " + name + ":" + l + " " + text + " " + sem(os, s->operands, f));
            return;
        }
        case Stmt::measure:
        case Stmt::simple:
        case Stmt::wait: {
            std::string name = s->kind == Stmt::measure ? "measure" : s->kind == Stmt::wait ? "wait" : s->word;
            operands();
            auto l = letters();
            bool ok = s->kind == Stmt::measure ? (l[0] == 'B' || l[0] == 'W') && (l[1] == 'Q' || l[1] == 'V') :
                                                 l == "Q" || l == "V";
            if (!ok) {
                throw Fault{ "operands of an instruction", s->at };
            }
            for (auto& p : s->params) {
                ps.push_back(eval(w, p));
            }
            std::string types = s->kind == Stmt::measure ? (ps.empty() ? "" : "fff") : s->kind == Stmt::wait ? "i" : "";
            if (ps.size() != types.size()) {
                throw Fault{ "number of parameters", s->at };
            }
            for (std::size_t i = 0; i < ps.size(); ++i) {
                if (!fits(ps[i], types[i])) {
                    throw Fault{ "kind of parameter", s->at };
                }
                ps[i] = promoted(ps[i], types[i]);
                r.rough = r.rough || ps[i].rough;
            }
            if (s->kind == Stmt::measure && width(os[0]) != width(os[1])) {
                throw Fault{ "sizes of operands", s->at };
            }
            r.statements.push_back("do" + f.at(s->at) + " " + name + ":" + l + " " + name + sem(ps, s->params, f) + " " +
                sem(os, s->operands, f));
            return;
        }
        case Stmt::assembly: r.statements.push_back("asm " + s->word + " " + pbt::quote(s->name)); return;
    }
}

inline Result analyse(const Program& p, const Form& f = {}) {
    Result r;
    World w;
    auto v = version_text(p.version);
    r.version_ok = v == "3" || v == "3.0";
    for (std::size_t i = 0; i < p.stmts.size(); ++i) {
        try {
            analyse(w, p.stmts[i], f, r);
        } catch (const Fault& x) {
            r.faults.emplace_back(i, x);
        }
    }
    return r;
}

inline std::string written(const Program& p, const Result& r, const Form& f) {
    std::string t = "api 3.0\nversion " + version_text(p.version) + f.at(p.version_at) + "\n";
    for (auto& x : r.variables) {
        t += x + "\n";
    }
    for (auto& x : r.statements) {
        t += x + "\n";
    }
    return t;
}

}  // namespace oracle
