// A model of cQASM 3 programs of our own: expressions, gates, statements; how to write them down as tokens and text,
// with every position recorded; and generators.
#pragma once

#include "gen.hpp"

namespace model {
using pbt::Src;

struct Span {
    std::uint32_t l1 = 0, c1 = 0, l2 = 0, c2 = 0;
    [[nodiscard]] bool set() const { return l1 != 0; }
    bool operator==(const Span&) const = default;
};
inline std::string show(const Span& s) {
    if (!s.set()) {
        return "@none";
    }
    return "@" + std::to_string(s.l1) + ":" + std::to_string(s.c1) + "-" + std::to_string(s.l2) + ":" + std::to_string(s.c2);
}

struct Expr;
using E = std::shared_ptr<Expr>;
struct Entry {
    E first, last;  // last is null for a single index
};
struct Expr {
    enum Kind { boolean, integer, real, name, index, call, unary, binary, ternary } kind;
    std::string text;            // spelling of a literal, name, operator
    std::vector<E> args;
    std::vector<Entry> entries;
    int parens = 0;              // redundant pairs of parentheses
    Span at;                     // the token that stands for the expression
};
inline E make(Expr::Kind k, std::string text, std::vector<E> args = {}) {
    auto e = std::make_shared<Expr>();
    e->kind = k;
    e->text = std::move(text);
    e->args = std::move(args);
    return e;
}
inline E number(std::int64_t v) {
    return make(Expr::integer, std::to_string(v));
}
inline E ident(const std::string& n) {
    return make(Expr::name, n);
}
inline E copy(const E& e) {
    if (!e) {
        return e;
    }
    auto r = std::make_shared<Expr>(*e);
    for (auto& a : r->args) {
        a = copy(a);
    }
    for (auto& x : r->entries) {
        x = { copy(x.first), copy(x.last) };
    }
    return r;
}

struct Gate {
    std::string name;
    std::shared_ptr<Gate> inner;
    std::vector<E> params;
    Span at;
};
using G = std::shared_ptr<Gate>;

struct Stmt {
    enum Kind { variable, gate, measure, simple, wait, assembly } kind = variable;
    std::string word;            // qubit/bit; reset/init/barrier; backend name
    std::string size;            // spelling of the array size; empty: none
    std::string name;            // of the variable; raw text
    G g;
    std::vector<E> operands, params;
    Span at, type_at;            // identifier or keyword; the whole type
    Span extent;                 // first to last token
};
using S = std::shared_ptr<Stmt>;
inline G copy(const G& g) {
    if (!g) {
        return g;
    }
    auto r = std::make_shared<Gate>(*g);
    r->inner = copy(r->inner);
    for (auto& p : r->params) {
        p = copy(p);
    }
    return r;
}
inline S copy(const S& s) {
    auto r = std::make_shared<Stmt>(*s);
    r->g = copy(r->g);
    for (auto& x : r->operands) {
        x = copy(x);
    }
    for (auto& x : r->params) {
        x = copy(x);
    }
    return r;
}

struct Program {
    std::string version = "3.0";
    Span version_at;
    std::vector<S> stmts;
};
inline Program copy(const Program& p) {
    Program r;
    r.version = p.version;
    for (auto& s : p.stmts) {
        r.stmts.push_back(copy(s));
    }
    return r;
}

// --------------------------------------------------------------------------------------------------------- tokens ---

struct Tok {
    std::string text;
    std::vector<Span*> opens, closes;  // spans that begin or end with this token
    bool separator = false;            // stands where statements are separated; the layout chooses its text
    bool after_version = false;        // the gap before this token is in the lexer's version mode
};

struct Tokens {
    std::vector<Tok> v;
    bool full_parens = false;
    Tok& put(const std::string& text, Span* whole = nullptr) {
        v.push_back({ text, {}, {}, false, false });
        if (whole) {
            v.back().opens.push_back(whole);
            v.back().closes.push_back(whole);
        }
        return v.back();
    }
    void sep() {
        v.push_back({ "", {}, {}, true, false });
    }
};

inline int level(const std::string& op) {
    static const std::map<std::string, int> m = { { "||", 1 }, { "^^", 2 }, { "&&", 3 }, { "|", 4 }, { "^", 5 },
        { "&", 6 }, { "==", 7 }, { "!=", 7 }, { "<", 8 }, { ">", 8 }, { "<=", 8 }, { ">=", 8 }, { "<<", 9 },
        { ">>", 9 }, { "+", 10 }, { "-", 10 }, { "*", 11 }, { "/", 11 }, { "%", 11 }, { "**", 12 } };
    return m.at(op);
}
inline int level(const Expr& e) {
    switch (e.kind) {
        case Expr::ternary: return 0;
        case Expr::binary: return level(e.text);
        case Expr::unary: return 13;
        default: return 14;
    }
}

inline void put_expr(Tokens& t, const E& e, int min_level) {
    int pairs = e->parens;
    if (t.full_parens ? level(*e) < 14 : level(*e) < min_level) {
        ++pairs;
    }
    for (int i = 0; i < pairs; ++i) {
        t.put("(");
    }
    switch (e->kind) {
        case Expr::boolean:
        case Expr::integer:
        case Expr::real:
        case Expr::name: t.put(e->text, &e->at); break;
        case Expr::index:
            t.put(e->text, &e->at);
            t.put("[");
            for (std::size_t i = 0; i < e->entries.size(); ++i) {
                if (i) {
                    t.put(",");
                }
                put_expr(t, e->entries[i].first, 0);
                if (e->entries[i].last) {
                    t.put(":");
                    put_expr(t, e->entries[i].last, 0);
                }
            }
            t.put("]");
            break;
        case Expr::call:
            t.put(e->text, &e->at);
            t.put("(");
            for (std::size_t i = 0; i < e->args.size(); ++i) {
                if (i) {
                    t.put(",");
                }
                put_expr(t, e->args[i], 0);
            }
            t.put(")");
            break;
        case Expr::unary:
            t.put(e->text, &e->at);
            put_expr(t, e->args[0], 13);
            break;
        case Expr::binary: {
            int p = level(e->text);
            bool right = e->text == "**";
            put_expr(t, e->args[0], right ? p + 1 : p);
            t.put(e->text, &e->at);
            put_expr(t, e->args[1], right ? p : p + 1);
            break;
        }
        case Expr::ternary:
            put_expr(t, e->args[0], 1);
            t.put("?", &e->at);
            put_expr(t, e->args[1], 0);
            t.put(":");
            put_expr(t, e->args[2], 0);
            break;
    }
    for (int i = 0; i < pairs; ++i) {
        t.put(")");
    }
}
inline void put_list(Tokens& t, const std::vector<E>& l) {
    for (std::size_t i = 0; i < l.size(); ++i) {
        if (i) {
            t.put(",");
        }
        put_expr(t, l[i], 0);
    }
}
// An operand where parameters in parentheses could stand as well: "H (a) + b" would be H(a) on +b.
inline void put_operand(Tokens& t, const E& e) {
    auto begin = t.v.size();
    put_expr(t, e, 0);
    bool wrapped = e->parens > 0 || (t.full_parens && level(*e) < 14);
    if (t.v[begin].text == "(" && !wrapped) {
        t.v.insert(t.v.begin() + static_cast<long>(begin), Tok{ "(", {}, {}, false, false });
        t.put(")");
    }
}
inline bool bare(const G& g) { return g->inner ? bare(g->inner) : g->params.empty(); }
inline void put_gate(Tokens& t, const G& g) {
    t.put(g->name, &g->at);
    if (!g->params.empty()) {
        t.put("(");
        put_list(t, g->params);
        t.put(")");
    }
    if (g->inner) {
        t.put(".");
        put_gate(t, g->inner);
    }
}
inline void put_stmt(Tokens& t, const S& s) {
    auto begin = t.v.size();
    switch (s->kind) {
        case Stmt::variable: {
            t.put(s->word).opens.push_back(&s->type_at);
            if (!s->size.empty()) {
                t.put("[");
                t.put(s->size);
                t.put("]");
            }
            t.v.back().closes.push_back(&s->type_at);
            t.put(s->name, &s->at);
            break;
        }
        case Stmt::gate:
            put_gate(t, s->g);
            if (bare(s->g) && !s->operands.empty()) {
                put_operand(t, s->operands[0]);
                for (std::size_t i = 1; i < s->operands.size(); ++i) {
                    t.put(",");
                    put_expr(t, s->operands[i], 0);
                }
            } else {
                put_list(t, s->operands);
            }
            break;
        case Stmt::measure:
            put_expr(t, s->operands[0], 0);
            t.put("=");
            t.put("measure", &s->at);
            if (!s->params.empty()) {
                t.put("(");
                put_list(t, s->params);
                t.put(")");
                put_expr(t, s->operands[1], 0);
            } else {
                put_operand(t, s->operands[1]);
            }
            break;
        case Stmt::simple:
            t.put(s->word, &s->at);
            put_expr(t, s->operands[0], 0);
            break;
        case Stmt::wait:
            t.put("wait", &s->at);
            t.put("(");
            put_expr(t, s->params[0], 0);
            t.put(")");
            put_expr(t, s->operands[0], 0);
            break;
        case Stmt::assembly:
            t.put("asm");
            t.put("(");
            t.put(s->word);
            t.put(")");
            t.put("'''" + s->name + "'''");
            break;
    }
    t.v[begin].opens.push_back(&s->extent);
    t.v.back().closes.push_back(&s->extent);
}
// Leading and trailing separators are the layout's business.
inline Tokens tokens(Program& p, bool full_parens = false) {
    Tokens t;
    t.full_parens = full_parens;
    t.put("version");
    t.put(p.version, &p.version_at).after_version = true;
    for (auto& s : p.stmts) {
        t.sep();
        put_stmt(t, s);
    }
    return t;
}

// --------------------------------------------------------------------------------------------------------- layout ---

inline bool wordy(char c) {
    return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.';
}
inline bool needs_blank(const std::string& a, const std::string& b) {
    if (a.empty() || b.empty() || a == "." || b == ".") {
        return false;
    }
    return (wordy(a.back()) && wordy(b.front())) || (a.back() == '\'' && b.front() == '\'');
}

// Decides the text between tokens.
struct Layout {
    virtual ~Layout() = default;
    virtual std::string gap(bool needed) { return needed ? " " : ""; }
    virtual std::string version_gap() { return " "; }
    virtual std::string separator() { return "\n"; }
    virtual std::string start() { return ""; }
    virtual std::string finish() { return "\n"; }
};
struct Semicolons : Layout {
    std::string separator() override { return ";"; }
    std::string gap(bool needed) override { return needed ? " " : ""; }
    std::string finish() override { return ""; }
};
struct Spaced : Layout {  // every gap one blank
    std::string gap(bool) override { return " "; }
};

inline std::string comment_text(Src& s, bool newlines) {
    static const std::vector<std::string> bits = { "x", " ", "*", "/", "//", "'''", "\"", "q[0]", "measure", "version 3.0",
        ";", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xe2\x82\xac", "/*", "**", "\t", "\\", "\\\n" };
    std::string r;
    for (auto n = s.draw(5); n > 0; --n) {
        r += s.pick(bits);
        if (newlines && s.chance(1, 6)) {
            r += s.flip() ? "\n" : "\r\n";
        }
    }
    for (std::size_t i; (i = r.find("*/")) != std::string::npos;) {
        r.replace(i, 2, "*.");
    }
    if (!newlines) {
        for (auto& c : r) {
            if (c == '\n' || c == '\r') {
                c = '.';
            }
        }
    }
    return r;
}

struct Random : Layout {
    Src& s;
    bool crlf = false, plain = false;  // plain: blanks only
    unsigned rate = 4;                  // one gap in so many is filled, beyond the needed ones
    explicit Random(Src& src) : s{ src } {}
    std::string piece() {
        switch (plain ? s.draw(3) : s.draw(6)) {
            case 0: return " ";
            case 1: return "\t";
            case 2: return "   ";
            case 3: {
                auto c = comment_text(s, true);
                if (!c.empty() && c.back() == '/' && false) {
                    c += ' ';
                }
                return "/*" + c + "*/";
            }
            case 4: return "/**/";
            default: return "/* */ ";
        }
    }
    std::string gap(bool needed) override {
        if (!needed && !s.chance(1, rate)) {
            return "";
        }
        if (needed && !s.chance(1, 4)) {
            return " ";
        }
        std::string r;
        for (auto n = 1 + s.draw(3); n > 0; --n) {
            r += piece();
        }
        return r;
    }
    std::string version_gap() override {
        return s.chance(1, 3) ? s.pick({ std::string{ "\t" }, std::string{ "  " }, std::string{ " \t " } }) : " ";
    }
    std::string newline() {
        return crlf || s.chance(1, 8) ? "\r\n" : "\n";
    }
    std::string one_separator() {
        if (s.flip()) {
            return ";";
        }
        if (!plain && s.chance(1, 4)) {
            return "//" + comment_text(s, false) + newline();
        }
        return newline();
    }
    std::string separator() override {
        std::string r;
        for (auto n = 1 + (s.chance(1, 3) ? s.draw(3) : 0); n > 0; --n) {
            r += one_separator();
            if (s.chance(1, 6)) {
                r += piece();
            }
        }
        return r;
    }
    std::string start() override {
        return s.chance(1, 4) ? gap(true) + separator() : s.chance(1, 8) ? gap(true) : "";
    }
    std::string finish() override {
        std::string r;
        if (s.flip()) {
            r += separator();
        }
        if (s.chance(1, 6)) {
            r += gap(true);
        }
        if (!plain && s.chance(1, 6)) {
            r += "//" + comment_text(s, false);
        }
        return r;
    }
};

struct Writer {
    std::string out;
    std::uint32_t line = 1, column = 1;
    void add(const std::string& t) {
        for (unsigned char c : t) {
            if (c == '\n') {
                ++line;
                column = 1;
            } else if ((c & 0xc0) != 0x80) {
                ++column;
            }
        }
        out += t;
    }
};

// Writes the tokens, and fills in the spans. A gap that would form a comment or operator with its neighbours gets a blank.
inline std::string write(const Tokens& t, Layout& l) {
    Writer w;
    auto safe = [&](std::string g) {
        if (!g.empty() && g.front() == '/' && !w.out.empty() && w.out.back() == '/') {
            g.insert(g.begin(), ' ');
        }
        return g;
    };
    w.add(l.start());
    for (std::size_t i = 0; i < t.v.size(); ++i) {
        auto& k = t.v[i];
        if (k.separator) {
            w.add(safe(l.gap(false)));
            w.add(safe(l.separator()));
            continue;
        }
        if (i > 0) {
            auto& b = t.v[i - 1];
            w.add(k.after_version ? l.version_gap() : b.separator ? l.gap(false) : safe(l.gap(needs_blank(b.text, k.text))));
        }
        for (auto* s : k.opens) {
            s->l1 = w.line;
            s->c1 = w.column;
        }
        w.add(k.text);
        for (auto* s : k.closes) {
            s->l2 = w.line;
            s->c2 = w.column;
        }
    }
    w.add(safe(l.finish()));
    return w.out;
}
inline std::string write(Program& p, Layout& l, bool full_parens = false) {
    return write(tokens(p, full_parens), l);
}
inline std::string text(Program& p) {
    Layout l;
    return write(p, l);
}

}  // namespace model
