// C16: precedence and associativity.
#include "lib.hpp"
#include "progen.hpp"
using namespace pbt;

static std::string program(const std::string& expr) {
    return "version 3.0\nRx(" + expr + ") q\n";
}
static std::string parsed(const std::string& expr) {
    auto p = lib::parse(program(expr));
    PBT_CHECK(p.tree, "not parsed: " << expr << "\n" << lib::show(p.errors));
    return *p.tree;
}
static std::string expected(const model::E& e) {
    oracle::Form f;
    return "version 3.0\ngate Rx(" + oracle::syn(e, f) + ") (name:q)\n";
}
static std::string shown(const model::E& e, bool full) {
    model::Tokens t;
    t.full_parens = full;
    model::put_expr(t, e, 0);
    model::Layout l;
    auto r = model::write(t, l);
    r.pop_back();
    return r;
}
static bool has_mix(const model::E& e) {
    if (e->kind == model::Expr::unary || e->kind == model::Expr::binary || e->kind == model::Expr::ternary) {
        for (auto& a : e->args) {
            if (a->kind == model::Expr::unary || a->kind == model::Expr::binary || a->kind == model::Expr::ternary) {
                return true;
            }
        }
    }
    for (auto& a : e->args) {
        if (has_mix(a)) {
            return true;
        }
    }
    return false;
}

// Our own parser of expressions without parentheses: precedence climbing over the documented levels.
struct Climb {
    const std::vector<std::string>& t;
    std::size_t i = 0;
    static bool prefix(const std::string& x) { return x == "u-" || x == "u+" || x == "~" || x == "!"; }
    model::E primary() {
        if (prefix(t[i])) {
            auto op = t[i][0] == 'u' ? t[i].substr(1) : t[i];
            ++i;
            return model::make(model::Expr::unary, op, { primary() });
        }
        return model::ident(t[i++]);
    }
    model::E binary(int min) {
        auto left = primary();
        while (i < t.size() && t[i] != "?" && t[i] != ":") {
            auto op = t[i];
            int p = model::level(op);
            if (p < min) {
                break;
            }
            ++i;
            auto right = binary(op == "**" ? p : p + 1);
            left = model::make(model::Expr::binary, op, { left, right });
        }
        return left;
    }
    model::E any() {
        auto c = binary(1);
        if (i < t.size() && t[i] == "?") {
            ++i;
            auto a = any();
            ++i;  // ':'
            auto b = any();
            return model::make(model::Expr::ternary, "?", { c, a, b });
        }
        return c;
    }
};
static std::string join(const std::vector<std::string>& t) {
    std::string r;
    for (auto& x : t) {
        r += (r.empty() ? "" : " ") + (x[0] == 'u' && x.size() == 2 ? x.substr(1) : x);
    }
    return r;
}
static void flat(const std::vector<std::string>& t, Case& c) {
    auto text = join(t);
    c.show = text;
    Climb k{ t };
    auto e = k.any();
    PBT_CHECK(parsed(text) == expected(e), text << " is read as\n" << parsed(text) << "instead of\n" << expected(e));
}

int main(int argc, char** argv) {
    static const std::vector<std::string> ops = { "||", "^^", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*",
        "/", "%", "**" };
    static const std::vector<std::string> pre = { "u-", "u+", "~", "!" };
    auto trees = [](Src& s, Case& c) {
        progen::ExprGen g{ s, { "q", "b" } };
        g.redundant = 0;
        auto e = g.free(2 + static_cast<int>(s.draw(4)));
        auto minimal = shown(e, false), full = shown(e, true);
        c.show = minimal;
        c.nontrivial = has_mix(e);
        auto want = expected(e);
        auto got = parsed(minimal);
        PBT_CHECK(got == want, "with the fewest parentheses:\n" << minimal << "\nis read as\n" << got << "instead of\n" << want);
        got = parsed(full);
        PBT_CHECK(got == want, "fully parenthesised:\n" << full << "\nis read as\n" << got << "instead of\n" << want);
        // Redundant ones, anywhere.
        std::function<void(const model::E&)> add = [&](const model::E& x) {
            x->parens = s.chance(1, 3) ? 1 + static_cast<int>(s.draw(3)) : 0;
            for (auto& a : x->args) {
                add(a);
            }
            for (auto& en : x->entries) {
                add(en.first);
                if (en.last) {
                    add(en.last);
                }
            }
        };
        add(e);
        auto extra = shown(e, s.flip());
        got = parsed(extra);
        PBT_CHECK(got == want, "with redundant parentheses:\n" << extra << "\nis read as\n" << got << "instead of\n" << want);
    };
    auto n = ops.size();
    // a op b op c, with every prefix operator (or none) in one of the places
    auto triples = [n](Src& s, Case& c) {
        auto k = s.draw(n * n * 13);
        auto o1 = ops[k % n], o2 = ops[k / n % n];
        auto u = k / n / n;
        std::vector<std::string> t = { "a", o1, "b", o2, "c" };
        if (u > 0) {
            t.insert(t.begin() + static_cast<long>(2 * ((u - 1) % 3)), pre[(u - 1) / 3]);
        }
        flat(t, c);
        c.nontrivial = o1 != o2;
    };
    // a op b ? c op d : e op f and the like
    auto conditionals = [n](Src& s, Case& c) {
        auto k = s.draw(n * 8);
        auto op = ops[k % n];
        std::vector<std::string> t;
        switch (k / n) {
            case 0: t = { "a", op, "b", "?", "c", ":", "d" }; break;
            case 1: t = { "a", "?", "b", op, "c", ":", "d" }; break;
            case 2: t = { "a", "?", "b", ":", "c", op, "d" }; break;
            case 3: t = { "a", "?", "b", "?", "c", ":", "d", ":", "e", op, "f" }; break;
            case 4: t = { "a", "?", "b", ":", "c", op, "d", "?", "e", ":", "f" }; break;
            case 5: t = { "!", "a", op, "b", "?", "c", ":", "u-", "d" }; break;
            case 6: t = { "a", "?", "b", ":", "c", "?", "d", op, "e", ":", "f" }; break;
            default: t = { "a", op, "b", "?", "c", "?", "d", ":", "e", ":", "f", "?", "g", ":", "h" };
        }
        flat(t, c);
        c.nontrivial = true;
    };
    auto sequences = [](Src& s, Case& c) {
        std::vector<std::string> t;
        std::function<void(int)> any = [&](int depth) {
            std::size_t terms = 1 + s.length(10);
            for (std::size_t i = 0; i < terms; ++i) {
                if (i) {
                    t.push_back(s.pick(ops));
                }
                while (s.chance(1, 5)) {
                    t.push_back(s.pick(pre));
                }
                t.push_back(std::string(1, static_cast<char>('a' + s.draw(26))));
            }
            if (depth > 0 && s.chance(1, 3)) {
                t.push_back("?");
                any(depth - 1);
                t.push_back(":");
                any(depth - 1);
            }
        };
        any(3);
        flat(t, c);
        std::set<std::string> used;
        for (auto& x : t) {
            if (x.size() > 1 || !std::isalpha(static_cast<unsigned char>(x[0]))) {
                used.insert(x);
            }
        }
        c.nontrivial = used.size() >= 2;
    };
    return run(argc, argv, "C16", "expressions of any nesting; non-trivial: an operator that is an operand of another one",
        { { "trees", trees, 4000, 100000 }, { "two operators", triples, n * n * 13, n * n * 13, n * n * 13 },
            { "conditionals", conditionals, n * 8, n * 8, n * 8 }, { "sequences without parentheses", sequences, 4000, 100000 } });
}
