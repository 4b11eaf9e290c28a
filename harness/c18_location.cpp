// C18: locations.
#include "large.hpp"
using namespace pbt;

static std::string file_name(Src& s) {
    switch (s.draw(5)) {
        case 0: return "";
        case 1: return "input.cq";
        case 2: return "/some dir/f\xc3\xa9:1:2.cq";
        case 3: {  // a path
            std::string r;
            for (auto n = 1 + s.length(60); n > 0; --n) {
                r += s.pick({ std::string{ "/" }, std::string{ "dir/" }, std::string{ "../" }, std::string{ "C:\\x\\" }, std::string{ "a b/" } });
            }
            return r + "f.cq";
        }
        default: return s.chance(1, 8) ? "long" + std::string(large::size(s, 5000), 'n') + ".cq" : gen::text(s, 20);
    }
}
static std::optional<std::string> opt(const std::string& f, Src& s) {
    return f.empty() && s.flip() ? std::nullopt : std::optional<std::string>{ f };
}
static model::Random layout_for(Src& s) {
    model::Random r{ s };
    r.rate = s.pick({ 3u, 6u, 20u });
    r.crlf = s.chance(1, 5);
    return r;
}
// Somewhere, thousands of lines or columns.
struct Far : model::Random {
    std::size_t size = 0;
    std::uint64_t where = 0;
    explicit Far(Src& src) : Random{ src } {
        rate = 6;
        size = large::size(s, 100000);
        where = s.draw(12);
    }
    std::string filling() {
        switch (s.draw(5)) {
            case 0: return "/*" + std::string(size, '\n') + "*/";
            case 1: return "/*" + std::string(size, '.') + "*/";
            case 2: return "/*" + std::string(size, '\n') + std::string(size, ' ') + "*/";
            default: return std::string(size, ' ');
        }
    }
    std::string gap(bool needed) override { return where != 0 && --where == 0 ? filling() : Random::gap(needed); }
    std::string separator() override {
        if (where == 0 || --where != 0) {
            return Random::separator();
        }
        std::string r;
        switch (s.draw(4)) {
            case 0: return std::string(size, '\n');
            case 1: return std::string(size, ';');
            case 2: return "//" + std::string(size, '/') + "\n";
            default:
                for (std::size_t i = 0; i < size; i += 2) {
                    r += "\r\n";
                }
                return r;
        }
    }
};
// Hull of the located statements of a block.
static bool before(std::uint32_t l1, std::uint32_t c1, std::uint32_t l2, std::uint32_t c2) {
    return l1 < l2 || (l1 == l2 && c1 < c2);
}
static bool inside(const model::Span& in, const model::Span& out) {
    return !before(in.l1, in.c1, out.l1, out.c1) && !before(out.l2, out.c2, in.l2, in.c2);
}

static std::string brief(const std::string& t) {
    return t.size() < 4000 ? t : [&] {
        std::string r;  // long runs of one character shortened
        for (std::size_t i = 0; i < t.size();) {
            std::size_t k = i;
            while (k < t.size() && t[k] == t[i]) {
                ++k;
            }
            r += k - i > 20 ? std::string(3, t[i]) + "[..." + std::to_string(k - i) + "]" : t.substr(i, k - i);
            i = k;
        }
        return r;
    }();
}

int main(int argc, char** argv) {
    auto valid_in = [](Src& s, Case& c, auto layout_for) {
        progen::ProgramGen g{ s };
        g.valid(12);
        auto layout = layout_for(s);
        auto text = model::write(g.p, layout);
        auto file = file_name(s);
        auto name = opt(file, s);
        c.show = brief(text);
        c.nontrivial = std::count(text.begin(), text.end(), '\n') >= 2;
        oracle::Form f{ true, file };
        auto p = lib::parse(text, f, name);
        PBT_CHECK(p.tree, "not parsed:\n" << quote(brief(text)) << "\n" << lib::show(p.errors));
        auto want = oracle::syn(g.p, f);
        PBT_CHECK(*p.tree == want, "syntax tree:\n" << *p.tree << "expected:\n" << want << "for:\n" << quote(brief(text)));
        auto a = lib::analyse(text, f, name);
        PBT_CHECK(a.tree, "rejected:\n" << quote(brief(text)) << "\n" << lib::show(a.errors));
        auto r = oracle::analyse(g.p, f);
        want = oracle::written(g.p, r, f);
        PBT_CHECK(lib::agree(want, *a.tree, r.rough), "semantic tree:\n" << *a.tree << "expected:\n" << want << "for:\n" << quote(brief(text)));
        // The block covers exactly its located statements.
        model::Span hull;
        for (auto& st : g.p.stmts) {
            if (st->kind == model::Stmt::variable || st->kind == model::Stmt::assembly) {
                continue;
            }
            auto& at = st->kind == model::Stmt::gate ? st->g->at : st->at;
            if (!hull.set()) {
                hull = at;
            }
            if (before(at.l1, at.c1, hull.l1, hull.c1)) {
                hull.l1 = at.l1;
                hull.c1 = at.c1;
            }
            if (before(hull.l2, hull.c2, at.l2, at.c2)) {
                hull.l2 = at.l2;
                hull.c2 = at.c2;
            }
        }
        PBT_CHECK(lib::at(*a.result.root->block, f) == model::show(hull), "the block is at " << lib::at(*a.result.root->block, f) << ", its statements at " << model::show(hull) << " for:\n" << quote(brief(text)));
    };
    auto faulty_in = [](Src& s, Case& c, auto layout_for) {
        progen::ProgramGen g{ s };
        for (auto n = 1 + s.draw(4); n > 0; --n) {
            if (s.flip()) {
                g.valid_statement();
            }
            g.faulty_statement();
        }
        auto layout = layout_for(s);
        auto text = model::write(g.p, layout);
        auto file = file_name(s);
        c.show = brief(text);
        c.nontrivial = std::count(text.begin(), text.end(), '\n') >= 1;
        auto r = oracle::analyse(g.p);
        auto a = lib::analyse(text, {}, opt(file, s));
        PBT_CHECK(a.errors.size() == r.faults.size(), "there are " << a.errors.size() << " errors and " << r.faults.size() << " faults:\n" << lib::show(a.errors) << "for:\n" << quote(brief(text)));
        for (std::size_t i = 0; i < a.errors.size(); ++i) {
            auto& e = a.errors[i];
            auto& [stmt, fault] = r.faults[i];
            c.label(fault.what);
            PBT_CHECK(e.file.value_or("") == file, "an error's file name is " << quote(e.file.value_or("<none>")) << " instead of " << quote(file));
            if (fault.exact) {
                PBT_CHECK(e.at == fault.at, "fault '" << fault.what << "' at " << model::show(fault.at) << " is reported at " << model::show(e.at) << ": " << e.what << "\nfor:\n" << quote(brief(text)));
            } else {
                PBT_CHECK(e.at.set() && inside(e.at, g.p.stmts[stmt]->extent), "fault '" << fault.what << "' in the statement " << model::show(g.p.stmts[stmt]->extent) << " is reported at "
                                                                        << model::show(e.at) << ": " << e.what << "\nfor:\n" << quote(brief(text)));
            }
        }
    };
    // Syntax errors: a stray token is put in at a known place; what is before is valid, so the error cannot be earlier,
    // and it must be the exact position of a token (or the end).
    auto broken = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(6);
        auto t = model::tokens(g.p);
        static const std::vector<std::string> stray = { ")", "]", ":", "=", "[", ".", "measure", "qubit", "3", "version", "'''x'''", "'''\xc3\xa9\xc3\xa9'''",
            ",", "**", "wait", "asm", "1.5", "inv" };
        // Outside the version's own section, where lexing differs.
        auto i = 2 + s.index(t.v.size() - 1);
        model::Tok bad;
        bad.text = s.pick(stray);
        model::Span bad_at;
        bad.opens = bad.closes = { &bad_at };
        t.v.insert(t.v.begin() + static_cast<long>(std::min(i, t.v.size())), bad);
        std::vector<model::Span> spans(t.v.size());
        for (std::size_t k = 0; k < t.v.size(); ++k) {
            if (!t.v[k].separator) {
                t.v[k].opens.push_back(&spans[k]);
                t.v[k].closes.push_back(&spans[k]);
            }
        }
        struct Wide : model::Random {
            using Random::Random;
            bool version = false;
            std::string gap(bool) override { return Random::gap(true); }
        };
        // The gap after a stray 'version' is in another mode: blanks only.
        Wide layout{ s };
        layout.plain = true;
        auto text = model::write(t, layout);
        auto file = file_name(s);
        c.show = text;
        auto p = lib::parse(text, {}, opt(file, s));
        c.nontrivial = !p.errors.empty();
        c.label(p.errors.empty() ? "still valid" : "rejected");
        if (p.errors.empty()) {
            return;
        }
        PBT_CHECK(p.errors.size() == 1, "there are " << p.errors.size() << " syntax errors");
        auto& e = p.errors[0];
        PBT_CHECK(e.file.value_or("") == file, "an error's file name is " << quote(e.file.value_or("<none>")) << " instead of " << quote(file));
        PBT_CHECK(!before(e.at.l1, e.at.c1, bad_at.l1, bad_at.c1), "error before the stray token at " << model::show(bad_at) << ": " << e.what << "\nfor:\n" << quote(text));
        if (bad.text == "version") {
            return;  // what follows is lexed in another mode
        }
        bool found = false;
        for (auto& sp : spans) {
            found = found || sp == e.at;
        }
        // Or a separator, or the end of the text.
        if (!found) {
            std::uint32_t line = 1, column = 1;
            for (std::size_t k = 0; k <= text.size() && !found; ++k) {
                if (line == e.at.l1 && column == e.at.c1) {
                    if (k == text.size()) {
                        found = e.at.l2 == line && e.at.c2 == column;
                    } else if (text[k] == ';' || text[k] == '\n') {
                        found = e.at.l2 == line && e.at.c2 == column + 1;
                    } else if (text[k] == '\r') {
                        found = e.at.l2 == line && e.at.c2 == column + 2;
                    } else if (text.compare(k, 3, "'''") == 0) {  // a stray mark up to the next one: the end of a token over several lines is not meant
                        auto end = text.find("'''", k + 3);
                        if (end != std::string::npos) {
                            auto token = text.substr(k, end + 3 - k);
                            auto chars = std::count_if(token.begin(), token.end(), [](char x) { return (x & 0xc0) != 0x80; });
                            found = token.find('\n') != std::string::npos || (e.at.l2 == line && e.at.c2 == column + chars);
                        }
                    }
                }
                if (k < text.size()) {
                    if (text[k] == '\n') {
                        ++line;
                        column = 1;
                    } else if ((text[k] & 0xc0) != 0x80) {
                        ++column;
                    }
                }
            }
        }
        PBT_CHECK(found, "a syntax error is reported where there is no token, at " << model::show(e.at) << ": " << e.what << "\nfor:\n" << quote(text));
    };
    // A character that is in no token: reported there.
    auto lexical = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(4);
        auto t = model::tokens(g.p);
        static const std::vector<std::string> stray = { "$", "@", "#", "`", "{", "}", "\\", "\"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01" };
        auto i = std::min<std::size_t>(t.v.size(), 2 + s.index(t.v.size() - 1));
        model::Tok bad;
        bad.text = s.pick(stray);
        model::Span at;
        bad.opens = bad.closes = { &at };
        t.v.insert(t.v.begin() + static_cast<long>(i), bad);
        auto layout = layout_for(s);
        auto text = model::write(t, layout);
        c.show = text;
        c.nontrivial = true;
        auto p = lib::parse(text);
        PBT_CHECK(p.errors.size() == 1, "there are " << p.errors.size() << " errors for:\n" << quote(text));
        auto& e = p.errors[0];
        PBT_CHECK(e.at.l1 == at.l1 && e.at.c1 == at.c1, "the character at " << model::show(at) << " is reported at " << model::show(e.at) << ": " << e.what << "\nfor:\n" << quote(text));
    };
    // Literals out of range are reported where they stand.
    auto literal = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(4);
        auto st = std::make_shared<model::Stmt>();
        st->kind = model::Stmt::gate;
        st->g = std::make_shared<model::Gate>();
        st->g->name = "Rx";
        auto lit = s.flip() ? model::make(model::Expr::integer, "9223372036854775808") : model::make(model::Expr::real, "1.0e400");
        auto e = lit;
        for (auto n = s.draw(3); n > 0; --n) {
            e = s.flip() ? model::make(model::Expr::unary, "-", { e }) : model::make(model::Expr::binary, "+", { model::number(1), e });
        }
        st->g->params = { e };
        st->operands = { model::ident("q") };
        g.p.stmts.insert(g.p.stmts.begin() + static_cast<long>(s.draw(g.p.stmts.size() + 1)), st);
        auto layout = layout_for(s);
        auto text = model::write(g.p, layout);
        c.show = text;
        c.nontrivial = true;
        auto p = lib::parse(text);
        PBT_CHECK(p.errors.size() == 1, "there are " << p.errors.size() << " errors for:\n" << quote(text));
        auto& r = p.errors[0];
        PBT_CHECK(r.at.l1 == lit->at.l1 && r.at.c1 == lit->at.c1, "the literal at " << model::show(lit->at) << " is reported at " << model::show(r.at) << ": " << r.what << "\nfor:\n" << quote(text));
    };
    return run(argc, argv, "C18", "valid, faulty and broken programs in random layouts; non-trivial: several lines (third clause: rejected)",
        { { "trees", [=](Src& s, Case& c) { valid_in(s, c, layout_for); }, 1500, 40000 }, { "faults", [=](Src& s, Case& c) { faulty_in(s, c, layout_for); }, 1500, 40000 },
            { "far trees", [=](Src& s, Case& c) { valid_in(s, c, [](Src& s) { return Far{ s }; }); }, 120, 4000 }, { "far faults", [=](Src& s, Case& c) { faulty_in(s, c, [](Src& s) { return Far{ s }; }); }, 120, 4000 }, { "syntax errors", broken, 2000, 50000 },
            { "stray characters", lexical, 1000, 20000 }, { "literals out of range", literal, 500, 10000 } });
}
