// C34: the analysis of a syntax tree depends on what the tree says, not on how it came about.
#include "decide.hpp"
using namespace pbt;
namespace ct = cqasm::tree;

using Statements = ct::Any<lib::syn::Statement>;

static ct::One<lib::syn::Program> parsed(const std::string& text) {
    auto p = lib::v3::parser::parse_string(text, "a.cq");
    PBT_CHECK(p.errors.empty(), "not parsed: " << p.errors[0].what() << "\nfor:\n" << text);
    return ct::One<lib::syn::Program>{ p.root.get_ptr() };
}
static ct::One<lib::syn::Program> reread(const ct::One<lib::syn::Program>& p) {
    return ct::One<lib::syn::Program>{ ::tree::base::deserialize<lib::syn::Node>(::tree::base::serialize(p)) };
}
struct Told {
    std::string tree;  // without locations
    std::string errors;
    bool located = false;
};
// What a syntax tree says: it is to be as it was after an analysis.
static std::string written(const ct::One<lib::syn::Program>& p) { return ::tree::base::serialize(p); }

static Told told(const ct::One<lib::syn::Program>& p, bool with_locations = false) {
    auto analyzer = lib::v3::default_analyzer();
    lib::Form f;
    f.locations = with_locations;
    auto before = written(p);
    auto a = lib::take(analyzer.analyze(*p), f);
    PBT_CHECK(written(p) == before, "the analysis changes the syntax tree it is given");
    Told t;
    t.tree = a.tree.value_or("");
    for (auto& e : a.errors) {
        t.errors += (with_locations ? e.what : e.message) + "\n";
        t.located |= !(e.at == model::Span{}) || e.what.rfind("Error: ", 0) != 0 || e.file;
    }
    return t;
}
static void same(const Told& a, const Told& b, const std::string& what, const std::string& text) {
    PBT_CHECK(a.tree == b.tree && a.errors == b.errors, what << " gives\n" << a.errors << a.tree << "\ninstead of\n" << b.errors << b.tree << "\nfor:\n" << text);
}

static void program(Src& s, model::Program& p, std::size_t n) {
    progen::ProgramGen g{ s };
    switch (s.weighted({ 3, 3, 2 })) {
        case 0: g.valid(n); p = g.p; break;
        case 1:
            for (auto m = 1 + s.length(n); m > 0; --m) {
                s.chance(1, 3) ? (void)g.faulty_statement() : g.valid_statement();
            }
            p = g.p;
            break;
        default: p = decide::anything(s);
    }
}
// The location of something that is not there is no location.
static std::size_t located(const lib::sem::Program& p) {
    std::size_t n = p.block->has_annotation<lib::v3::parser::SourceLocation>() + p.version->has_annotation<lib::v3::parser::SourceLocation>();
    for (auto& st : p.block->statements) {
        n += st->has_annotation<lib::v3::parser::SourceLocation>();
    }
    for (auto& v : p.variables) {
        n += v->has_annotation<lib::v3::parser::SourceLocation>();
    }
    return n;
}

// ---------------------------------------------------------------------------------------------------------------------
// Annotations: no text can state them, but a syntax tree can have them, and the semantic tree is to have them, too.

struct Noted {
    std::string interface, operation;
    std::vector<std::string> operands;  // what they evaluate to
    std::vector<bool> rough;
    std::size_t faults = 0;
    std::uint32_t line = 0;  // where it is said to be; 0: nowhere
};
static void compare(const ct::Any<lib::sem::AnnotationData>& got, const std::vector<Noted>& want, const std::string& where) {
    PBT_CHECK(got.size() == want.size(), where << " has " << got.size() << " annotations instead of " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto& g = *got[i];
        PBT_CHECK(g.interface == want[i].interface && g.operation == want[i].operation,
            where << " has the annotation " << quote(g.interface) << "." << quote(g.operation) << " instead of " << quote(want[i].interface) << "." << quote(want[i].operation));
        auto at = g.get_annotation_ptr<lib::v3::parser::SourceLocation>();
        PBT_CHECK((at ? at->range.first.line : 0) == want[i].line, where << ": annotation is in line " << (at ? at->range.first.line : 0) << " instead of " << want[i].line);
        PBT_CHECK(g.operands.size() == want[i].operands.size(), where << ": annotation has " << g.operands.size() << " operands instead of " << want[i].operands.size());
        for (std::size_t j = 0; j < g.operands.size(); ++j) {
            auto* v = g.operands[j]->as_value_base();
            auto is = v ? lib::value(*v) : "no value";
            PBT_CHECK(lib::agree(want[i].operands[j], is, want[i].rough[j]), where << ": operand " << j << " is " << is << " instead of " << want[i].operands[j]);
        }
    }
}
struct Annotator {
    Src& s;
    std::size_t faults = 0, placed_faults = 0, total = 0;
    std::string show;

    void place(lib::syn::AnnotationData& d, Noted& a) {
        if (s.flip()) {
            a.line = 1 + static_cast<std::uint32_t>(s.draw(5000));
            d.set_annotation(lib::v3::parser::SourceLocation{ std::nullopt, { { a.line, 1 }, { a.line, 9 } } });
        }
        placed_faults += a.line ? a.faults : 0;
    }
    std::vector<Noted> annotate(lib::syn::Annotated& node, const oracle::World& w, const std::vector<std::string>& names, bool faulty) {
        std::vector<Noted> r;
        if (!s.chance(1, 3)) {
            return r;
        }
        progen::ExprGen g{ s, names };
        for (auto n = 1 + s.length(s.chance(1, 8) ? 12 : 3); n > 0; --n) {
            Noted a;
            a.interface = s.chance(1, 4) ? gen::text(s, 10) : progen::fresh_name(s);
            a.operation = s.chance(1, 4) ? gen::text(s, 10) : progen::fresh_name(s);
            model::Program p;
            auto call = decide::gate("Rx");
            for (auto m = s.length(s.chance(1, 6) ? 20 : 3); m > 0; --m) {
                auto e = s.chance(1, 4) && !names.empty() ? model::ident(s.pick(names)) : g.typed(s.pick(std::string{ "bif" }), 2);
                if (faulty && s.chance(1, 6)) {
                    e = s.flip() ? model::ident("nowhere") : model::make(model::Expr::binary, "/", { model::number(1), model::number(0) });
                }
                try {
                    auto v = oracle::eval(w, e);
                    a.operands.push_back(oracle::sem(v));
                    a.rough.push_back(v.rough);
                } catch (const oracle::Fault&) {
                    ++faults, ++a.faults;
                }
                call->params.push_back(e);
            }
            if (call->params.empty()) {
                auto d = ct::make<lib::syn::AnnotationData>();
                d->interface = ct::make<lib::syn::Identifier>(a.interface);
                d->operation = ct::make<lib::syn::Identifier>(a.operation);
                d->operands = ct::make<lib::syn::ExpressionList>();
                place(*d, a);
                node.annotations.add(d);
                show += " @" + a.interface + "." + a.operation;
            } else {
                p.stmts = { decide::apply(call, { model::ident("q") }) };
                auto text = model::text(p);
                auto root = parsed(text);
                auto d = ct::make<lib::syn::AnnotationData>();
                d->interface = ct::make<lib::syn::Identifier>(a.interface);
                d->operation = ct::make<lib::syn::Identifier>(a.operation);
                d->operands = root->block->statements[0]->as_gate_instruction()->gate->parameters;
                place(*d, a);
                node.annotations.add(d);
                show += " @" + a.interface + "." + a.operation + ": " + text;
            }
            ++total;
            r.push_back(a);
        }
        return r;
    }
};

int main(int argc, char** argv) {
    auto annotations = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(8);
        auto text = model::text(g.p);
        c.show = text;
        auto root = parsed(text);
        auto plain = told(root);
        PBT_CHECK(plain.errors.empty(), "rejected: " << plain.errors << "for:\n" << text);
        Annotator notes{ s };
        bool faulty = s.chance(1, 3);
        oracle::World w;
        std::vector<std::string> names;
        oracle::Result ignored;
        std::vector<std::vector<Noted>> variables, statements;
        std::vector<std::vector<std::vector<Noted>>> gates;  // of each statement, from the outermost modifier in
        for (std::size_t i = 0; i < g.p.stmts.size(); ++i) {
            auto& st = *root->block->statements[i];
            auto& into = st.as_variable() ? variables : statements;
            into.push_back(notes.annotate(st, w, names, faulty));
            if (!st.as_variable()) {
                gates.emplace_back();
                if (auto* gate = st.as_gate_instruction()) {
                    for (auto* inner = &*gate->gate; inner; inner = inner->gate.empty() ? nullptr : &*inner->gate) {
                        gates.back().push_back(notes.annotate(*inner, w, names, faulty));
                    }
                }
            }
            oracle::analyse(w, g.p.stmts[i], {}, ignored);
            if (g.p.stmts[i]->kind == model::Stmt::variable) {
                names.push_back(g.p.stmts[i]->name);
            }
        }
        c.show = text + notes.show;
        c.nontrivial = notes.total >= 2;
        c.label(notes.faults ? "faulty operands" : notes.total ? "annotated" : "no annotations");
        auto analyzer = lib::v3::default_analyzer();
        auto before = written(root);
        auto r = analyzer.analyze(*root);
        PBT_CHECK(written(root) == before, "the analysis changes the annotated syntax tree it is given");
        auto again = s.flip() ? analyzer.analyze(*root) : lib::v3::default_analyzer().analyze(*root);
        PBT_CHECK(again.errors.size() == r.errors.size(), again.errors.size() << " errors the second time instead of " << r.errors.size());
        for (std::size_t i = 0; i < r.errors.size(); ++i) {
            PBT_CHECK(std::string{ again.errors[i].what() } == r.errors[i].what(), "error " << i << " is " << again.errors[i].what() << " the second time instead of " << r.errors[i].what());
        }
        PBT_CHECK(r.errors.size() == notes.faults, r.errors.size() << " errors instead of " << notes.faults << (r.errors.empty() ? "" : r.errors[0].what()));
        if (notes.faults) {
            auto placed = std::count_if(r.errors.begin(), r.errors.end(), [](auto& e) { return std::string_view{ e.what() }.rfind("Error at ", 0) == 0; });
            PBT_CHECK(static_cast<std::size_t>(placed) >= notes.placed_faults, placed << " errors have a location, but " << notes.placed_faults << " are in an annotation that has one");
            return;
        }
        auto& tree = *r.root;
        PBT_CHECK(tree.variables.size() == variables.size() && tree.block->statements.size() == statements.size(), "another number of statements");
        for (std::size_t i = 0; i < variables.size(); ++i) {
            compare(tree.variables[i]->annotations, variables[i], "variable " + std::to_string(i));
            tree.variables[i]->annotations.reset();
        }
        for (std::size_t i = 0; i < statements.size(); ++i) {
            auto& st = *tree.block->statements[i];
            compare(st.annotations, statements[i], "statement " + std::to_string(i));
            st.annotations.reset();
            auto* gate = st.as_gate_instruction();
            std::size_t depth = 0;
            for (auto* inner = gate ? &*gate->gate : nullptr; inner; inner = inner->gate.empty() ? nullptr : &*inner->gate, ++depth) {
                PBT_CHECK(depth < gates[i].size(), "more gates than written");
                compare(inner->annotations, gates[i][depth], "statement " + std::to_string(i) + ", gate " + std::to_string(depth));
                inner->annotations.reset();
            }
            PBT_CHECK(depth == gates[i].size(), "fewer gates than written");
        }
        PBT_CHECK(lib::tree(tree, {}) == plain.tree, "apart from the annotations, the tree differs:\n" << lib::tree(tree, {}) << "instead of\n" << plain.tree);
    };
    auto forms = [](Src& s, Case& c) {
        model::Program p;
        program(s, p, 12);
        auto text = model::text(p);
        c.show = text;
        auto root = parsed(text);
        auto want = told(root), placed = told(root, true);
        c.nontrivial = p.stmts.size() >= 3;
        c.label(want.errors.empty() ? "accepted" : "rejected");
        auto clone = ct::One<lib::syn::Program>{ root.clone() };
        same(told(clone, true), placed, "a clone of the syntax tree", text);
        auto bare = reread(root);
        auto got = told(bare);
        same(got, want, "the syntax tree without locations", text);
        PBT_CHECK(!got.located, "without locations in the syntax tree, the errors have some:\n" << got.errors << "for:\n" << text);
        if (want.errors.empty()) {
            auto analyzer = lib::v3::default_analyzer();
            auto r = analyzer.analyze(*bare);
            PBT_CHECK(located(*r.root) == 0, "without locations in the syntax tree, the semantic tree has some, for:\n" << text);
        }
        // Locations in some statements only.
        auto mixed = ct::One<lib::syn::Program>{ root.clone() };
        for (std::size_t i = 0; i < mixed->block->statements.size(); ++i) {
            if (s.flip()) {
                mixed->block->statements[i] = bare->block->statements[i];
            }
        }
        same(told(mixed), want, "the syntax tree with locations in some statements only", text);
        same(told(root, true), placed, "the original syntax tree, afterwards,", text);
    };
    auto edits = [](Src& s, Case& c) {
        model::Program p, q;
        program(s, p, 8);
        auto p0 = model::text(p);
        auto root = parsed(p0);
        std::string did;
        for (auto n = 1 + s.length(4); n > 0; --n) {
            auto& l = root->block->statements.get_vec();
            PBT_CHECK(l.size() == p.stmts.size(), l.size() << " statements for:\n" << p0);
            auto i = s.index(p.stmts.size() + 1);
            auto at = [&](auto& v) { return v.begin() + static_cast<std::ptrdiff_t>(i); };
            switch (s.draw(5)) {
                case 0: {  // another program's statements come in
                    model::Program other;
                    program(s, other, 4);
                    auto o = parsed(model::text(other));
                    l.insert(at(l), o->block->statements.begin(), o->block->statements.end());
                    auto e = model::copy(other);
                    p.stmts.insert(at(p.stmts), e.stmts.begin(), e.stmts.end());
                    did += " insert";
                    break;
                }
                case 1: {  // a statement a second time
                    if (p.stmts.empty()) {
                        break;
                    }
                    auto j = s.index(p.stmts.size());
                    auto x = l[j].clone();
                    auto y = model::copy(p.stmts[j]);
                    l.insert(at(l), x);
                    p.stmts.insert(at(p.stmts), y);
                    did += " repeat";
                    break;
                }
                case 2:
                    if (i < p.stmts.size()) {
                        l.erase(at(l));
                        p.stmts.erase(at(p.stmts));
                        did += " remove";
                    }
                    break;
                case 3:
                    if (!p.stmts.empty()) {
                        auto j = s.index(p.stmts.size());
                        i = s.index(p.stmts.size());
                        std::swap(l[i], l[j]);
                        std::swap(p.stmts[i], p.stmts[j]);
                        did += " swap";
                    }
                    break;
                default: root = s.flip() ? reread(root) : ct::One<lib::syn::Program>{ root.clone() }; did += " reread";
            }
        }
        auto text = model::text(p);
        c.show = p0 + "after" + did + ":\n" + text;
        c.label(did.substr(0, did.find(' ', 1)));
        auto got = told(root), want = told(parsed(text));
        c.nontrivial = p.stmts.size() >= 3 && text != p0;
        c.label(want.errors.empty() ? "accepted" : "rejected");
        same(got, want, "the edited syntax tree", c.show);
    };
    return run(argc, argv, "C34",
        "syntax trees of generated programs: cloned, written and read, without locations, edited statement by statement; non-trivial: at least three statements (and edited into something else)",
        { { "clones, trees without locations", forms, 4000, 80000 }, { "edited trees", edits, 4000, 80000 },
            { "annotations", annotations, 3000, 60000 } });
}
