// C14: primitives and trees survive serialization; copies and clones are equal.
#include "libqasm/v3x/core_function.hpp"
#include "lib.hpp"
#include "progen.hpp"
using namespace pbt;
namespace prim = cqasm::v3x::primitives;
namespace typ = lib::typ;
namespace ct = cqasm::tree;

template <class T>
std::string write(const T& x) {
    std::ostringstream o;
    ::tree::cbor::Writer w{ o };
    auto m = w.start();
    prim::serialize<T>(x, m);
    m.close();
    return o.str();
}
template <class T>
T read(const std::string& t) {
    return prim::deserialize<T>(::tree::cbor::Reader{ t }.as_map());
}
template <class T, class Same>
void primitive(const T& x, const std::string& shown, Same same) {
    auto bytes = write(x);
    auto y = read<T>(bytes);
    PBT_CHECK(same(x, y), "reading back gives something else: " << shown);
    PBT_CHECK(write(y) == bytes, "writing again gives other bytes: " << shown);
}
static bool same_real(double a, double b) {
    return lib::hex(a) == lib::hex(b);
}
static typ::Type type(Src& s, std::string& show) {
    static const std::string l = "QBVWbif";
    char c = s.pick(l);
    auto size = s.flip() ? 0 : gen::i64(s);
    show += c + std::to_string(size);
    auto t = typ::from_spec(c);
    t->as_type_base()->size = size;
    return t;
}

template <class Root, class Form>
void check_tree(const Root& root, const std::string& written, const std::string& text, Form again) {
    auto bytes = ::tree::base::serialize(root);
    auto back = again(bytes);
    auto shown = lib::tree(*back, { });
    PBT_CHECK(shown == written, "the tree read back:\n" << shown << "is not\n" << written << "for:\n" << text);
    PBT_CHECK(::tree::base::serialize(back) == bytes, "serializing the tree read back gives other bytes, for:\n" << text);
}

int main(int argc, char** argv) {
    auto values = [](Src& s, Case& c) {
        switch (s.draw(9)) {
            case 0: {
                auto x = s.chance(1, 20) ? gen::stretched(s, gen::bytes(s, 8), gen::bytes(s, 8)) : s.flip() ? gen::bytes(s, 300) : gen::text(s, 300);
                c.show = "text " + quote(x.substr(0, 2000));
                c.nontrivial = !x.empty();
                primitive<prim::Str>(x, c.show, [](auto& a, auto& b) { return a == b; });
                break;
            }
            case 1: {
                bool x = s.flip();
                c.show = x ? "true" : "false";
                primitive<prim::Bool>(x, c.show, [](auto a, auto b) { return a == b; });
                break;
            }
            case 2: {
                auto x = gen::i64(s);
                c.show = "int " + std::to_string(x);
                c.nontrivial = x > 23 || x < -24;
                primitive<prim::Int>(x, c.show, [](auto a, auto b) { return a == b; });
                break;
            }
            case 3: {
                auto x = gen::real(s);
                c.show = "real " + lib::hex(x);
                c.nontrivial = true;
                primitive<prim::Float>(x, c.show, same_real);
                break;
            }
            case 4: {
                prim::Complex x{ gen::real(s), gen::real(s) };
                c.show = "complex " + lib::hex(x.real()) + " " + lib::hex(x.imag());
                c.nontrivial = true;
                primitive<prim::Complex>(x, c.show, [](auto& a, auto& b) { return same_real(a.real(), b.real()) && same_real(a.imag(), b.imag()); });
                break;
            }
            case 5: {
                prim::Axis x{ gen::real(s), gen::real(s), gen::real(s) };
                c.show = "axis " + lib::hex(x.x) + " " + lib::hex(x.y) + " " + lib::hex(x.z);
                c.nontrivial = true;
                primitive<prim::Axis>(x, c.show, [](auto& a, auto& b) { return same_real(a.x, b.x) && same_real(a.y, b.y) && same_real(a.z, b.z); });
                break;
            }
            case 6: {
                prim::Version x{ "0" };
                x.resize(s.chance(1, 40) ? (std::size_t{ 1 } << s.draw(18)) + s.draw(3) - 1 : s.length(8));
                c.show = "version";
                for (auto& k : x) {
                    k = gen::i64(s);
                    c.show += c.show.size() < 2000 ? " " + std::to_string(k) : "";
                }
                c.nontrivial = x.size() >= 2;
                primitive<prim::Version>(x, c.show, [](auto& a, auto& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); });
                break;
            }
            case 7: {
                namespace ins = cqasm::v3x::instruction;
                ins::InstructionRef x;
                c.show = "no instruction";
                if (!s.chance(1, 12)) {
                    auto i = ct::make<ins::Instruction>(s.flip() ? gen::text(s, 40) : progen::fresh_name(s), "");
                    c.show = "instruction " + quote(i->name) + " ";
                    for (auto n = s.length(20); n > 0; --n) {
                        i->operand_types.add(type(s, c.show));
                    }
                    c.nontrivial = !i->operand_types.empty();
                    x = i;
                }
                primitive<ins::InstructionRef>(x, c.show, [](auto& a, auto& b) {
                    return a.empty() || b.empty() ? a.empty() && b.empty() : *a == *b && a->operand_types.equals(b->operand_types) && a->name == b->name;
                });
                break;
            }
            default: {
                namespace fun = cqasm::v3x::function;
                fun::CoreFunctionRef x;
                c.show = "no function";
                if (!s.chance(1, 12)) {
                    auto i = ct::make<fun::CoreFunction>();
                    i->name = s.flip() ? gen::text(s, 40) : progen::fresh_name(s);
                    c.show = "function " + quote(i->name) + " ";
                    i->return_type = type(s, c.show);
                    for (auto n = s.length(20); n > 0; --n) {
                        i->param_types.add(type(s, c.show));
                    }
                    c.nontrivial = !i->param_types.empty();
                    x = i;
                }
                primitive<fun::CoreFunctionRef>(x, c.show, [](auto& a, auto& b) {
                    return a.empty() || b.empty() ? a.empty() && b.empty() :
                        *a == *b && a->name == b->name && a->param_types.equals(b->param_types) && a->return_type.equals(b->return_type);
                });
            }
        }
        c.label(c.show.substr(0, c.show.find(' ')));
    };
    // References are equal exactly when name and types are.
    auto references = [](Src& s, Case& c) {
        namespace ins = cqasm::v3x::instruction;
        namespace fun = cqasm::v3x::function;
        static const std::string l = "QBVWbif";
        auto word = [&](std::size_t max) {
            std::string r;
            for (auto n = s.draw(max + 1); n > 0; --n) {
                r += s.pick(l);
            }
            return r;
        };
        auto n1 = s.pick(std::vector<std::string>{ "x", "X", "xx", "" }), n2 = s.flip() ? n1 : s.pick(std::vector<std::string>{ "x", "X", "xx", "" });
        auto t1 = word(3), t2 = s.flip() ? t1 : word(3);
        char r1 = s.pick(l), r2 = s.flip() ? r1 : s.pick(l);
        c.show = n1 + "(" + t1 + ")" + r1 + " " + n2 + "(" + t2 + ")" + r2;
        c.nontrivial = n1 + t1 + r1 != n2 + t2 + r2;
        bool same = n1 == n2 && t1 == t2;
        ins::Instruction a{ n1, t1 }, b{ n2, t2 };
        PBT_CHECK((a == b) == same && (a != b) != same && (b == a) == same, "equality of instructions " << c.show);
        fun::CoreFunction f{ n1, t1, r1 }, g{ n2, t2, r2 };
        bool fsame = same && r1 == r2;
        PBT_CHECK((f == g) == fsame && (f != g) != fsame && (g == f) == fsame, "equality of functions " << c.show);
    };
    auto trees = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(25);
        auto text = model::text(g.p);
        c.show = text;
        c.nontrivial = g.p.stmts.size() >= 3;
        auto parsed = lib::parse(text);
        PBT_CHECK(parsed.tree, "a valid program is not parsed:\n" << text);
        auto a = lib::analyse(text);
        PBT_CHECK(a.tree, "a valid program is rejected:\n" << text << "\n" << lib::show(a.errors));
        auto syn_root = ct::One<lib::syn::Program>{ parsed.result.root.get_ptr() };
        check_tree(syn_root, *parsed.tree, text, [](const std::string& b) {
            return ct::One<lib::syn::Program>{ ::tree::base::deserialize<lib::syn::Node>(b) };
        });
        check_tree(a.result.root, *a.tree, text, [](const std::string& b) {
            return ct::One<lib::sem::Program>{ ::tree::base::deserialize<lib::sem::Node>(b) };
        });
        // Copies. A NaN is equal to nothing, so trees that have one are compared as written only.
        bool nan = a.tree->find("nan") != std::string::npos;
        auto bytes = ::tree::base::serialize(a.result.root);
        auto clone = ct::One<lib::sem::Program>{ a.result.root.clone() };
        PBT_CHECK(lib::tree(*clone, { }) == *a.tree, "a clone differs, for:\n" << text);
        PBT_CHECK(nan || clone.equals(a.result.root), "a clone is not equal, for:\n" << text);
        auto shallow = ct::One<lib::sem::Program>{ a.result.root->copy() };
        PBT_CHECK(lib::tree(*shallow, { }) == *a.tree, "a copy differs, for:\n" << text);
        PBT_CHECK(nan || shallow.equals(a.result.root), "a copy is not equal, for:\n" << text);
        auto sclone = ct::One<lib::syn::Program>{ syn_root.clone() };
        PBT_CHECK(lib::tree(*sclone, { }) == *parsed.tree && sclone.equals(syn_root), "a clone of the syntax tree differs, for:\n" << text);
        // A clone shares nothing: changing it leaves the original.
        if (!clone->block->statements.empty()) {
            auto k = s.index(clone->block->statements.size());
            auto& st = *clone->block->statements[k];
            if (auto* x = st.as_gate_instruction()) {
                x->gate->name += "?";
            } else if (auto* y = st.as_non_gate_instruction()) {
                y->name += "?";
            } else if (auto* z = st.as_asm_declaration()) {
                z->backend_code += "?";
            }
            PBT_CHECK(!clone.equals(a.result.root), "equality does not see a change, for:\n" << text);
            PBT_CHECK(lib::tree(*a.result.root, { }) == *a.tree && ::tree::base::serialize(a.result.root) == bytes, "changing a clone changed the original, for:\n" << text);
        }
        // The strings that are handed to other languages are that serialization.
        auto strings = a.result.to_strings();
        PBT_CHECK(strings.size() == 1 && strings[0] == bytes, "to_strings is not the serialized tree, for:\n" << text);
    };
    return run(argc, argv, "C14", "primitive values of all kinds, pairs of references, trees of generated programs; non-trivial: "
        "a value longer than one byte's worth, differing references, at least three statements",
        { { "primitives", values, 60000, 2000000 }, { "references", references, 20000, 200000 }, { "trees", trees, 1500, 30000 } });
}
