// The library's trees, written down the way oracle.hpp writes what is expected.
#pragma once

#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/instruction_set.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/syntactic.hpp"
#include "libqasm/v3x/values.hpp"
#include "oracle.hpp"

namespace lib {
namespace v3 = cqasm::v3x;
namespace syn = cqasm::v3x::syntactic;
namespace sem = cqasm::v3x::semantic;
namespace val = cqasm::v3x::values;
namespace typ = cqasm::v3x::types;
using SL = cqasm::annotations::SourceLocation;
using oracle::Form;
using oracle::hex;

template <class N>
std::string at(const N& n, const Form& f) {
    if (!f.locations) {
        return "";
    }
    auto* a = n.template get_annotation_ptr<SL>();
    if (!a) {
        return "@none";
    }
    if (f.file) {
        PBT_CHECK(a->file_name.value_or("") == *f.file,
            "a node's file name is " << pbt::quote(a->file_name.value_or("<none>")) << " instead of " << pbt::quote(*f.file));
    }
    return model::show({ a->range.first.line, a->range.first.column, a->range.last.line, a->range.last.column });
}

inline std::string expr(const syn::Expression& e, const Form& f);
inline std::string list(const syn::ExpressionList& l, const Form& f) {
    std::string r = "(";
    for (auto& e : l.items) {
        r += (r.size() > 1 ? " " : "") + expr(*e, f);
    }
    return r + ")";
}
inline std::string expr(const syn::Expression& e, const Form& f) {
    if (auto* x = e.as_boolean_literal()) {
        return std::string{ "bool:" } + (x->value ? "true" : "false") + at(e, f);
    }
    if (auto* x = e.as_integer_literal()) {
        return "int:" + std::to_string(x->value) + at(e, f);
    }
    if (auto* x = e.as_float_literal()) {
        return "real:" + hex(x->value) + at(e, f);
    }
    if (auto* x = e.as_identifier()) {
        return "name:" + x->name + at(e, f);
    }
    if (auto* x = e.as_index()) {
        auto* id = x->expr->as_identifier();
        std::string r = "index:" + (id ? id->name : "(" + expr(*x->expr, f) + ")") + at(e, f) + "[";
        for (auto& i : x->indices->items) {
            r += r.back() == '[' ? "" : " ";
            if (auto* item = i->as_index_item()) {
                r += expr(*item->index, f);
            } else if (auto* range = i->as_index_range()) {
                r += expr(*range->first, f) + ".." + expr(*range->last, f);
            } else {
                r += "?";
            }
        }
        return r + "]";
    }
    if (auto* x = e.as_function_call()) {
        return "call:" + x->name->name + at(e, f) + (x->arguments.empty() ? "()" : list(*x->arguments, f));
    }
    if (auto* x = e.as_unary_expression()) {
        std::string op = e.as_unary_minus_expression() ? "-" : e.as_bitwise_not_expression() ? "~" :
            e.as_logical_not_expression() ? "!" : "?";
        return "(" + op + at(e, f) + " " + expr(*x->expr, f) + ")";
    }
    if (auto* x = e.as_binary_expression()) {
        std::string op = e.as_power_expression() ? "**" : e.as_product_expression() ? "*" : e.as_division_expression() ? "/" :
            e.as_modulo_expression() ? "%" : e.as_addition_expression() ? "+" : e.as_subtraction_expression() ? "-" :
            e.as_shift_left_expression() ? "<<" : e.as_shift_right_expression() ? ">>" : e.as_cmp_gt_expression() ? ">" :
            e.as_cmp_lt_expression() ? "<" : e.as_cmp_ge_expression() ? ">=" : e.as_cmp_le_expression() ? "<=" :
            e.as_cmp_eq_expression() ? "==" : e.as_cmp_ne_expression() ? "!=" : e.as_bitwise_and_expression() ? "&" :
            e.as_bitwise_xor_expression() ? "^" : e.as_bitwise_or_expression() ? "|" : e.as_logical_and_expression() ? "&&" :
            e.as_logical_xor_expression() ? "^^" : e.as_logical_or_expression() ? "||" : "?";
        return "(" + op + at(e, f) + " " + expr(*x->lhs, f) + " " + expr(*x->rhs, f) + ")";
    }
    if (auto* x = e.as_ternary_conditional_expression()) {
        return "(?" + at(e, f) + " " + expr(*x->cond, f) + " " + expr(*x->if_true, f) + " " + expr(*x->if_false, f) + ")";
    }
    return "?";
}
inline std::string gate(const syn::Gate& g, const Form& f) {
    return g.name->name + at(g, f) + list(*g.parameters, f) + (g.gate.empty() ? "" : "." + gate(*g.gate, f));
}
inline std::string statement(const syn::Statement& s, const Form& f) {
    if (!s.annotations.empty()) {
        return "annotated statement";
    }
    if (auto* x = s.as_variable()) {
        return "variable " + x->typ->name->name +
            (x->typ->size.empty() ? "" : "[" + std::to_string(x->typ->size->value) + "]") + at(*x->typ, f) + " " +
            x->name->name + at(*x, f);
    }
    if (auto* x = s.as_gate_instruction()) {
        return "gate" + at(*x, f) + " " + gate(*x->gate, f) + " " + list(*x->operands, f);
    }
    if (auto* x = s.as_non_gate_instruction()) {
        return "do " + x->name->name + at(*x, f) + list(*x->parameters, f) + " " + list(*x->operands, f);
    }
    if (auto* x = s.as_asm_declaration()) {
        return "asm " + x->backend_name->name + " " + pbt::quote(x->backend_code);
    }
    return "?";
}
inline std::string version_items(const cqasm::v3x::primitives::Version& v) {
    std::string r;
    for (auto i : v) {
        r += (r.empty() ? "" : ".") + std::to_string(i);
    }
    return r;
}
inline std::string tree(const syn::Program& p, const Form& f) {
    std::string r = "version " + version_items(p.version->items) + at(*p.version, f) + "\n";
    for (auto& s : p.block->statements) {
        r += statement(*s, f) + "\n";
    }
    return r;
}

// ------------------------------------------------------------------------------------------------------------------

inline std::string type(const typ::TypeBase& t) {
    auto n = "[" + std::to_string(t.size) + "]";
    return t.as_qubit() ? "qubit" + (t.size == 1 ? "" : "!" + n) : t.as_bit() ? "bit" + (t.size == 1 ? "" : "!" + n) :
        t.as_qubit_array() ? "qubit" + n : t.as_bit_array() ? "bit" + n : t.as_bool() ? "bool" : t.as_int() ? "int" :
        t.as_float() ? "float" : "?";
}
inline char letter(const typ::TypeBase& t) {
    return t.as_qubit() ? 'Q' : t.as_bit() ? 'B' : t.as_qubit_array() ? 'V' : t.as_bit_array() ? 'W' : t.as_bool() ? 'b' :
        t.as_int() ? 'i' : t.as_float() ? 'f' : '?';
}
inline std::string value(const val::ValueBase& v) {
    if (auto* x = v.as_const_bool()) {
        return x->value ? "true" : "false";
    }
    if (auto* x = v.as_const_int()) {
        return "int " + std::to_string(x->value);
    }
    if (auto* x = v.as_const_float()) {
        return "real " + hex(x->value);
    }
    if (auto* x = v.as_variable_ref()) {
        return x->variable->name + ":" + type(*x->variable->typ);
    }
    if (auto* x = v.as_index_ref()) {
        std::string r = x->variable->name + ":" + type(*x->variable->typ) + "{";
        for (auto& i : x->indices) {
            r += (r.back() == '{' ? "" : ",") + std::to_string(i->value);
        }
        return r + "}";
    }
    return "?";
}
inline std::string values(const cqasm::tree::Any<val::ValueBase>& vs, const Form& f) {
    std::string r = "(";
    for (auto& v : vs) {
        r += (r.size() > 1 ? " " : "") + value(*v) + at(*v, f);
    }
    return r + ")";
}
inline std::string gate(const sem::Gate& g, const Form& f) {
    return g.name + at(g, f) + values(g.parameters, f) + (g.gate.empty() ? "" : "." + gate(*g.gate, f));
}
inline std::string reference(const v3::instruction::InstructionRef& r) {
    if (r.empty()) {
        return "unresolved";
    }
    std::string t = r->name + ":";
    for (auto& o : r->operand_types) {
        t += letter(*o);
    }
    return t;
}
inline std::string statement(const sem::Statement& s, const Form& f) {
    if (!s.annotations.empty()) {
        return "annotated statement";
    }
    if (auto* x = s.as_gate_instruction()) {
        return "gate" + at(*x, f) + " " + reference(x->instruction_ref) + " " + gate(*x->gate, f) + " " + values(x->operands, f);
    }
    if (auto* x = s.as_non_gate_instruction()) {
        return "do" + at(*x, f) + " " + reference(x->instruction_ref) + " " + x->name + values(x->parameters, f) + " " +
            values(x->operands, f);
    }
    if (auto* x = s.as_asm_declaration()) {
        return "asm " + x->backend_name + " " + pbt::quote(x->backend_code);
    }
    return "?";
}
inline std::string tree(const sem::Program& p, const Form& f) {
    std::string r = "api " + version_items(p.api_version) + "\nversion " + version_items(p.version->items) + at(*p.version, f) + "\n";
    for (auto& v : p.variables) {
        r += "variable " + type(*v->typ) + " " + v->name + at(*v, f) + "\n";
    }
    for (auto& s : p.block->statements) {
        r += statement(*s, f) + "\n";
    }
    return r;
}
inline std::string dump(const syn::Node& n) {
    std::ostringstream o;
    n.dump(o);
    return o.str();
}
inline std::string dump(const sem::Node& n) {
    std::ostringstream o;
    n.dump(o);
    return o.str();
}

// ------------------------------------------------------------------------------------------------------------------

struct Err {
    std::string message;              // without the location
    std::string what;                 // as text
    std::string json;
    model::Span at;                   // not set: no location
    std::optional<std::string> file;  // decoded
};
inline Err err(const cqasm::error::Error& e) {
    Err r;
    r.what = e.what();
    r.json = e.to_json();
    gen::Json j = gen::read_json(r.json);
    auto number = [](const gen::Json& n) { return static_cast<std::uint32_t>(std::stoull(n.num())); };
    auto &first = j.at("range").at("start"), &last = j.at("range").at("end");
    r.message = j.at("message").str();
    r.at = { number(first.at("line")), number(first.at("character")), number(last.at("line")), number(last.at("character")) };
    if (j.has("relatedInformation")) {
        auto uri = j.at("relatedInformation").a.at(0).at("location").at("uri").str();
        PBT_CHECK(uri.rfind("file:///", 0) == 0, "an error's uri is " << uri);
        r.file = gen::url_decode(uri.substr(8));
    }
    return r;
}
template <class Errors>
std::vector<Err> errs(const Errors& es) {
    std::vector<Err> r;
    for (auto& e : es) {
        r.push_back(err(e));
    }
    return r;
}
inline std::string show(const std::vector<Err>& es) {
    std::string r;
    for (auto& e : es) {
        r += e.what + "\n";
    }
    return r;
}

struct Parsed {
    std::optional<std::string> tree;  // absent when there are errors
    std::vector<Err> errors;
    v3::parser::ParseResult result;
};
inline Parsed take(v3::parser::ParseResult res, const Form& f = {}) {
    Parsed r;
    r.result = std::move(res);
    r.errors = errs(r.result.errors);
    if (r.errors.empty()) {
        PBT_CHECK(!r.result.root.empty(), "neither a tree nor an error");
        auto* p = r.result.root->as_program();
        PBT_CHECK(p, "the syntax tree's root is no program");
        r.tree = tree(*p, f);
    }
    return r;
}
inline Parsed parse(const std::string& text, const Form& f = {}, const std::optional<std::string>& name = std::nullopt) {
    return take(v3::parser::parse_string(text, name), f);
}
struct Analysed {
    std::optional<std::string> tree;
    std::vector<Err> errors;
    v3::analyzer::AnalysisResult result;
};
inline Analysed take(v3::analyzer::AnalysisResult res, const Form& f = {}) {
    Analysed r;
    r.result = std::move(res);
    r.errors = errs(r.result.errors);
    if (r.errors.empty()) {
        PBT_CHECK(!r.result.root.empty(), "neither a tree nor an error");
        r.tree = tree(*r.result.root, f);
    }
    return r;
}
inline Analysed analyse(const std::string& text, const Form& f = {}, const std::optional<std::string>& name = std::nullopt) {
    return take(v3::default_analyzer().analyze_string(text, name), f);
}
// What came out, as one text: the tree or the messages.
template <class R>
std::string outcome(const R& r) {
    return r.tree ? *r.tree : show(r.errors);
}
inline std::string messages(const std::vector<Err>& es) {
    std::string r;
    for (auto& e : es) {
        r += e.message + "\n";
    }
    return r;
}

// Whether two written trees agree; with rough set, numbers may differ in their last bits.
inline bool agree(const std::string& a, const std::string& b, bool rough) {
    if (a == b) {
        return true;
    }
    if (!rough) {
        return false;
    }
    std::size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (a.compare(i, 5, "real ") == 0 && b.compare(j, 5, "real ") == 0) {
            char *e, *g;
            double x = std::strtod(a.c_str() + i + 5, &e), y = std::strtod(b.c_str() + j + 5, &g);
            i = static_cast<std::size_t>(e - a.c_str());
            j = static_cast<std::size_t>(g - b.c_str());
            if (!(x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-14 * std::fabs(x))) {
                return false;
            }
            continue;
        }
        if (a[i++] != b[j++]) {
            return false;
        }
    }
    return i == a.size() && j == b.size();
}

}  // namespace lib
