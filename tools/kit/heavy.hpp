#pragma once
#include "light.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/parse_helper.hpp"

namespace v3x = cqasm::v3x;
namespace sem = cqasm::v3x::semantic;
namespace val = cqasm::v3x::values;
using Result = cqasm::v3x::analyzer::AnalysisResult;

inline Result analyse(const std::string& text, const std::optional<std::string>& file = std::nullopt) {
    auto analyzer = v3x::default_analyzer("3.0");
    return analyzer.analyze_string(text, file);
}
inline Result program(const std::string& statements) { return analyse("version 3.0; qubit[5] q; bit[5] b; " + statements); }
inline bool accepted(const std::string& statements) { return program(statements).errors.empty(); }
inline std::string json(const Result& r) { return r.to_json(); }
inline std::string json(const std::string& statements) { return program(statements).to_json(); }
inline std::string parsed(const std::string& text, const std::optional<std::string>& file = std::nullopt) {
    return v3x::parser::parse_string(text, file).to_json();
}
inline std::string text_of(const Result& r, std::size_t i = 0) { return i < r.errors.size() ? r.errors[i].what() : ""; }
inline bool has(const std::string& s, const std::string& part) { return s.find(part) != std::string::npos; }
/** The value of the only parameter of the gate in "Rx(expression) q[0]". */
inline double number(const std::string& expression) {
    auto r = program("Rx(" + expression + ") q[0]");
    if (!r.errors.empty()) {
        std::cerr << text_of(r) << "\n";
        return -12345.678;
    }
    return r.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->as_const_float()->value;
}
