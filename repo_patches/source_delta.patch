From 3e3fdec3394121393f4296003de2bdb56e3333f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 01/14] fix: json_encode must not escape bytes of non-ASCII
 characters

With a signed char, bytes from 0x80 on compared below 0x1f and were written as
"\u-03D" and the like, which is no JSON and loses the text.
---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..eab3723 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From bdae60bd9cb044f3b78b3da8016dc642fec02085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 02/14] fix: read instruction references in Python under the
 keys that C++ writes

The library serializes an instruction reference as 'name' and 'operand_types';
primitives.py looked for 'n' and 't', so every reference came out unresolved.
---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..879d11f 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                val['name'],
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0


From a4cdf8b3cc25aee7d31dd644d5be78f4c0acfbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:51 +0000
Subject: [PATCH 03/14] fix: report indexation of a constant instead of
 dereferencing a null pointer

---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..bd2d0a5 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (!variable_ref_ptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From fefd0943b28cf7475539b18df175d94d54e22893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 04/14] fix: define integer overflow in constant expressions,
 and report division by zero and invalid shifts

An integer division by zero (or of the smallest integer by -1) in a program ended the process with a signal.
Signed overflow and shifts by a negative or too large count had undefined behaviour.
---
 .../v3x/register_consteval_core_functions.hpp | 75 ++++++++++++++++---
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..23c7d26 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -1,9 +1,12 @@
 #pragma once
 
 #include <cmath>
+#include <cstdint>
 #include <functional>
+#include <limits>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -72,19 +75,67 @@ struct tf_cp : public f_cp<ParamValue, ParamValue, F> {
     }
 };
 
+/**
+ * Integer arithmetic wraps around on overflow (two's complement).
+ * It is done on unsigned integers, for which that is well defined.
+ */
+static_assert(sizeof(primitives::Int) == sizeof(std::uint64_t));
+inline constexpr auto int_neg = [](primitives::Int a) {
+    return static_cast<primitives::Int>(0 - static_cast<std::uint64_t>(a));
+};
+inline constexpr auto int_add = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(static_cast<std::uint64_t>(a) + static_cast<std::uint64_t>(b));
+};
+inline constexpr auto int_sub = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(static_cast<std::uint64_t>(a) - static_cast<std::uint64_t>(b));
+};
+inline constexpr auto int_mul = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(static_cast<std::uint64_t>(a) * static_cast<std::uint64_t>(b));
+};
+inline constexpr auto int_abs = [](primitives::Int a) { return a < 0 ? int_neg(a) : a; };
+
+/**
+ * Throws if the quotient of the given integers is not an integer.
+ */
+inline void check_int_division(primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    if (a == std::numeric_limits<primitives::Int>::min() && b == -1) {
+        throw error::AnalysisError{ "integer overflow in division" };
+    }
+}
+inline constexpr auto int_div = [](primitives::Int a, primitives::Int b) {
+    check_int_division(a, b);
+    return a / b;
+};
+inline constexpr auto int_mod = [](primitives::Int a, primitives::Int b) {
+    check_int_division(a, b);
+    return a % b;
+};
+
+/**
+ * Throws if the given integer is not a valid number of bits to shift an integer by.
+ */
+inline void check_shift_count(primitives::Int b) {
+    if (b < 0 || b >= std::numeric_limits<std::uint64_t>::digits) {
+        throw error::AnalysisError{ "shift count is negative or too large" };
+    }
+}
+
 constexpr auto op_neg_f = uf_cp<values::ConstFloat, values::ConstFloat, std::negate<double>{}>{};
-constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, std::negate{}>{};
+constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, int_neg>{};
 
 constexpr auto op_add_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::plus{}>{};
-constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, std::plus{}>{};
+constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, int_add>{};
 constexpr auto op_sub_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::minus{}>{};
-constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{}>{};
+constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, int_sub>{};
 
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
-constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
+constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, int_mul>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, int_div>{};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, int_mod>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
@@ -115,9 +166,15 @@ constexpr auto op_band_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_a
 constexpr auto op_bxor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_xor{}>{};
 constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};
 
-inline constexpr auto shl = [](primitives::Int a, primitives::Int b) { return a << b; };
+inline constexpr auto shl = [](primitives::Int a, primitives::Int b) {
+    check_shift_count(b);
+    return a << b;
+};
 constexpr auto op_shl_ii = bf_cp<values::ConstInt, values::ConstInt, shl>{};
-inline constexpr auto shr = [](primitives::Int a, primitives::Int b) { return a >> b; };
+inline constexpr auto shr = [](primitives::Int a, primitives::Int b) {
+    check_shift_count(b);
+    return a >> b;
+};
 constexpr auto op_shr_ii = bf_cp<values::ConstInt, values::ConstInt, shr>{};
 
 constexpr auto op_linv_b = uf_cp<values::ConstBool, values::ConstBool, std::logical_not{}>{};
@@ -163,7 +220,7 @@ inline constexpr auto atanh = [](auto num) { return std::atanh(num); };
 constexpr auto fn_atanh_f = uf_cp<values::ConstFloat, values::ConstFloat, atanh>{};
 inline constexpr auto abs = [](auto num) { return std::abs(num); };
 constexpr auto fn_abs_f = uf_cp<values::ConstFloat, values::ConstFloat, abs>{};
-constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs>{};
+constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, int_abs>{};
 
 /**
  * Registers a bunch of consteval core functions.
-- 
2.43.0


From 3e2924f682fba7735b731354aad24bc0abff9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:03 +0000
Subject: [PATCH 05/14] fix: do not expand an index range beyond the first
 index out of range

The range was expanded before it was checked, so that a range such as q[0:9223372036854775806] exhausted memory.
---
 include/libqasm/v3x/semantic_analyzer.hpp |  5 +++++
 src/v3x/semantic_analyzer.cpp             | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libqasm/v3x/semantic_analyzer.hpp b/include/libqasm/v3x/semantic_analyzer.hpp
index 0260b4c..8abda11 100644
--- a/include/libqasm/v3x/semantic_analyzer.hpp
+++ b/include/libqasm/v3x/semantic_analyzer.hpp
@@ -21,6 +21,11 @@ protected:
     Analyzer& analyzer_;
     AnalysisResult result_;
 
+    /**
+     * Size of the array whose indices are being visited.
+     */
+    primitives::Int array_size_{ 0 };
+
 public:
     explicit SemanticAnalyzer(Analyzer& analyzer);
 
diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index bd2d0a5..34074fa 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>  // any_of, for_each, transform
 #include <any>
 #include <iterator>  // back_inserter
+#include <utility>  // exchange
 
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/instruction.hpp"
@@ -585,8 +586,11 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
+            const auto array_size = types::size_of(variable_type);
+            const auto outer_array_size = std::exchange(array_size_, array_size);
             auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
-            check_out_of_range(indices, types::size_of(variable_type));
+            array_size_ = outer_array_size;
+            check_out_of_range(indices, array_size);
             auto ret = tree::make<values::IndexRef>(variable_link, indices);
             return values::Value{ ret };
         } else {
@@ -633,6 +637,11 @@ std::any SemanticAnalyzer::visit_index_range(syntactic::IndexRange& index_range_
         auto index_value_sp = tree::make<IndexT>(index);
         index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);
         ret.add(index_value_sp);
+        // One index out of range is enough for the whole list to be rejected
+        // Do not expand the range any further, since it can be arbitrarily long
+        if (index < 0 || index >= array_size_) {
+            break;
+        }
     }
     return ret;
 }
-- 
2.43.0


From 0cd2aa2f8637a7ae120e5cc86459a2e5504d4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 06/14] fix: an analysis must not leave its variables and
 statements in the analyzer

As documented, the only state maintained by an Analyzer is its configuration. A second analysis used to see the
variables of the first one, and to add its own variables and statements to the tree returned by the first one.
---
 src/v3x/analyzer.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..848bb96 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -81,10 +81,40 @@ void Analyzer::register_default_instructions() {
     instruction::register_instructions(this);
 }
 
+/**
+ * Lets the current scope take the variables and statements of a program,
+ * and brings it back to its initial configuration at the end.
+ */
+class ProgramScope {
+    Scope& scope_;
+    const resolver::VariableTable variable_table_;
+    const tree::One<semantic::Block> block_;
+    const tree::Any<semantic::Variable> variables_;
+
+public:
+    explicit ProgramScope(Scope& scope)
+    : scope_{ scope }
+    , variable_table_{ scope.variable_table }
+    , block_{ scope.block }
+    , variables_{ scope.variables } {
+        scope_.block = tree::make<semantic::Block>(*block_);
+    }
+    ProgramScope(const ProgramScope&) = delete;
+    ProgramScope& operator=(const ProgramScope&) = delete;
+    ~ProgramScope() {
+        scope_.variable_table = variable_table_;
+        scope_.block = block_;
+        scope_.variables = variables_;
+    }
+};
+
 /**
  * Analyzes the given AST.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
+    // The variables and statements of this program are of no concern to the next one
+    const auto program_scope = ProgramScope{ current_scope() };
+
     auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
     auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
     if (result.errors.empty()) {
-- 
2.43.0


From 55d4e528dffe26d4e508fdec9a0354f8feb50d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:26 +0000
Subject: [PATCH 07/14] fix: end of an offending token with non-ASCII text is
 counted in characters

---
 src/v3x/antlr_custom_error_listener.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v3x/antlr_custom_error_listener.cpp b/src/v3x/antlr_custom_error_listener.cpp
index c3e6de7..1cfa1ab 100644
--- a/src/v3x/antlr_custom_error_listener.cpp
+++ b/src/v3x/antlr_custom_error_listener.cpp
@@ -25,8 +25,9 @@ void AntlrCustomErrorListener::syntaxError(antlr4::Recognizer* /* recognizer */,
     // Special case for EOF token
     // EOF token has a "<EOF>" text, so we avoid calculating the size of EOF from its text
     // Instead, we just return a zero size
+    // Columns count characters, so the size of a token is taken from its character indices, not from the bytes of its text
     size_t token_size = (offending_symbol && offending_symbol->getType() != antlr4::Token::EOF)
-        ? offending_symbol->getText().size()
+        ? offending_symbol->getStopIndex() - offending_symbol->getStartIndex() + 1
         : 0;
     auto end_column = start_column + token_size;
 
-- 
2.43.0


From bdbc0855de17242e8350f2e656c4871e9f4025f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 08/14] fix: record where a variable was defined in the
 semantic tree

The location was copied from the identifier node, which has none;
the location of the identifier is kept by the variable node itself.
---
 src/v3x/semantic_analyzer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 34074fa..f149654 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -102,12 +102,12 @@ std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {
         auto type = build_semantic_type(node.typ);
 
         // Construct variable
-        // Use the location tag of the identifier to record where the variable was defined
+        // Use the location tag of the variable, which is that of its identifier, to record where it was defined
         const auto& identifier = node.name;
         ret->name = identifier->name;
         ret->typ = type.clone();
         ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
-        ret->copy_annotation<parser::SourceLocation>(*identifier);
+        ret->copy_annotation<parser::SourceLocation>(node);
 
         // Add the variable to the current scope
         analyzer_.add_variable_to_current_scope(ret);
-- 
2.43.0


From 7f4529e41540b6d99846438c0031a8cc857703d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:33 +0000
Subject: [PATCH 09/14] fix: read a version number without a regular expression

Matching a long sequence of digits (about 100,000) with std::regex exhausted the stack.
---
 src/v3x/syntactic_analyzer.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index b781aa1..1b5e6b0 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -5,7 +5,6 @@
 #include <algorithm>  // for_each
 #include <cassert>  // assert
 #include <cstdint>  // uint32_t
-#include <regex>
 #include <stdexcept>  // runtime_error
 #include <string>  // stod, stoll
 
@@ -139,13 +138,14 @@ std::any SyntacticAnalyzer::visitVersion(CqasmParser::VersionContext* context) {
     auto ret = tree::make<Version>();
     const auto token = context->VERSION_NUMBER()->getSymbol();
     const auto& text = context->VERSION_NUMBER()->getText();
-    const std::regex pattern{ "([0-9]+)(?:\\.([0-9]+))?" };
-    std::smatch matches{};
-    std::regex_match(text, matches, pattern);
-    ret->items.push_back(get_int_value(token->getLine(), token->getCharPositionInLine(), matches[1]));
-    if (matches[2].matched) {
-        ret->items.push_back(
-            get_int_value(token->getLine(), token->getCharPositionInLine() + matches.position(2), matches[2]));
+    // A version number is a sequence of digits, optionally followed by a dot and another sequence of digits
+    const auto dot_position = text.find('.');
+    ret->items.push_back(
+        get_int_value(token->getLine(), token->getCharPositionInLine(), text.substr(0, dot_position)));
+    if (dot_position != std::string::npos) {
+        const auto minor_position = dot_position + 1;
+        ret->items.push_back(get_int_value(
+            token->getLine(), token->getCharPositionInLine() + minor_position, text.substr(minor_position)));
     }
     setNodeAnnotation(ret, token);
     return ret;
-- 
2.43.0


From d3edf54709e0c064dc8f079f90f48be9bf5cb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:00 +0000
Subject: [PATCH 10/14] fix: compare only the qubit operands of a gate

A gate form registered with other operands next to qubits could never be
used: those operands counted as registers of size 0, so that every such
instruction was rejected with 'qubit operands indices have different sizes'.
---
 src/v3x/semantic_analyzer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index f149654..975c36d 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -151,23 +151,24 @@ std::string get_gate_resolution_name(const tree::One<semantic::Gate>& gate) {
 }
 
 void check_qubit_operands_indices_have_same_size(const values::Values& operands) {
-    auto qubit_operands_indices_size = std::vector<size_t>(operands.size());
+    auto qubit_operands_indices_size = std::vector<size_t>{};
     // Instruction operands can be, either variable references or index references
     // Variables can be of type qubit or qubit array
     // Qubits have a single index, arrays have a size
     // Index references point to a qubit array
-    for (size_t i = 0; i < operands.size(); ++i) {
-        if (auto variable_ref = operands[i]->as_variable_ref()) {
+    // Operands other than qubits are not compared
+    for (const auto& operand : operands) {
+        if (auto variable_ref = operand->as_variable_ref()) {
             const auto& variable = *variable_ref->variable;
             if (variable.typ->as_qubit()) {
-                qubit_operands_indices_size[i] += 1;
+                qubit_operands_indices_size.push_back(1);
             } else if (auto qubit_array = variable.typ->as_qubit_array()) {
-                qubit_operands_indices_size[i] += qubit_array->size;
+                qubit_operands_indices_size.push_back(qubit_array->size);
             }
-        } else if (auto index_ref = operands[i]->as_index_ref()) {
+        } else if (auto index_ref = operand->as_index_ref()) {
             const auto& variable = *index_ref->variable;
             if (variable.typ->as_qubit() || variable.typ->as_qubit_array()) {
-                qubit_operands_indices_size[i] += index_ref->indices.size();
+                qubit_operands_indices_size.push_back(index_ref->indices.size());
             }
         }
     }
-- 
2.43.0


From 90e88ea4d11feee15f994c2fe11be9e7218bb3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 11/14] fix: what() of an error must not invalidate the string
 it returned before

---
 src/error.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index 9274c03..a4dcb8e 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -56,9 +56,13 @@ void Error::context(const tree::Annotatable& node) {
  * Returns the exception-style message.
  */
 const char* Error::what() const noexcept {
-    what_message_ = fmt::format("Error{}: {}",
+    auto what_message = fmt::format("Error{}: {}",
         location_ ? fmt::format(" at {}", *location_) : std::string{},
         !message_.empty() ? message_ : unknown_error_message);
+    // A pointer returned before stays valid for as long as the error does not change
+    if (what_message != what_message_) {
+        what_message_ = std::move(what_message);
+    }
     return what_message_.c_str();
 }
 
-- 
2.43.0


From 287043317826a3dcf5f2d1a47cbea6781050308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 12/14] fix: keep the types of an instruction that are given by
 an iterator

---
 python/module/cqasm/v3x/instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/module/cqasm/v3x/instruction.py b/python/module/cqasm/v3x/instruction.py
index 271a075..4c1edd9 100644
--- a/python/module/cqasm/v3x/instruction.py
+++ b/python/module/cqasm/v3x/instruction.py
@@ -8,10 +8,11 @@ class Instruction(object):
         if types is None:
             self._types = ()
         else:
+            types = tuple(types)
             for typ in types:
                 if not isinstance(typ, cqasm.v3x.types.Node):
                     raise TypeError('types must be an iterable of cqasm.v3x.types.Node if specified')
-            self._types = tuple(types)
+            self._types = types
 
     @property
     def name(self):
-- 
2.43.0


From cfee5c248de161145f0f56ccb579fbc5c998606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:46 +0000
Subject: [PATCH 13/14] fix: letter case and URL encoding must not depend on
 the locale

In an 8-bit locale, bytes of non-ASCII characters were letters to std::isalnum, and left as they are in the URI of an
error's JSON, which then was no valid UTF-8. In a Turkish locale, 'I' and 'i' were different letters.
---
 src/utils.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index eab3723..806c667 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -8,7 +8,6 @@
 
 #include <algorithm>  // for_each
 #include <cassert>  // assert
-#include <cctype>  // isalnum, tolower, toupper
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/range/conversion.hpp>  // to
 #include <range/v3/view/transform.hpp>
@@ -16,6 +15,16 @@
 
 namespace cqasm::utils {
 
+// Unlike std::tolower and std::isalnum, these do not depend on the locale of the process
+
+static int ascii_tolower(unsigned char c) {
+    return (c >= 'A' && c <= 'Z') ? c - 'A' + 'a' : c;
+}
+
+static bool ascii_isalnum(unsigned char c) {
+    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
+}
+
 // clang-format off
 
 /**
@@ -23,7 +32,7 @@ namespace cqasm::utils {
 */
 std::string to_lowercase(const std::string &name) {
     return name
-        | ranges::views::transform([](unsigned char c) { return std::tolower(c); })
+        | ranges::views::transform([](unsigned char c) { return ascii_tolower(c); })
         | ranges::to<std::string>();
 }
 
@@ -32,7 +41,7 @@ std::string to_lowercase(const std::string &name) {
  */
 bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
     return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {
-        return std::tolower(l) == std::tolower(r);
+        return ascii_tolower(l) == ascii_tolower(r);
     });
 }
 
@@ -42,7 +51,7 @@ bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
 std::string url_encode(const std::string &str) {
     auto ret = std::string{};
     std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
-        ret += (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
+        ret += (ascii_isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
             ? std::string{ static_cast<char>(c) }
             : fmt::format("%{:02X}", static_cast<unsigned int>(c));
     });
-- 
2.43.0


From f7761f8f88b7f88c5b32361efe6628fece405d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:46 +0000
Subject: [PATCH 14/14] fix: read real literals independently of the locale

std::stod expects the decimal separator of the locale: in a process with a decimal comma, 1.5 was read as 1.
---
 src/v3x/syntactic_analyzer.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index 1b5e6b0..bb34698 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -4,9 +4,12 @@
 
 #include <algorithm>  // for_each
 #include <cassert>  // assert
+#include <cmath>  // isnormal
 #include <cstdint>  // uint32_t
+#include <locale>
+#include <sstream>  // istringstream
 #include <stdexcept>  // runtime_error
-#include <string>  // stod, stoll
+#include <string>  // stoll
 
 #include "libqasm/annotations.hpp"
 #include "libqasm/tree.hpp"
@@ -78,12 +81,16 @@ std::int64_t SyntacticAnalyzer::get_int_value(
 }
 
 double SyntacticAnalyzer::get_float_value(size_t line, size_t char_position_in_line, const std::string& text) const {
-    try {
-        return std::stod(text);
-    } catch (std::out_of_range&) {
+    // Unlike std::stod, a stream can be told not to look at the locale of the process, which may want a decimal comma
+    auto stream = std::istringstream{ text };
+    stream.imbue(std::locale::classic());
+    auto value = double{};
+    const auto is_zero = text.find_first_of("123456789") >= text.find_first_of("eE");
+    if (!(stream >> value) || !(is_zero || std::isnormal(value))) {
         syntaxError(line, char_position_in_line, fmt::format("value '{}' is out of the FLOAT_LITERAL range", text));
+        return {};
     }
-    return {};
+    return value;
 }
 
 bool SyntacticAnalyzer::get_bool_value(antlr4::tree::TerminalNode* node) const {
-- 
2.43.0

