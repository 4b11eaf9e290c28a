"""Writes /verif/properties.jsonl. Kept as a program only so that the text stays readable and in one place."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


S, I = "src/", "include/libqasm/"
V = "src/v3x/"
IV = "include/libqasm/v3x/"

prop("C01", "URL encoding is lossless and uses only unreserved characters",
     "For every byte string, the URL encoder's output consists only of ASCII letters, digits, '-', '_', '.', '~' and "
     "'%XX' escapes with two uppercase hexadecimal digits; it escapes exactly the bytes that are not unreserved; and "
     "percent-decoding the output gives back the input. Encoding a concatenation is the concatenation of the encodings.",
     ["inputs"], "every byte string, every length, all 256 byte values in every position",
     "the unit tests encode a handful of fixed ASCII strings; bytes >= 0x80, control bytes and long inputs are not reached",
     [S + "utils.cpp", I + "utils.hpp", S + "error.cpp"],
     [("unreserved test and %02X formatting per byte", "src/utils.cpp: url_encode")],
     ["cqasm::utils::url_encode", "the uri of an error's JSON"])

prop("C02", "JSON string encoding is valid, minimal and lossless",
     "For every text, the JSON encoder's output placed between double quotes is a valid JSON string that decodes to "
     "exactly the input text, whatever its characters (quotes, backslashes, all control characters, non-ASCII UTF-8). "
     "Characters that need no escape are passed through unchanged, and encoding distributes over concatenation.",
     ["inputs"], "every UTF-8 text; byte-wise also every byte string",
     "the unit tests encode fixed ASCII strings with a few quotes and newlines; no test has a byte >= 0x80 or walks "
     "through all the control characters",
     [S + "utils.cpp", I + "utils.hpp", S + "error.cpp"],
     [("escape test and \\u%04X formatting per byte", "src/utils.cpp: json_encode")],
     ["cqasm::utils::json_encode", "the message of an error's JSON"])

prop("C03", "Case-insensitive comparison is the equivalence that lower-casing decides",
     "Two names compare equal case-insensitively exactly when their lower-case forms are the same string, which for "
     "ASCII means: same length and the same characters up to letter case. Lower-casing is idempotent, keeps the length "
     "and changes nothing except the letters A to Z.",
     ["inputs"], "every pair of byte strings, including equal up to one character, prefixes of one another, non-letters "
     "that differ in the case bit, embedded NUL and bytes >= 0x80 (in the C locale)",
     "tests compare a few fixed words; an equivalence over all pairs cannot be sampled by hand",
     [S + "utils.cpp", I + "utils.hpp"],
     [("std::tolower on unsigned char", "src/utils.cpp: to_lowercase, equal_case_insensitive")],
     ["cqasm::utils::to_lowercase", "cqasm::utils::equal_case_insensitive"])

prop("C04", "A source range is never inverted and grows to exactly the hull",
     "However a source location is built and extended, its last position is never before its first one. A constructed "
     "range covers the given first position and reaches the last one when that is not before it; extending it with a "
     "position yields the smallest range containing the old range and that position, so a sequence of extensions gives "
     "the same range in any order; and an empty file name counts as no file name.",
     ["inputs", "histories"], "all pairs of positions over the full 32-bit range (with 0, 1 and the maximum), all sequences of extensions",
     "tests build a few small locations; orders of extension, boundary values and mixes of line and column order are not covered",
     [S + "annotations.cpp", I + "annotations.hpp"],
     [("max of first and last", "SourceLocation::Range::Range"), ("min/max", "SourceLocation::expand_to_include")],
     ["SourceLocation constructor", "SourceLocation::expand_to_include"],
     [("range", "first and last position, line first", "SourceLocation")])

prop("C05", "A location is printed completely and unambiguously",
     "The printed form of a source location is its file name (or '<unknown file name>'), then ':line' if the line is "
     "known, ':column' if the column is known too, then '..' and the end, which repeats the line only if it differs and "
     "appears only if it lies after the start. What is not given is unknown (0). Whatever the values, that form and nothing else is printed.",
     ["inputs"], "all file names and all first/last positions including unknown (0) lines and columns and maximal values",
     "tests print a few locations; combinations of zero and non-zero lines/columns with multi-line ends are a product space",
     [S + "annotations.cpp", I + "annotations.hpp", I + "annotations_constants.hpp"],
     [("stream operator", "src/annotations.cpp: operator<<")],
     ["operator<<(ostream, SourceLocation)", "fmt::format of a location"])

prop("C06", "Locations are ordered by position: line first, then column, start before end",
     "Positions, ranges and locations are totally ordered: positions by line and then column, ranges by start and then "
     "end, locations like their ranges. Equality of locations also requires the same file name, and all six comparison "
     "operators agree with each other and are transitive.",
     ["inputs"], "all pairs and triples of positions, ranges and locations",
     "tests compare a few pairs; totality and transitivity quantify over pairs and triples",
     [I + "annotations.hpp"],
     [("defaulted comparisons", "SourceLocation::Index, Range, SourceLocation")],
     ["comparison operators"])

prop("C07", "Version numbers round-trip and order component-wise, missing ones being zero",
     "Reading a dotted version number and printing it gives its components in order. Two versions compare by the first "
     "differing component, numerically, with missing trailing components counting as 0, so all comparison operators are "
     "consistent with one total preorder. A component that is negative, empty or no number is rejected, and one that is too large is not read as another number.",
     ["inputs"], "all component lists of any length with components from 0 to the 32-bit maximum; all pairs and triples",
     "tests compare a few short versions; differing lengths, long lists and large components are a product space",
     [S + "version.cpp", I + "version.hpp"],
     [("split at '.'", "Version::Version"), ("compare with padding", "Version::compare"), ("join", "operator<<")],
     ["Version constructors", "comparison operators", "operator<<"])

prop("C08", "Errors state message and first location; their JSON is a valid diagnostic",
     "An error's text is 'Error' plus ' at <location>' if one is attached plus ': ' and the message (a fixed text if "
     "empty); a location is taken over from a node only while there is none, and later ones never change it. Its JSON "
     "form is always valid JSON, an LSP diagnostic: the same message, the same four positions (0 if unknown), severity 1, "
     "and exactly when a file name is known one related entry that names it as an encoded URI, with a message and a "
     "zero range.",
     ["inputs", "histories"], "all messages, file names and positions; all sequences of attaching locations and reading the text",
     "tests use a few fixed messages and locations; special characters in messages and file names and orders of "
     "attachment are unbounded",
     [S + "error.cpp", I + "error.hpp", S + "utils.cpp", S + "annotations.cpp"],
     [("context only if absent", "Error::context"), ("formatting", "Error::what, Error::to_json")],
     ["Error::what", "Error::to_json", "operator<<"],
     [("location", "first attached location", "Error")])

prop("C09", "String fragments and escape sequences are assembled faithfully",
     "A string built from fragments and escape sequences is the concatenation, in order, of the fragments unchanged "
     "and, for each escape, the character it denotes (tab, newline, carriage return, single quote, double quote, "
     "backslash); an unknown escape stands for itself.",
     ["inputs", "histories"], "all sequences of fragments and escapes, all byte values",
     "no test exercises sequences; each escape would have to be tried in each context",
     [S + "string_builder.cpp", I + "string_builder.hpp"],
     [("chain of comparisons", "StringBuilder::push_escape")],
     ["cqasm::syntactic::StringBuilder"])

prop("C10", "The last applicable overload is chosen, with all its arguments promoted",
     "Resolving a call yields the most recently added overload of that exact name whose arity equals the number of "
     "arguments and all of whose parameters accept them, together with the arguments promoted to those parameters, in "
     "order. If the name is unknown, or no overload applies, that specific failure is reported instead; resolution "
     "never changes the table, and the names are case-sensitive.",
     ["inputs", "histories"], "all sequences of additions and resolutions over names, arities, and promotion relations",
     "tests resolve a few fixed names; which overload wins depends on the registration history and on all parameters",
     [I + "overload.hpp", V + "resolver.cpp"],
     [("reverse scan", "OverloadResolver::resolve"), ("name table", "OverloadedNameResolver::resolve")],
     ["OverloadedNameResolver::add_overload / resolve"],
     [("table", "overloads per name, in order of addition", "OverloadedNameResolver")])

prop("C11", "A result is reported either as its tree or as all its errors, never both",
     "As a list of strings, a result is one serialized tree if there are no errors, and otherwise an empty first string "
     "followed by every error's text in order. As JSON it is the tree's JSON, or an object with the JSON of every error, "
     "in order, which is valid JSON for any messages.",
     ["inputs"], "all numbers of errors (0, 1, many) and all messages, locations and trees",
     "tests use one tree or one or two errors with plain messages",
     [I + "result.hpp", V + "parse_result.cpp", V + "analysis_result.cpp"],
     [("templates", "result.hpp: to_strings, errors_to_json, to_json")],
     ["to_strings", "to_json"])

prop("C12", "Raw text in an assembly declaration reaches the tree unchanged",
     "Whatever stands between the triple quotes of an assembly declaration (newlines, quotes short of three, "
     "backslashes, comment markers, keywords, non-ASCII text) appears in the syntax tree and the semantic tree byte for "
     "byte, with the backend name, and does not disturb the statements around it.",
     ["inputs", "programs"], "all texts without a triple quote, in any position in a program",
     "tests contain a few fixed blocks",
     [S + "utils.cpp", V + "CqasmLexer.g4", V + "syntactic_analyzer.cpp", V + "semantic_analyzer.cpp"],
     [("raw text mode", "CqasmLexer.g4: RAW_TEXT_MODE"), ("triple quotes", "remove_triple_quotes")],
     ["remove_triple_quotes", "AsmDeclaration nodes", "JSON and CBOR of the tree"])

prop("C13", "Values, types, promotion and sizes agree with one another",
     "Every value (a constant, or a reference to qubits or bits) has the type it was made with, it can be promoted to a "
     "type exactly when the check says so, and the result then has exactly that type and the same meaning (bool to int or "
     "float, int to float, identity); nothing else promotes. Type letters map to the type they name, type equality is "
     "structural, and the size of a reference is the number of its elements as declared or indexed.",
     ["inputs"], "all value kinds, boundary numbers, array sizes and pairs of types",
     "tests try a few pairs; the relation is over all pairs of value and type, and the numbers are unbounded",
     [V + "values.cpp", V + "types.cpp", IV + "values.hpp", IV + "types.hpp"],
     [("promotion table", "values.cpp: promote, check_promote"), ("from_spec, type_check", "types.cpp")],
     ["values::promote", "values::check_promote", "values::type_of", "values::size_of", "types::from_spec", "types::type_check"])

prop("C14", "Trees and their primitive values survive serialization",
     "Serializing any primitive value (text, bool, integer, real, complex number, axis, version, instruction and function "
     "references) or any syntax or semantic tree and reading it back gives an equal one, and serializing that "
     "again gives the same bytes. Copies and clones of a tree are equal to it.",
     ["inputs", "programs"], "all values over their whole range; all trees that programs produce",
     "the golden files fix a few hundred programs' text dumps; nothing reads a serialized tree back",
     [V + "primitives.cpp", IV + "primitives.hpp", V + "semantic.tree", V + "syntactic.tree", V + "instruction.cpp",
      V + "core_function.cpp"],
     [("serialize / deserialize", "primitives.cpp")],
     ["serialize, deserialize", "to_strings"])

prop("C15", "Constant expressions evaluate to the mathematically defined value",
     "Every constant expression over booleans, integers and reals that the language accepts is replaced by the value "
     "that its operators and functions denote, with 64-bit integer and double precision semantics, and with the type "
     "that operand promotion prescribes. An operation without a defined result (such as division by zero) is reported "
     "as an error and never ends the process or yields an arbitrary value.",
     ["inputs", "programs"], "all expressions of any depth over all operators, functions, constants and boundary numbers",
     "tests evaluate each operator on one or two small operands, one at a time",
     [V + "register_consteval_core_functions.cpp", IV + "register_consteval_core_functions.hpp", V + "core_function.cpp",
      V + "semantic_analyzer.cpp", V + "values.cpp"],
     [("one lambda per operator and overload", "register_consteval_core_functions.hpp")],
     ["literal nodes in the semantic tree"])

prop("C16", "Operators bind by the documented precedence and associativity",
     "An expression written with the fewest parentheses that the documented precedence and associativity require "
     "produces the same tree as the fully parenthesised one, for any nesting of unary, binary, ternary, call and index "
     "expressions; redundant parentheses never change the tree.",
     ["inputs", "programs"], "all expression trees over all operators",
     "tests have a few chains of two operators; the number of operator triples and nestings is large",
     [V + "CqasmParser.g4", V + "syntactic_analyzer.cpp"],
     [("order of alternatives", "CqasmParser.g4: expression"), ("visit methods", "syntactic_analyzer.cpp")],
     ["syntax tree of an expression"])

prop("C17", "Layout does not matter: blanks, comments, separators and line ends",
     "Inserting spaces, tabs or block comments between tokens, line comments before a line end, extra empty statements, "
     "exchanging ';' for a newline, and CRLF for LF leave the syntax tree and the semantic tree the same (locations "
     "aside), and leave a program with semantic errors erroneous with the same messages. A program with a syntax error "
     "stays one, with the same message if only blanks and comments change. Nothing else is layout: any other blank-like "
     "character, or a carriage return that is not part of a line end, is rejected outside block comments and raw text.",
     ["programs"], "all programs and all such re-layouts",
     "tests vary the layout of a few fixed programs",
     [V + "CqasmLexer.g4", V + "CqasmParser.g4", V + "syntactic_analyzer.cpp"],
     [("hidden channels and skip rules", "CqasmLexer.g4"), ("statementSeparator", "CqasmParser.g4")],
     ["trees and error messages"])

prop("C18", "Every located node points at its own source text",
     "Each variable, instruction, operator, literal and type in the syntax tree and each error carries the position "
     "(1-based line and column, end exclusive) of the token it came from, and the given file name, whatever precedes it; "
     "the semantic nodes point at the same text. Assembly declarations carry none, and the end of a token that spans "
     "lines is not meant.",
     ["programs"], "all programs, with tokens at all lines and columns",
     "the golden files fix positions of a few programs",
     [V + "syntactic_analyzer.cpp", V + "semantic_analyzer.cpp", V + "antlr_scanner.cpp",
      V + "antlr_custom_error_listener.cpp", IV + "antlr_custom_error_listener.hpp"],
     [("setNodeAnnotation, expandNodeAnnotation", "syntactic_analyzer.cpp")],
     ["SourceLocation annotations"])

prop("C19", "Every text is accepted or rejected cleanly, and always the same way",
     "For any UTF-8 text (of nesting and register ranges that memory can hold), parsing and analysing ends, without a crash "
     "or an escaping exception, in exactly one of a tree or at least one error; every error has a message and is convertible "
     "to text and JSON. Doing it again gives the same outcome.",
     ["inputs", "programs"], "all texts: valid programs, mutated programs, token soup, arbitrary UTF-8",
     "tests feed well-formed programs and a few selected errors",
     [V + "parse_helper.cpp", V + "analyzer.cpp", V + "semantic_analyzer.cpp", V + "syntactic_analyzer.cpp",
      V + "antlr_scanner.cpp", V + "antlr_custom_error_listener.cpp"],
     [("error listener throwing a parse error", "antlr_custom_error_listener.cpp"),
      ("catch of analysis errors per statement", "semantic_analyzer.cpp: visit_block")],
     ["parse_string", "analyze_string", "V3xAnalyzer"])

prop("C20", "All entry points tell the same story about the same text",
     "Reading a text from a string, from a file, through the string-list and the JSON interfaces, through the "
     "wrapper objects for Python and JavaScript, and by analysing an already parsed result all give the same tree or the "
     "same errors, up to the file name they state.",
     ["programs", "inputs"], "all programs, valid or not, through all entry points, with any file name",
     "tests use each entry point on its own fixed inputs",
     [V + "cqasm.cpp", V + "cqasm_python.cpp", V + "analyzer.cpp", V + "parse_helper.cpp", V + "antlr_scanner.cpp",
      "emscripten/emscripten_wrapper.cpp", IV + "cqasm.hpp"],
     [("FileAntlrScanner / StringAntlrScanner", "antlr_scanner.cpp"), ("V3xAnalyzer", "cqasm_python.cpp")],
     ["all public entry points"])

prop("C21", "A valid program is represented by exactly its statements, in order",
     "The semantic tree of a valid program contains the language and API version, every declared variable with its "
     "name, kind and size in order of declaration, and one statement per instruction in source order with its name, "
     "modifiers, operands and parameters as written; nothing is dropped, duplicated, reordered or invented.",
     ["programs"], "all valid programs of any length mixing all statement kinds",
     "the goldens fix a few hundred small programs, mostly one statement each",
     [V + "semantic_analyzer.cpp", V + "syntactic_analyzer.cpp", V + "analyzer.cpp", V + "semantic.tree"],
     [("visit_block", "semantic_analyzer.cpp"), ("scope blocks", "analyzer.cpp")],
     ["semantic tree"])

prop("C22", "Index references denote exactly the elements written, and only existing ones",
     "An index list of single elements and ranges denotes those elements in the written order, ranges inclusive, and "
     "the reference has that many elements, and the element type when it is a single one and the array type otherwise. A reference is "
     "rejected exactly when it has an element outside the register, an inverted range, a non-integer index, or is applied to "
     "something that is not a register, and checking takes time bounded by the register, not by the numbers written.",
     ["inputs", "programs"], "all register sizes and index lists, including boundary and huge numbers and constant expressions as indices",
     "tests use a few small lists",
     [V + "semantic_analyzer.cpp", V + "values.cpp"],
     [("visit_index_item, visit_index_range, visit_index", "semantic_analyzer.cpp"), ("check_out_of_range", "semantic_analyzer.cpp")],
     ["IndexRef values", "errors"])

prop("C23", "An instruction is accepted exactly when its name, operands and parameters fit",
     "A gate or non-gate instruction is accepted exactly when one of its documented forms matches: the number and "
     "kinds of its operands, parameters of the right number and promotable kinds, and equally many elements in all operands "
     "(qubit and bit counts for a measurement). The accepted node holds the parameters promoted to the documented types.",
     ["inputs", "programs"], "all instruction names, operand kinds and counts, parameter kinds and counts",
     "tests have one or two examples and one or two failures per instruction",
     [V + "semantic_analyzer.cpp", V + "instruction_set.cpp", V + "register_instructions.cpp", V + "resolver.cpp",
      V + "analyzer.cpp"],
     [("resolve_instruction", "semantic_analyzer.cpp, resolver.cpp"), ("operand size checks", "semantic_analyzer.cpp")],
     ["instruction nodes", "errors"])

prop("C24", "Gate modifiers nest as written and make the operand count right",
     "inv keeps, pow keeps and ctrl adds one operand; a modified gate is accepted exactly when the modified gate is a "
     "one-qubit gate, the operand count fits and the exponent is a single number, and the tree shows the modifiers in "
     "the written order around the gate with its parameters, exponents as reals.",
     ["programs"], "all chains of modifiers over all gates, with all operand counts and exponents",
     "tests have a few chains of one to three modifiers",
     [V + "semantic_analyzer.cpp", V + "syntactic_analyzer.cpp", V + "instruction_set.cpp", V + "register_instructions.cpp"],
     [("visit_modifier / resolution names", "semantic_analyzer.cpp"), ("visit composite gates", "syntactic_analyzer.cpp")],
     ["GateInstruction nodes", "errors"])

prop("C25", "An analysis depends only on its text, not on what was analysed before",
     "Analysing a program gives the same tree or errors with an analyzer that has already analysed any sequence of "
     "other programs, valid or not, as with a fresh one, also when one of them was ended by an exception that a registered function "
     "threw. Trees obtained earlier are not changed by later analyses.",
     ["histories", "programs"], "all sequences of programs on one analyzer",
     "every test makes a fresh analyzer",
     [V + "analyzer.cpp", V + "semantic_analyzer.cpp", V + "cqasm_python.cpp", IV + "analyzer.hpp"],
     [("scope stack", "analyzer.cpp"), ("reset per analysis", "semantic_analyzer.cpp")],
     ["Analyzer::analyze_string", "V3xAnalyzer"],
     [("scope stack", "variables, functions, instructions and block of each scope", "Analyzer")])

prop("C26", "Names are case-sensitive, declared once, and visible from their declaration on",
     "A name denotes the variable declared under exactly that spelling earlier in the program, or the predefined "
     "constant; a use before or without declaration, or in other letter case, is rejected, a second declaration of the same name is "
     "rejected, and different spellings are different variables. What has a character other than ASCII letters, digits and "
     "underscores, or begins with a digit, is no name and is rejected.",
     ["programs", "histories"], "all sequences of declarations and uses over colliding and near-colliding names",
     "tests have a few fixed collisions",
     [V + "analyzer.cpp", V + "resolver.cpp", IV + "scope.hpp", V + "semantic_analyzer.cpp"],
     [("variable table", "resolver.cpp: VariableTable"), ("scope stack search", "analyzer.cpp")],
     ["variable references", "errors"])

prop("C27", "The instruction set answers every query about a name or form consistently",
     "For every instruction and gate modifier, the catalogue's answers agree with each other and with what programs can "
     "use: it is exactly one of one-qubit gate, two-qubit gate, non-unitary instruction and modifier, and its parameter and "
     "operand kinds are those of its forms, however they are looked up. For every other name each query answers no or "
     "reports the unknown name; names beginning with 1q or 2q are gate compositions.",
     ["inputs"], "all names: every instruction and modifier, near-misses in case and prefix, arbitrary names",
     "tests query a few names",
     [V + "instruction_set.cpp", IV + "instruction_set.hpp", V + "register_instructions.cpp", V + "instruction.cpp"],
     [("maps", "instruction_set.cpp")],
     ["InstructionSet", "Analyzer::resolve_instruction"])

prop("C28", "Every faulty statement is reported, once, in order, where it is",
     "The errors of a syntactically valid program are those of its faulty statements, one each, in source order, each "
     "located in its statement, and are the same whatever correct statements stand around them. A program with syntax "
     "errors reports the first one only, and no tree.",
     ["programs"], "all programs with any number of faulty statements of any kind in any position",
     "tests have at most a couple of errors per program",
     [V + "semantic_analyzer.cpp", S + "error.cpp", V + "analysis_result.cpp", V + "antlr_custom_error_listener.cpp"],
     [("try/catch per statement", "visit_block"), ("Error::context", "semantic_analyzer.cpp")],
     ["errors of an analysis result"])

prop("C29", "Literals keep their value, or are rejected if they have none",
     "Every boolean, integer and real literal in range appears in the tree with exactly the value that its digits "
     "denote (reals correctly rounded to double), whatever its spelling; one out of range (too large, or a real below "
     "the smallest normal number) is reported with its text, and is never wrapped, truncated or allowed to escape as another failure.",
     ["inputs"], "all digit strings, with leading zeros, exponents and values around the limits",
     "tests use a few small literals and one out of range",
     [V + "syntactic_analyzer.cpp", V + "CqasmLexer.g4", V + "CqasmParser.g4"],
     [("stoll / stod with range errors", "syntactic_analyzer.cpp: get_int_value, get_float_value")],
     ["literal nodes", "errors"])

prop("C30", "Only programs for the supported language version are accepted",
     "A program is analysed exactly when it states, first and once, a version equal to the supported one; any other "
     "version is reported with the version as written, a missing or misplaced one is a syntax error, and an analyzer cannot be made for "
     "another version.",
     ["inputs", "programs"], "all version numbers of any number of components, at all positions",
     "tests use two or three fixed version numbers",
     [V + "semantic_analyzer.cpp", V + "analyzer.cpp", V + "CqasmLexer.g4", V + "syntactic_analyzer.cpp", S + "version.cpp"],
     [("visit_version", "semantic_analyzer.cpp"), ("Analyzer constructor", "analyzer.cpp")],
     ["errors", "version nodes"])

prop("C31", "What is registered with an analyzer is what programs can use",
     "Constants, functions and instruction forms registered with an analyzer are found by programs it analyses, with "
     "arguments promoted to the registered types; the latest applicable function or form and the innermost scope take "
     "precedence, and a constant is refused if its scope already has that name. What was not registered is not found, and "
     "registrations of one analyzer do not affect another.",
     ["histories", "programs"], "all sequences of registrations and programs that use them",
     "tests register one thing at a time",
     [V + "analyzer.cpp", V + "resolver.cpp", V + "core_function.cpp", V + "instruction.cpp", IV + "scope.hpp"],
     [("register_* / resolve_*", "analyzer.cpp"), ("tables", "resolver.cpp")],
     ["Analyzer::register_variable / function / instruction"])

prop("C32", "The Python layer decodes what the C++ library encodes",
     "The Python package's readers and writers of primitive values agree with the library's serialized form: reading "
     "what the library wrote gives the same value, what they write they read back, text that is not valid UTF-8 "
     "included, and the analyzer wrapper returns the tree, or all error messages in order. An instruction keeps all the "
     "types it is given, by whatever iterable. Importing the package adds its folder to the linker's path.",
     ["inputs"], "all primitive values; all result lists of the native module",
     "the Python tests need the built package and use two fixed programs",
     ["python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py", "python/module/cqasm/v3x/__init__.py",
      V + "primitives.cpp", V + "cqasm_python.cpp"],
     [("serialize / deserialize", "primitives.py"), ("Analyzer._analyze...", "__init__.py")],
     ["cqasm.v3x.primitives", "cqasm.v3x.Analyzer"])

prop("C33", "Separate threads can analyse separate programs at the same time",
     "Programs that are parsed and analysed at the same time in separate threads, each thread with an analyzer of its own "
     "(also copies of one), give exactly the trees and errors that they give alone, whatever the schedule, and no two threads "
     "access the same data without synchronization. The same goes for the string helpers, locations, versions and errors.",
     ["schedules", "programs", "inputs"], "all programs, numbers of threads and schedules",
     "every test is sequential; shared mutable state shows only in a schedule",
     [V + "analyzer.cpp", V + "instruction_set.cpp", V + "semantic_analyzer.cpp", V + "syntactic_analyzer.cpp", S + "utils.cpp", S + "error.cpp",
      S + "annotations.cpp", S + "version.cpp"],
     [("one constant instruction set for all", "InstructionSet::get_instance"), ("no shared state otherwise", "all of src")],
     ["Analyzer::analyze_string", "parse_string", "V3xAnalyzer", "AnalysisResult::to_json"])

prop("C34", "The analysis of a syntax tree depends on that tree alone",
     "Analysing a clone of a syntax tree gives the same tree or errors, with the same places; analysing one without "
     "locations (say, read back from its serialized form) gives the same without places; and analysing a tree whose statements were "
     "inserted, repeated, removed or swapped gives what the text edited in the same way gives. Annotations attached to declarations, statements and gates of the tree are in the semantic tree, in order, with their operands evaluated, and every faulty operand is one error. The tree analysed is left as it was.",
     ["programs", "histories"], "all syntax trees of programs, and all edits of their statement lists",
     "tests analyse trees fresh from the parser only",
     [V + "semantic_analyzer.cpp", V + "analyzer.cpp", V + "syntactic.tree"],
     [("visitors", "semantic_analyzer.cpp"), ("location of the block", "Analyzer::add_statement_to_current_scope")],
     ["Analyzer::analyze(syntactic::Program)"])

prop("C35", "Results do not depend on the locale of the process",
     "Whatever locale a program that uses the library has set (decimal comma, digit grouping, 8-bit or multibyte characters, "
     "Turkish letters), the same texts are accepted with the same values and the same errors, and string helpers, versions, locations, "
     "errors and JSON come out byte for byte as in the C locale; and the locale of the process is left as it was.",
     ["inputs", "programs"], "all texts and all locales",
     "every test runs in the C locale",
     [S + "utils.cpp", S + "version.cpp", S + "annotations.cpp", S + "error.cpp", V + "syntactic_analyzer.cpp", V + "semantic_analyzer.cpp",
      V + "cqasm_python.cpp"],
     [("character classes and letter case", "utils.cpp"), ("literals to numbers", "syntactic_analyzer.cpp: get_int_value, get_float_value"),
      ("numbers to text", "error.cpp, annotations.cpp, version.cpp")],
     ["utils", "Error::to_json", "ParseResult", "AnalysisResult", "V3xAnalyzer"])

prop("C36", "Nothing is held after an analysis is done with",
     "Once its result is destroyed, a call of the library holds no memory and no open file that grows with the number of calls: "
     "parsing, analysing (accepted or rejected, from text or files, with one analyzer or one each), entering and leaving scopes, errors, "
     "overload tables, results and string helpers can be repeated without end, with the same or with ever other texts and names.",
     ["histories", "programs", "inputs"], "all programs and calls, repeated any number of times",
     "a test calls everything a few times, and what is not given back does not change any answer",
     [V + "analyzer.cpp", V + "semantic_analyzer.cpp", V + "syntactic_analyzer.cpp", V + "parse_helper.cpp", V + "antlr_scanner.cpp", V + "cqasm_python.cpp", S + "utils.cpp",
      S + "error.cpp", "include/libqasm/overload.hpp", "include/libqasm/result.hpp"],
     [("trees by shared pointers without cycles", "tree files"), ("scanner and file stream", "antlr_scanner.cpp"),
      ("scope stack", "Analyzer::push_scope, pop_scope")],
     ["the process's heap and open files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
