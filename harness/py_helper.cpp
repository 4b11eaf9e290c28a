// Serves the Python check: serializes primitive values with the library and runs the native analyzer's entry points.
// Messages in both directions: a count of fields, then each field as a 32-bit little-endian length and its bytes.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/instruction.hpp"
#include "libqasm/v3x/primitives.hpp"
#include "libqasm/v3x/semantic.hpp"

namespace prim = cqasm::v3x::primitives;

static bool get32(std::uint32_t& v) {
    unsigned char b[4];
    if (fread(b, 1, 4, stdin) != 4) {
        return false;
    }
    v = b[0] | b[1] << 8 | b[2] << 16 | static_cast<std::uint32_t>(b[3]) << 24;
    return true;
}
static void put32(std::uint32_t v) {
    unsigned char b[4] = { static_cast<unsigned char>(v), static_cast<unsigned char>(v >> 8),
        static_cast<unsigned char>(v >> 16), static_cast<unsigned char>(v >> 24) };
    fwrite(b, 1, 4, stdout);
}

template <class T>
static std::string cbor(const T& v) {
    std::ostringstream o;
    ::tree::cbor::Writer w{ o };
    auto map = w.start();
    prim::serialize(v, map);
    map.close();
    return o.str();
}

int main() {
    std::uint32_t n;
    while (get32(n)) {
        std::vector<std::string> f(n);
        for (auto& x : f) {
            std::uint32_t len;
            if (!get32(len)) {
                return 1;
            }
            x.resize(len);
            if (len && fread(x.data(), 1, len, stdin) != len) {
                return 1;
            }
        }
        std::vector<std::string> r;
        const auto& op = f[0];
        try {
            if (op == "str") {
                r.push_back(cbor(prim::Str{ f[1] }));
            } else if (op == "bool") {
                r.push_back(cbor(prim::Bool{ f[1] == "1" }));
            } else if (op == "int") {
                r.push_back(cbor(prim::Int{ std::stoll(f[1]) }));
            } else if (op == "float") {
                double d;
                std::memcpy(&d, f[1].data(), 8);
                r.push_back(cbor(prim::Float{ d }));
            } else if (op == "version") {
                r.push_back(cbor(prim::Version{ f[1] }));
            } else if (op == "instruction") {
                cqasm::v3x::instruction::InstructionRef ref{};
                if (f.size() > 1) {
                    ref = cqasm::tree::make<cqasm::v3x::instruction::Instruction>(f[1], std::optional<std::string>{ f[2] });
                }
                r.push_back(cbor(ref));
            } else if (op == "parse_file") {
                r = V3xAnalyzer::parse_file(f[1]);
            } else if (op == "parse_file_to_json") {
                r.push_back(V3xAnalyzer::parse_file_to_json(f[1]));
            } else if (op == "parse_string") {
                r = V3xAnalyzer::parse_string(f[1], f[2]);
            } else if (op == "parse_string_to_json") {
                r.push_back(V3xAnalyzer::parse_string_to_json(f[1], f[2]));
            } else if (op == "analyze_file") {
                r = V3xAnalyzer{}.analyze_file(f[1]);
            } else if (op == "analyze_file_to_json") {
                r.push_back(V3xAnalyzer{}.analyze_file_to_json(f[1]));
            } else if (op == "analyze_string") {
                r = V3xAnalyzer{}.analyze_string(f[1], f[2]);
            } else if (op == "analyze_string_to_json") {
                r.push_back(V3xAnalyzer{}.analyze_string_to_json(f[1], f[2]));
            } else {
                return 2;
            }
        } catch (const std::exception& e) {
            r = { "exception", e.what() };
        }
        put32(static_cast<std::uint32_t>(r.size()));
        for (auto& x : r) {
            put32(static_cast<std::uint32_t>(x.size()));
            fwrite(x.data(), 1, x.size(), stdout);
        }
        fflush(stdout);
    }
    return 0;
}
