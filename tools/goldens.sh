#!/bin/bash
# Calibrates /verif/shim against the repository's own integration cases (which cannot be built here otherwise): the
# dumps and messages that the library gives on top of the shim are compared with the golden files. Not a check.
set -e
B=/verif/build/gxx
R=${LIBQASM_REPO:-/repo}
cat > /tmp/goldens_$$.cpp <<'C'
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include "libqasm/v3x/cqasm.hpp"
namespace fs = std::filesystem;
static std::string slurp(const fs::path& p) { std::ifstream i{ p }; std::ostringstream o; o << i.rdbuf(); return o.str(); }
int main(int, char** argv) {
    int cases = 0, files = 0, bad = 0;
    auto same = [&](const fs::path& golden, const std::string& actual) {
        if (!fs::exists(golden)) return;
        ++files;
        if (slurp(golden) != actual) { ++bad; std::cout << "differs: " << golden << "\n"; if (getenv("SHOW")) std::cout << actual << "\n"; }
    };
    for (auto& e : fs::recursive_directory_iterator(argv[1])) {
        if (e.path().filename() != "input.cq") continue;
        ++cases;
        auto d = e.path().parent_path();
        auto p = cqasm::v3x::parser::parse_string(slurp(e.path()), "input.cq");
        auto text = [](auto& r) { std::ostringstream o; if (r.errors.empty()) { o << "SUCCESS\n"; r.root->dump(o); o << "\n"; } else { o << "ERROR\n"; bool f = true; for (auto& e : r.errors) { o << (f ? "" : "\n") << e.what(); f = false; } o << "\n"; } return o.str(); };
        same(d / "ast.golden.txt", text(p));
        same(d / "ast.golden.json", p.to_json());
        if (!p.errors.empty()) continue;
        auto a = cqasm::v3x::default_analyzer().analyze(*p.root->as_program());
        same(d / "semantic.3.0.golden.txt", text(a));
        same(d / "semantic.3.0.golden.json", a.to_json());
    }
    std::cout << cases << " cases, " << files << " golden files, " << bad << " differ\n";
    return bad != 0;
}
C
g++ -std=c++20 -w -O1 -I$B/gen -I/verif/shim/include -I$R/include /tmp/goldens_$$.cpp $(ls $B/obj/*.o | grep -v '/h_\|/x_') -o /tmp/goldens_$$ -lfmt
/tmp/goldens_$$ $R/res/v3x/tests/integration
rm -f /tmp/goldens_$$ /tmp/goldens_$$.cpp
