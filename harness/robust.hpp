// What must hold for every text (C19).
#pragma once

#include "lib.hpp"

namespace robust {
inline bool utf8(const std::string& t) {
    auto* p = reinterpret_cast<const unsigned char*>(t.data());
    auto* e = p + t.size();
    while (p < e) {
        int n = *p < 0x80 ? 0 : *p >= 0xC2 && *p <= 0xDF ? 1 : *p >= 0xE0 && *p <= 0xEF ? 2 : *p >= 0xF0 && *p <= 0xF4 ? 3 : -1;
        if (n < 0 || e - p <= n) {
            return false;
        }
        for (int i = 1; i <= n; ++i) {
            if ((p[i] & 0xC0) != 0x80) {
                return false;
            }
        }
        if ((*p == 0xE0 && p[1] < 0xA0) || (*p == 0xED && p[1] > 0x9F) || (*p == 0xF0 && p[1] < 0x90) || (*p == 0xF4 && p[1] > 0x8F)) {
            return false;
        }
        p += n + 1;
    }
    return true;
}
// Texts that may ask for more memory than there is (a range over an enormous register), or for more nesting than is
// explored, are left out.
inline bool bounded(const std::string& t) {
    int depth = 0, deepest = 0;
    std::size_t digits = 0, run = 0;
    bool bracket = false, long_number = false;
    for (char c : t) {
        if (c == '(' || c == '[') {
            deepest = std::max(deepest, ++depth);
            bracket = bracket || c == '[';
            digits = 0;
        } else if (c == ')' || c == ']') {
            --depth;
        }
        digits = c >= '0' && c <= '9' ? digits + 1 : 0;
        long_number = long_number || digits > 4;
        run = std::string_view{ "-+~!?*" }.find(c) != std::string_view::npos ? run + 1 : c == ' ' || c == '\t' || c == '(' ? run : 0;
        if (run > 300) {
            return false;
        }
    }
    return deepest <= 60 && !(bracket && long_number && t.find(':') != std::string::npos);
}

template <class R>
void forms(const R& r, bool tree, const std::vector<lib::Err>& errors, const char* what) {
    PBT_CHECK(tree != !errors.empty(), what << ": " << (tree ? "a tree and errors" : "neither a tree nor an error"));
    for (auto& e : errors) {
        PBT_CHECK(!e.message.empty(), what << ": an error without a message");
        PBT_CHECK(e.what.rfind("Error", 0) == 0 && e.what.size() > 7, what << ": an error's text is " << pbt::quote(e.what));
    }
    auto strings = r.to_strings();
    PBT_CHECK(strings.size() == errors.size() + 1 && strings[0].empty() == !errors.empty(), what << ": as strings");
    PBT_CHECK(!r.to_json().empty(), what << ": as JSON");
    if (!errors.empty()) {
        auto j = gen::read_json(r.to_json());
        PBT_CHECK(j.at("errors").a.size() == errors.size(), what << ": errors in JSON");
    }
}
// Returns 0 for a syntax error, 1 for a semantic one, 2 for an accepted text.
inline int check(const std::string& text, std::string* seen = nullptr) {
    auto once = [&](int& kind) {
        auto p = lib::v3::parser::parse_string(text, std::nullopt);
        auto pe = lib::errs(p.errors);
        forms(p, pe.empty() && !p.root.empty() && p.root->as_program(), pe, "parsing");
        auto a = lib::v3::default_analyzer().analyze_string(text, std::nullopt);
        auto ae = lib::errs(a.errors);
        forms(a, ae.empty() && !a.root.empty(), ae, "analysing");
        kind = !pe.empty() ? 0 : !ae.empty() ? 1 : 2;
        std::string r = lib::show(pe) + "--\n" + lib::show(ae) + "--\n";
        for (auto& e : ae) {
            r += e.json;
        }
        if (kind == 2) {
            lib::Form f;
            f.locations = true;
            r += lib::tree(*p.root->as_program(), f) + lib::tree(*a.root, f);
        }
        return r;
    };
    int kind, again;
    auto first = once(kind);
    auto second = once(again);
    PBT_CHECK(first == second, "the second time, it is\n" << second << "\ninstead of\n" << first);
    if (seen) {
        *seen = first;
    }
    return kind;
}
}  // namespace robust
