// Generators and independent decoders shared by the checks.
#pragma once

#include "pbt.hpp"

namespace gen {

using pbt::Src;

inline void put_utf8(std::string& s, std::uint32_t cp) {
    if (cp < 0x80) {
        s += static_cast<char>(cp);
    } else if (cp < 0x800) {
        s += static_cast<char>(0xc0 | (cp >> 6));
        s += static_cast<char>(0x80 | (cp & 63));
    } else if (cp < 0x10000) {
        s += static_cast<char>(0xe0 | (cp >> 12));
        s += static_cast<char>(0x80 | ((cp >> 6) & 63));
        s += static_cast<char>(0x80 | (cp & 63));
    } else {
        s += static_cast<char>(0xf0 | (cp >> 18));
        s += static_cast<char>(0x80 | ((cp >> 12) & 63));
        s += static_cast<char>(0x80 | ((cp >> 6) & 63));
        s += static_cast<char>(0x80 | (cp & 63));
    }
}

// A 32-bit number: small ones, one off powers of two and ten, log-uniform, uniform, and the extremes.
inline std::uint32_t u32(Src& s) {
    switch (s.weighted({ 5, 3, 2, 2, 2, 1 })) {
        case 0: return static_cast<std::uint32_t>(s.draw(4));
        case 1: return static_cast<std::uint32_t>(s.draw(300));
        case 2: {
            auto p = std::uint64_t{ 1 } << s.draw(33);
            return static_cast<std::uint32_t>(std::min<std::uint64_t>(0xffffffffu, p + s.draw(3) - (p ? 1 : 0)));
        }
        case 3: {
            std::uint64_t p = 1;
            for (auto k = s.draw(10); k > 0; --k) {
                p *= 10;
            }
            return static_cast<std::uint32_t>(std::min<std::uint64_t>(0xffffffffu, p + s.draw(3) - 1));
        }
        case 4: return static_cast<std::uint32_t>(s.draw(std::uint64_t{ 1 } << (1 + s.draw(32))));
        default: return 0xffffffffu - static_cast<std::uint32_t>(s.draw(3));
    }
}

// A 64-bit signed number with the same mix.
inline std::int64_t i64(Src& s) {
    std::uint64_t v = 0;
    switch (s.weighted({ 5, 3, 3, 3, 1, 1 })) {
        case 0: v = s.draw(4); break;
        case 1: v = s.draw(300); break;
        case 2: v = (std::uint64_t{ 1 } << s.draw(64)) + s.draw(3) - 1; break;
        case 3: v = s.draw(0) >> s.draw(64); break;
        case 4: v = static_cast<std::uint64_t>(INT64_MAX) - s.draw(3); break;
        default: v = static_cast<std::uint64_t>(INT64_MIN) + s.draw(3); break;
    }
    if (s.flip()) {
        v = 0 - v;
    }
    return static_cast<std::int64_t>(v);
}

inline double real(Src& s) {
    switch (s.weighted({ 4, 3, 3, 2, 3 })) {
        case 0: return static_cast<double>(s.range(-4, 4)) / 2.0;
        case 1: return static_cast<double>(s.range(-100000, 100000)) / 1024.0;
        case 2: return static_cast<double>(i64(s));
        case 3: {
            static const double special[] = { 0.0, -0.0, 1.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                0.1, 1e15, 1e16, 9007199254740993.0, 4.35, 1e-5, 123456.789, 3.141592653589793, 1e22, 1e23 };
            return special[s.index(sizeof special / sizeof *special)] * (s.flip() ? -1.0 : 1.0);
        }
        default: {
            std::uint64_t b = s.draw(0);
            double d;
            std::memcpy(&d, &b, 8);
            return std::isfinite(d) ? d : 0.5;
        }
    }
}

// A length that now and then is one off a power of two or ten, up to max.
inline std::size_t odd_length(Src& s, std::size_t max) {
    if (!s.chance(1, 24)) {
        return s.length(std::min<std::size_t>(max, 40));
    }
    std::size_t p = s.flip() ? std::size_t{ 1 } << s.draw(14) : static_cast<std::size_t>(std::pow(10, s.draw(5)));
    return std::min(max, p + s.draw(3) - 1);
}

// Pieces that mean something to somebody: encoded already, or halfway.
inline const std::vector<std::string>& tokens() {
    static const std::vector<std::string> t = { "%20", "%", "%2", "%25", "%zz", "\\u0022", "\\u0041", "\\u00", "\\n", "\\\\", "\\\"", "\\", "\\/", "/", "//", "file:///", "://",
        "C:\\", "..", ".", "~", "&quot;", "&amp;", "+", " ", "  ", "{}", "{0}", "{{", "}}", "%s", "%n", "%d", "\n", "\r\n", "\t", "'''", "'", "\"", "<unknown file name>", "null", "\xe2\x80\xa8",
        "\xef\xbb\xbf", "\xc3\xa9", "\xf0\x9f\x98\x80", "a", "B", "0", "1e5", ":1:2..3", "[", "]", ",", "-1", "Error", std::string(1, '\0'), "\x7f" };
    return t;
}
inline std::string jumble(Src& s, std::size_t max) {
    std::string r;
    static const std::string hex = "0123456789abcdefABCDEF";
    for (auto n = 1 + s.length(std::min<std::size_t>(max, 8)); n > 0; --n) {
        if (s.chance(1, 6)) {  // an escape of any character
            static const std::vector<std::pair<std::string, int>> starts = { { "\\u", 4 }, { "\\u00", 2 }, { "\\x", 2 }, { "%", 2 }, { "&#", 2 }, { "\\", 1 } };
            auto& [start, digits] = s.pick(starts);
            r += start;
            for (int i = 0; i < digits; ++i) {
                r += s.pick(hex);
            }
        } else {
            r += s.pick(tokens());
        }
    }
    return r;
}

// A long string: a short piece again and again, up to a length that is one off a power of two, and something else at the end.
inline std::string stretched(Src& s, const std::string& piece, const std::string& tail, std::size_t max_power = 18) {
    auto n = (std::size_t{ 1 } << (10 + s.draw(max_power - 9))) + s.draw(5) - 2;
    std::string r;
    r.reserve(n + piece.size() + tail.size());
    while (!piece.empty() && r.size() + tail.size() < n) {
        r += piece;
    }
    return r + tail;
}

inline std::string bytes(Src& s, std::size_t max) {
    if (max >= 8 && s.chance(1, 10)) {
        return jumble(s, max / 8);
    }
    auto n = odd_length(s, max);
    std::string r;
    r.reserve(n);
    auto kind = s.weighted({ 3, 2, 2, 2 });
    for (std::size_t i = 0; i < n; ++i) {
        switch (kind) {
            case 0: r += static_cast<char>(s.draw(256)); break;
            case 1: r += static_cast<char>(0x20 + s.draw(0x5f)); break;
            case 2: r += s.pick(std::string{ "aA0zZ9-_.~%+ /\\\"'\n\t\x7f\x80\xff" }); break;
            default: r += s.chance(1, 4) ? static_cast<char>(s.draw(256)) : static_cast<char>('a' + s.draw(26)); break;
        }
    }
    return r;
}

inline std::uint32_t code_point(Src& s) {
    switch (s.weighted({ 6, 2, 2, 2, 2 })) {
        case 0: return 0x20 + static_cast<std::uint32_t>(s.draw(0x5f));
        case 1: return static_cast<std::uint32_t>(s.draw(0x20));
        case 2: return static_cast<std::uint32_t>(s.pick(std::string{ "\"\\/\n\r\t\x7f\x08\x0c'%" }));
        case 3: return 0x80 + static_cast<std::uint32_t>(s.draw(0x780));
        default: {
            auto c = static_cast<std::uint32_t>(0x800 + s.draw(0x10f800 - 0x800));
            return c >= 0xd800 && c < 0xe000 ? c + 0x2000 : c;
        }
    }
}

inline std::string text(Src& s, std::size_t max) {  // valid UTF-8, max counts characters
    if (max >= 8 && s.chance(1, 10)) {
        return jumble(s, max / 8);
    }
    auto n = odd_length(s, max);
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
        put_utf8(r, code_point(s));
    }
    return r;
}

// ---------------------------------------------------------------------------------------------------------------------
// A strict JSON reader (RFC 8259), enough to judge a text and to get its values out.

struct Json {
    enum Kind { null, boolean, number, string, array, object } kind = null;
    bool b = false;
    std::string s;  // string contents, or the number's text
    std::vector<Json> a;
    std::vector<std::string> keys;
    std::vector<Json> o;  // the keys' values

    const Json& at(const std::string& k) const {
        if (kind != object) {
            pbt::fail("JSON: not an object where key " + k + " is expected");
        }
        const Json* r = nullptr;
        for (std::size_t i = 0; i < keys.size(); ++i) {
            if (keys[i] == k) {
                if (r) {
                    pbt::fail("JSON: key " + k + " twice");
                }
                r = &o[i];
            }
        }
        if (!r) {
            pbt::fail("JSON: no key " + k);
        }
        return *r;
    }
    bool has(const std::string& k) const {
        return std::find(keys.begin(), keys.end(), k) != keys.end();
    }
    std::string num() const {
        if (kind != number) {
            pbt::fail("JSON: not a number");
        }
        return s;
    }
    std::string str() const {
        if (kind != string) {
            pbt::fail("JSON: not a string");
        }
        return s;
    }
};

inline bool valid_utf8(const std::string& t) {
    for (std::size_t i = 0; i < t.size();) {
        unsigned char c = static_cast<unsigned char>(t[i]);
        std::size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (n == 0 || i + n > t.size()) {
            return false;
        }
        for (std::size_t k = 1; k < n; ++k) {
            if ((static_cast<unsigned char>(t[i + k]) & 0xc0) != 0x80) {
                return false;
            }
        }
        unsigned char d = n > 1 ? static_cast<unsigned char>(t[i + 1]) : 0;
        if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) {
            return false;
        }
        i += n;
    }
    return true;
}

class JsonReader {
    const std::string& t;
    std::size_t p = 0;
    int depth = 0;

    [[noreturn]] void bad(const std::string& why) const {
        pbt::fail("not valid JSON (" + why + " at byte " + std::to_string(p) + "): " + pbt::quote(t.substr(0, 2000)));
    }
    void ws() {
        while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) {
            ++p;
        }
    }
    std::uint32_t hex4() {
        std::uint32_t v = 0;
        for (int i = 0; i < 4; ++i, ++p) {
            char c = p < t.size() ? t[p] : '\0';
            if (c >= '0' && c <= '9') v = v * 16 + static_cast<std::uint32_t>(c - '0');
            else if (c >= 'a' && c <= 'f') v = v * 16 + static_cast<std::uint32_t>(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v = v * 16 + static_cast<std::uint32_t>(c - 'A' + 10);
            else bad("bad \\u escape");
        }
        return v;
    }
    std::string string_body() {
        std::string r;
        ++p;
        for (;;) {
            if (p >= t.size()) {
                bad("unterminated string");
            }
            unsigned char c = static_cast<unsigned char>(t[p]);
            if (c == '"') {
                ++p;
                return r;
            }
            if (c < 0x20) {
                bad("raw control character in string");
            }
            if (c != '\\') {
                r += static_cast<char>(c);
                ++p;
                continue;
            }
            ++p;
            char e = p < t.size() ? t[p] : '\0';
            ++p;
            switch (e) {
                case '"': r += '"'; break;
                case '\\': r += '\\'; break;
                case '/': r += '/'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    auto v = hex4();
                    if (v >= 0xd800 && v < 0xdc00) {
                        if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') {
                            p += 2;
                            auto w = hex4();
                            if (w < 0xdc00 || w >= 0xe000) {
                                bad("bad surrogate pair");
                            }
                            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                        } else {
                            bad("lone surrogate");
                        }
                    } else if (v >= 0xdc00 && v < 0xe000) {
                        bad("lone surrogate");
                    }
                    put_utf8(r, v);
                    break;
                }
                default: bad("bad escape");
            }
        }
    }
    Json value() {
        if (++depth > 2000) {
            bad("too deep");
        }
        ws();
        Json j;
        if (p >= t.size()) {
            bad("no value");
        }
        char c = t[p];
        if (c == '{') {
            j.kind = Json::object;
            ++p;
            ws();
            if (p < t.size() && t[p] == '}') {
                ++p;
            } else {
                for (;;) {
                    ws();
                    if (p >= t.size() || t[p] != '"') {
                        bad("no key");
                    }
                    auto k = string_body();
                    ws();
                    if (p >= t.size() || t[p] != ':') {
                        bad("no colon");
                    }
                    ++p;
                    j.keys.push_back(k);
                    j.o.push_back(value());
                    ws();
                    if (p < t.size() && t[p] == ',') {
                        ++p;
                        continue;
                    }
                    if (p < t.size() && t[p] == '}') {
                        ++p;
                        break;
                    }
                    bad("object");
                }
            }
        } else if (c == '[') {
            j.kind = Json::array;
            ++p;
            ws();
            if (p < t.size() && t[p] == ']') {
                ++p;
            } else {
                for (;;) {
                    j.a.push_back(value());
                    ws();
                    if (p < t.size() && t[p] == ',') {
                        ++p;
                        continue;
                    }
                    if (p < t.size() && t[p] == ']') {
                        ++p;
                        break;
                    }
                    bad("array");
                }
            }
        } else if (c == '"') {
            j.kind = Json::string;
            j.s = string_body();
        } else if (t.compare(p, 4, "true") == 0) {
            j.kind = Json::boolean;
            j.b = true;
            p += 4;
        } else if (t.compare(p, 5, "false") == 0) {
            j.kind = Json::boolean;
            p += 5;
        } else if (t.compare(p, 4, "null") == 0) {
            p += 4;
        } else {
            j.kind = Json::number;
            auto b = p;
            if (p < t.size() && t[p] == '-') ++p;
            auto digits = [&] {
                auto q = p;
                while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p;
                if (p == q) bad("number");
                return p - q;
            };
            bool zero = p < t.size() && t[p] == '0';
            if (digits() > 1 && zero) bad("leading zero");
            if (p < t.size() && t[p] == '.') {
                ++p;
                digits();
            }
            if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
                ++p;
                if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
                digits();
            }
            j.s = t.substr(b, p - b);
        }
        --depth;
        return j;
    }

public:
    explicit JsonReader(const std::string& text)
    : t{ text } {}
    Json read() {
        if (!valid_utf8(t)) {
            pbt::fail("not valid JSON (not UTF-8): " + pbt::quote(t.substr(0, 2000)));
        }
        auto j = value();
        ws();
        if (p != t.size()) {
            bad("trailing text");
        }
        return j;
    }
};

inline Json read_json(const std::string& t) {
    return JsonReader{ t }.read();
}

// Percent-decoding (RFC 3986), strict.
inline std::string url_decode(const std::string& e) {
    std::string r;
    auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (std::size_t i = 0; i < e.size(); ++i) {
        if (e[i] != '%') {
            r += e[i];
            continue;
        }
        if (i + 2 >= e.size() || hex(e[i + 1]) < 0 || hex(e[i + 2]) < 0) {
            pbt::fail("malformed % escape in " + pbt::quote(e));
        }
        r += static_cast<char>(hex(e[i + 1]) * 16 + hex(e[i + 2]));
        i += 2;
    }
    return r;
}

inline bool unreserved(unsigned char c) {
    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '_' ||
        c == '.' || c == '~';
}

}  // namespace gen
