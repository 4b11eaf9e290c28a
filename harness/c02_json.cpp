#include "gen.hpp"
#include "libqasm/utils.hpp"

using namespace pbt;
using cqasm::utils::json_encode;

// For UTF-8 text. Any valid JSON spelling of the characters that need an escape is accepted, the others must stay.
static void judge(const std::string& in, Case& c) {
    auto out = json_encode(in);
    auto j = gen::read_json("\"" + out + "\"");
    PBT_CHECK(j.kind == gen::Json::string, "not a string: " << quote(out));
    PBT_CHECK(j.s == in, "encoded as " << quote(out) << " which decodes to " << quote(j.s));
    std::size_t need = 0, high = 0;
    for (unsigned char b : in) {
        need += b < 0x20 || b == '"' || b == '\\';
        high += b >= 0x80;
    }
    // Minimal: what needs no escape is passed through. Taking the escapes out of the output leaves exactly that.
    std::string kept, plain;
    for (std::size_t i = 0; i < out.size(); ++i) {
        if (out[i] == '\\') {
            i += i + 1 < out.size() && out[i + 1] == 'u' ? 5 : 1;
        } else {
            kept += out[i];
        }
    }
    for (unsigned char b : in) {
        if (!(b < 0x20 || b == '"' || b == '\\')) {
            plain += static_cast<char>(b);
        }
    }
    PBT_CHECK(kept == plain, "encoded as " << quote(out) << ": a character that needs no escape was not passed through");
    c.nontrivial = in.size() >= 2 && (need > 0 || high > 0);
    c.label(need ? high ? "escapes and non-ASCII" : "escapes" : high ? "non-ASCII" : "plain");
    c.label(in.size() > 255 ? "length > 255" : in.size() > 16 ? "length 17..255" : "length <= 16");
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    cl.push_back({ "every ASCII character, in context",
        [](Src& s, Case& c) {
            auto b = s.draw(128);
            auto in = gen::text(s, 12) + static_cast<char>(b) + gen::text(s, 12);
            c.show = quote(in);
            judge(in, c);
        },
        30000, 400000, 128 });
    cl.push_back({ "every pair of ASCII characters",
        [](Src& s, Case& c) {
            auto v = s.draw(16384);
            std::string in{ static_cast<char>(v >> 7), static_cast<char>(v & 127) };
            c.show = quote(in);
            judge(in, c);
        },
        16384, 16384, 16384 });
    cl.push_back({ "every character of the basic plane",
        [](Src& s, Case& c) {
            auto cp = static_cast<std::uint32_t>(s.draw(0x10000));
            if (cp >= 0xd800 && cp < 0xe000) {
                cp += 0x10000;
            }
            std::string in = "x";
            gen::put_utf8(in, cp);
            c.show = quote(in);
            judge(in, c);
        },
        0x10000, 0x10000, 0x10000 });
    cl.push_back({ "texts",
        [](Src& s, Case& c) {
            auto in = gen::text(s, 6000);
            c.show = quote(in);
            judge(in, c);
        },
        60000, 600000 });
    cl.push_back({ "concatenation and purity",
        [](Src& s, Case& c) {
            const auto a = gen::text(s, 200), b = gen::text(s, 200);
            c.show = quote(a) + " + " + quote(b);
            auto a2 = a;
            auto ea = json_encode(a2), eb = json_encode(b);
            PBT_CHECK(a2 == a, "the argument was changed");
            PBT_CHECK(json_encode(a + b) == ea + eb, "encoding of the concatenation differs from concatenated encodings");
            PBT_CHECK(json_encode(a) == ea, "a second call gives another answer");
            c.nontrivial = !a.empty() && !b.empty() && (ea != a || eb != b);
        },
        40000, 400000 });
    cl.push_back({ "long texts",
        [](Src& s, Case& c) {
            auto piece = gen::text(s, 40), tail = gen::text(s, 20);
            auto in = gen::stretched(s, piece, tail);
            c.show = std::to_string(in.size()) + " bytes: " + quote(piece) + " again and again, then " + quote(tail);
            judge(in, c);
        },
        150, 1500 });
    return run(argc, argv, "C02",
        "UTF-8 texts (all ASCII characters and pairs, all of the basic plane, random with lengths up to 6000, long ones up to 256 KiB); "
        "non-trivial: at least two bytes, with a character that needs an escape or is not ASCII",
        cl);
}
