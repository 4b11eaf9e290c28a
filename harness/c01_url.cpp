#include "gen.hpp"
#include "libqasm/utils.hpp"

using namespace pbt;
using cqasm::utils::url_encode;

static void judge(const std::string& in, Case& c) {
    auto out = url_encode(in);
    // What each input byte must have become, written from RFC 3986, not from the code.
    std::string expected;
    std::size_t escaped = 0;
    for (unsigned char b : in) {
        if (gen::unreserved(b)) {
            expected += static_cast<char>(b);
        } else {
            expected += '%';
            expected += "0123456789ABCDEF"[b >> 4];
            expected += "0123456789ABCDEF"[b & 15];
            ++escaped;
        }
    }
    for (unsigned char b : out) {
        PBT_CHECK(gen::unreserved(b) || b == '%', "output " << quote(out) << " has a character that is not unreserved");
    }
    PBT_CHECK(gen::url_decode(out) == in, "decoding " << quote(out) << " does not give the input back");
    PBT_CHECK(out == expected, "encoded as " << quote(out) << ", expected " << quote(expected));
    c.nontrivial = escaped > 0 && in.size() >= 2;
    c.label(escaped == 0 ? "no escape" : escaped == in.size() ? "all escaped" : "mixed");
    c.label(in.size() > 255 ? "length > 255" : in.size() > 16 ? "length 17..255" : "length <= 16");
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    cl.push_back({ "every byte, in context",
        [](Src& s, Case& c) {
            auto b = s.draw(256);
            auto pre = gen::bytes(s, 20), post = gen::bytes(s, 20);
            auto in = pre + static_cast<char>(b) + post;
            c.show = quote(in);
            judge(in, c);
        },
        30000, 400000, 256 });
    cl.push_back({ "every pair of bytes",
        [](Src& s, Case& c) {
            auto v = s.draw(65536);
            std::string in{ static_cast<char>(v >> 8), static_cast<char>(v & 255) };
            c.show = quote(in);
            judge(in, c);
        },
        65536, 65536, 65536 });
    cl.push_back({ "byte strings",
        [](Src& s, Case& c) {
            auto in = gen::bytes(s, 12000);
            c.show = quote(in);
            judge(in, c);
        },
        60000, 600000 });
    cl.push_back({ "concatenation, and the argument is left alone",
        [](Src& s, Case& c) {
            const auto a = gen::bytes(s, 300), b = gen::bytes(s, 300);
            c.show = quote(a) + " + " + quote(b);
            auto a2 = a;
            auto ea = url_encode(a2), eb = url_encode(b);
            PBT_CHECK(a2 == a, "the argument was changed");
            PBT_CHECK(url_encode(a + b) == ea + eb, "encoding of the concatenation differs from concatenated encodings");
            PBT_CHECK(url_encode(a) == ea, "a second call gives another answer");
            c.nontrivial = !a.empty() && !b.empty() && (ea != a || eb != b);
        },
        40000, 400000 });
    cl.push_back({ "long strings",
        [](Src& s, Case& c) {
            auto piece = gen::bytes(s, 40), tail = gen::bytes(s, 20);
            auto in = gen::stretched(s, piece, tail);
            c.show = std::to_string(in.size()) + " bytes: " + quote(piece) + " again and again, then " + quote(tail);
            judge(in, c);
        },
        150, 1500 });
    return run(argc, argv, "C01",
        "byte strings (all bytes, all pairs, random with lengths up to 12000 incl. one off powers of 2 and 10, long ones up to 256 KiB); "
        "non-trivial: at least two bytes, at least one needing an escape",
        cl);
}
