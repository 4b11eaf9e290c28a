#include "gen.hpp"
#include "libqasm/string_builder.hpp"

using namespace pbt;

int main(int argc, char** argv) {
    static const std::vector<std::pair<std::string, std::string>> known = { { "\\t", "\t" }, { "\\n", "\n" },
        { "\\r", "\r" }, { "\\'", "'" }, { "\\\"", "\"" }, { "\\\\", "\\" } };
    auto denote = [](const std::string& e) {
        for (auto& [k, v] : known) {
            if (k == e) {
                return v;
            }
        }
        return e;
    };
    std::vector<Clause> cl;
    cl.push_back({ "every one-character escape",
        [=](Src& s, Case& c) {
            auto b = s.draw(256);
            cqasm::syntactic::StringBuilder sb;
            auto pre = gen::bytes(s, 6), post = gen::bytes(s, 6);
            std::string e{ '\\', static_cast<char>(b) };
            sb.push_string(pre);
            sb.push_escape(e);
            sb.push_string(post);
            c.show = quote(pre) + " " + quote(e) + " " + quote(post);
            auto want = pre + denote(e) + post;
            PBT_CHECK(sb.stream.str() == want, "built " << quote(sb.stream.str()) << ", expected " << quote(want));
            c.nontrivial = true;
            c.label(denote(e) != e ? "known escape" : "unknown escape");
        },
        20000, 200000, 256 });
    cl.push_back({ "sequences",
        [=](Src& s, Case& c) {
            cqasm::syntactic::StringBuilder sb;
            std::string want;
            std::ostringstream o;
            auto n = s.length(60);
            std::size_t escapes = 0, strings = 0;
            for (std::size_t i = 0; i < n; ++i) {
                switch (s.weighted({ 3, 3, 1, 1 })) {
                    case 0: {
                        auto t = gen::bytes(s, s.chance(1, 20) ? 5000 : 20);
                        o << " str" << quote(t);
                        sb.push_string(t);
                        want += t;
                        ++strings;
                        break;
                    }
                    case 1: {
                        auto e = s.pick(known).first;
                        o << " esc" << quote(e);
                        sb.push_escape(e);
                        want += denote(e);
                        ++escapes;
                        break;
                    }
                    case 2: {
                        // A known escape's text as a plain fragment stays as it is.
                        auto e = s.pick(known).first;
                        o << " str" << quote(e);
                        sb.push_string(e);
                        want += e;
                        ++strings;
                        break;
                    }
                    default: {
                        std::string e = s.pick({ std::string{ "\\" }, std::string{ "\\a" }, std::string{ "\\x41" },
                            std::string{ "\\tt" }, std::string{ "\\nn" }, std::string{ "\\T" }, std::string{ "\\0" },
                            std::string{ "t" }, std::string{ "" }, std::string{ "\\\\\\" }, std::string{ "\\ " } });
                        o << " esc" << quote(e);
                        sb.push_escape(e);
                        want += denote(e);
                        ++escapes;
                    }
                }
                if (s.chance(1, 8)) {
                    PBT_CHECK(sb.stream.str() == want, "after " << o.str() << " built " << quote(sb.stream.str()));
                }
            }
            c.show = o.str();
            PBT_CHECK(sb.stream.str() == want, "built " << quote(sb.stream.str()) << ", expected " << quote(want));
            PBT_CHECK(sb.stream.str() == want, "reading again differs");
            c.nontrivial = escapes > 0 && strings > 0;
            c.label(escapes && strings ? "mixed" : escapes ? "escapes only" : strings ? "fragments only" : "empty");
        },
        80000, 800000 });
    cl.push_back({ "two builders do not share anything",
        [=](Src& s, Case& c) {
            cqasm::syntactic::StringBuilder a, b;
            std::string wa, wb;
            auto n = s.length(20);
            for (std::size_t i = 0; i < n; ++i) {
                bool first = s.flip();
                auto e = s.pick(known).first;
                auto t = gen::bytes(s, 5);
                (first ? a : b).push_escape(e);
                (first ? a : b).push_string(t);
                (first ? wa : wb) += denote(e) + t;
                c.show += (first ? "a" : "b") + quote(e) + quote(t) + " ";
            }
            PBT_CHECK(a.stream.str() == wa && b.stream.str() == wb, "built " << quote(a.stream.str()) << " and " << quote(b.stream.str()));
            c.nontrivial = !wa.empty() && !wb.empty();
        },
        20000, 200000 });
    return run(argc, argv, "C09",
        "sequences of up to 60 fragments (all bytes) and escapes (known, unknown, malformed); non-trivial: at least one "
        "fragment and one escape",
        cl);
}
