// C20: all ways to have a text read.
#include <sys/stat.h>

#include "large.hpp"
#include "emscripten_wrapper.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
using namespace pbt;
using Strings = std::vector<std::string>;

struct Dir {  // a directory of the case's own
    std::string path;
    Dir() {
        char name[] = "/tmp/c20-XXXXXX";
        path = ::mkdtemp(name);
    }
    ~Dir() {
        for (auto& f : files) {
            ::unlink(f.c_str());
        }
        ::rmdir(path.c_str());
    }
    std::vector<std::string> files;
    std::string write(const std::string& name, const std::string& text) {
        files.push_back(path + "/" + name);
        std::ofstream{ files.back(), std::ios::binary } << text;
        return files.back();
    }
};
static std::string plain_text(Src& s, Case& c) {
    progen::ProgramGen g{ s };
    model::Random layout{ s };
    layout.rate = 10;
    if (s.chance(1, 150)) {
        auto l = large::valid(s, s.pick({ 0, 1, 10 }));
        if (s.flip()) {
            l.p.stmts.push_back(decide::apply(decide::gate("Y"), { model::ident("none") }));
        }
        return model::text(l.p);
    }
    if (s.chance(1, 60)) {  // a text of some size
        g.valid(3);
        auto t = model::text(g.p);
        auto filling = s.draw(3);
        auto n = large::size(s, filling == 2 ? 8000 : 300000);  // every line end takes its time in the parser
        t += filling == 0 ? "/*" + std::string(n, 'x') + "*/" : filling == 1 ? "//" + std::string(n, 'y') + "\n" : std::string(n, '\n');
        return t + (s.flip() ? "qubit zzz" : "X none");
    }
    switch (s.weighted({ 4, 4, 3, 1 })) {
        case 0: g.valid(10); break;
        case 1:
            for (auto n = 1 + s.length(8); n > 0; --n) {
                s.flip() ? (void)g.faulty_statement() : g.valid_statement();
            }
            break;
        case 2: {
            g.valid(5);
            auto t = model::text(g.p);
            auto at = s.draw(t.size());
            while (at > 0 && (static_cast<unsigned char>(t[at]) & 0xC0) == 0x80) {
                --at;
            }
            t.insert(at, s.pick({ std::string{ "@" }, std::string{ "\"" }, std::string{ "(" }, std::string{ "qubit" }, std::string{ "'''" }, std::string{ "/*" }, std::string{ "é" } }));
            return t;
        }
        default:
            return s.pick({ std::string{}, std::string{ "\n" }, std::string{ "version 3.0" }, std::string{ "version 3.0\r\nqubit q\r\nX q" }, std::string{ "version 4\n" }, std::string{ "qubit q" }, std::string{ "version 3;qubit q;H q" }, std::string{ " " },
                std::string{ "version 3.0\nasm(é) ''''''" }, std::string{ "version 3.0\n// no end" }, std::string{ "version 3.0\nqubit q\nX q\n" } + std::string(2000, '\n') + "Y q\n" });
    }
    (void)c;
    auto t = s.flip() ? model::text(g.p) : model::write(g.p, layout);
    while (!t.empty() && t.back() == '\n' && s.flip()) {
        t.pop_back();
    }
    return t;
}
// Sometimes with other beginnings and ends.
static std::string text(Src& s, Case& c) {
    auto t = plain_text(s, c);
    if (s.chance(1, 5)) {
        t += s.pick({ "", "\n/*", "\nasm(A) '''", "\nqubit", "\nX", "\nRx(", "//", "\n\"" });
        auto blank = s.pick({ "\n", "\r\n", "\r\n", "\r", " ", "\t", "x", ";", "\xc3\xa9" });
        for (auto n = s.length(4); n > 0; --n) {
            t += blank;
        }
        c.label("another end");
    } else if (s.chance(1, 10)) {
        for (auto n = 1 + s.length(6); n > 0; --n) {
            t += s.pick({ std::string{ "\n" }, std::string{ "\r\n" }, std::string{ "\r" }, std::string{ " " }, std::string{ "\t" }, std::string{ ";" }, std::string{ "\x1a" }, std::string(1, '\0'), std::string{ "/*" }, std::string{ "*/" },
                std::string{ "//" }, std::string{ "'''" }, std::string{ "\\" }, std::string{ "\xc3\xa9" } });
        }
        c.label("another end");
    }
    if (s.chance(1, 20)) {
        t = s.pick({ std::string{ "\xef\xbb\xbf" }, std::string{ "\n" }, std::string{ " " }, std::string{ "\r\n" }, std::string(1, '\0'), std::string{ "/**/" } }) + t;
        c.label("another beginning");
    }
    return t;
}
// What a result should look like, from its parts.
template <class R>
static Strings as_strings(const R& r) {
    if (r.errors.empty()) {
        return { ::tree::base::serialize(r.root) };
    }
    Strings t = { "" };
    for (auto& e : r.errors) {
        t.push_back(e.what());
    }
    return t;
}
template <class R>
static std::string as_json(const R& r) {
    if (r.errors.empty()) {
        std::ostringstream o;
        r.root->dump_json(o);
        return o.str();
    }
    std::string t;
    for (auto& e : r.errors) {
        t += (t.empty() ? "" : ",") + e.to_json();
    }
    return "{\"errors\":[" + t + "]}";
}
static std::string join(const Strings& v) {
    std::string r;
    for (auto& x : v) {
        r += quote(x) + "\n";
    }
    return r;
}
template <class R>
static std::string all(const R& r) {
    return join(as_strings(r)) + as_json(r);
}

int main(int argc, char** argv) {
    auto entries = [](Src& s, Case& c) {
        auto t = text(s, c);
        c.show = t.size() > 2000 ? t.substr(0, 2000) + "..." : t;
        Dir dir;
        auto path = dir.write(s.pick({ std::string{ "a.cq" }, std::string{ "a b.cq" }, std::string{ "é%\".cq" }, std::string{ "x" } }), t);
        auto name = s.pick({ std::optional<std::string>{}, std::optional<std::string>{ "n.cq" }, std::optional<std::string>{ s.pick({ std::string{ "dir/" }, std::string{ "/" }, std::string{ " n.cq " }, std::string{ "./n.cq" }, std::string{ "C:\\n.cq" }, std::string{ "n" }, std::string{ "<unknown file name>" }, std::string{ "file:///n.cq" } }) }, std::optional<std::string>{ path }, std::optional<std::string>{ "dir/with space/é.cq" }, std::optional<std::string>{ std::string(1 + s.draw(3000), 'n') } });
        auto text_name = name.value_or("");
#define SAME(what, got, want) \
    do { \
        auto g_ = (got); \
        auto w_ = (want); \
        PBT_CHECK(g_ == w_, what " gives\n" << g_ << "\ninstead of\n" << w_ << "\nfor " << (name ? *name : "no name") << ":\n" << c.show); \
    } while (false)
        namespace ps = lib::v3::parser;
        // parsing
        auto p = ps::parse_string(t, name);
        auto anonymous = ps::parse_string(t, std::nullopt);
        c.label(p.errors.empty() ? "parsed" : "syntax error");
        SAME("ParseResult::to_strings", join(p.to_strings()), join(as_strings(p)));
        SAME("ParseResult::to_json", p.to_json(), as_json(p));
        SAME("parse_file", all(ps::parse_file(path, name)), all(p));
        SAME("parse_file without a name", all(ps::parse_file(path, std::nullopt)), all(anonymous));
        SAME("an empty name", all(ps::parse_string(t, "")), all(anonymous));
        SAME("V3xAnalyzer::parse_string", join(V3xAnalyzer::parse_string(t, text_name)), join(as_strings(p)));
        SAME("V3xAnalyzer::parse_string_to_json", V3xAnalyzer::parse_string_to_json(t, text_name), as_json(p));
        SAME("V3xAnalyzer::parse_string without a name", join(V3xAnalyzer::parse_string(t)), join(as_strings(anonymous)));
        SAME("V3xAnalyzer::parse_string_to_json without a name", V3xAnalyzer::parse_string_to_json(t), as_json(anonymous));
        SAME("V3xAnalyzer::parse_file", join(V3xAnalyzer::parse_file(path)), join(as_strings(anonymous)));
        SAME("V3xAnalyzer::parse_file_to_json", V3xAnalyzer::parse_file_to_json(path), as_json(anonymous));
        EmscriptenWrapper js;
        SAME("EmscriptenWrapper::parse_string_to_json", js.parse_string_to_json(t, text_name), as_json(p));
        // analysing
        auto fresh = [] { return lib::v3::default_analyzer(); };
        auto a = fresh().analyze_string(t, name);
        auto unnamed = fresh().analyze_string(t, std::nullopt);
        c.label(a.errors.empty() ? "accepted" : p.errors.empty() ? "semantic error" : "not analysed");
        c.nontrivial = t.size() > 20;
        SAME("AnalysisResult::to_strings", join(a.to_strings()), join(as_strings(a)));
        SAME("AnalysisResult::to_json", a.to_json(), as_json(a));
        SAME("analyze(ParseResult)", all(fresh().analyze(p)), all(a));
        if (p.errors.empty()) {
            SAME("analyze(Program)", all(fresh().analyze(*p.root->as_program())), all(a));
        } else {
            SAME("the errors of parsing", join(as_strings(a)), join(as_strings(p)));
            PBT_CHECK(a.root.empty(), "syntax errors, and a semantic tree");
        }
        SAME("analyze_file", all(fresh().analyze_file(path)), all(fresh().analyze_string(t, path)));
        V3xAnalyzer w;
        SAME("V3xAnalyzer::analyze_string", join(w.analyze_string(t, text_name)), join(as_strings(a)));
        SAME("V3xAnalyzer::analyze_string_to_json", w.analyze_string_to_json(t, text_name), as_json(a));
        SAME("V3xAnalyzer::analyze_string without a name", join(w.analyze_string(t)), join(as_strings(unnamed)));
        SAME("V3xAnalyzer::analyze_string_to_json without a name", w.analyze_string_to_json(t), as_json(unnamed));
        SAME("V3xAnalyzer::analyze_file", join(w.analyze_file(path)), join(as_strings(unnamed)));
        SAME("V3xAnalyzer::analyze_file_to_json", w.analyze_file_to_json(path), as_json(unnamed));
        SAME("EmscriptenWrapper::analyze_string_to_json", js.analyze_string_to_json(t, text_name), as_json(a));
        // With or without a name, it is the same tree, or the same errors with another name.
        PBT_CHECK(a.errors.size() == unnamed.errors.size() && a.root.empty() == unnamed.root.empty(), "the name decides about the text");
        if (a.errors.empty()) {
            SAME("the tree without a name", lib::tree(*unnamed.root, {}), lib::tree(*a.root, {}));
        }
        for (std::size_t i = 0; i < a.errors.size(); ++i) {
            auto x = lib::err(a.errors[i]), y = lib::err(unnamed.errors[i]);
            PBT_CHECK(x.message == y.message && x.at == y.at && x.file == name && !y.file, "an error with a name: " << x.json << " and without one: " << y.json);
        }
        // The functions that return the tree or throw.
        auto thrown = [&](const char* what, const lib::v3::analyzer::AnalysisResult& want, auto f) {
            std::ostringstream out;
            auto* old = std::cerr.rdbuf(out.rdbuf());
            std::string got;
            bool failed = false;
            try {
                auto root = f();
                got = root.empty() ? "nothing" : ::tree::base::serialize(root);
            } catch (const lib::v3::analyzer::AnalysisFailed&) {
                failed = true;
            } catch (...) {
                std::cerr.rdbuf(old);
                throw;
            }
            std::cerr.rdbuf(old);
            PBT_CHECK(failed == !want.errors.empty(), what << (failed ? " fails" : " does not fail") << " for:\n" << c.show);
            if (!failed) {
                PBT_CHECK(got == ::tree::base::serialize(want.root), what << " gives another tree for:\n" << c.show);
                PBT_CHECK(out.str().empty(), what << " prints " << out.str());
                return;
            }
            std::string messages;
            for (auto& e : want.errors) {
                messages += (messages.empty() ? "" : "\n") + std::string{ e.what() };
            }
            auto printed = out.str();
            while (!printed.empty() && printed.back() == '\n') {
                printed.pop_back();
            }
            PBT_CHECK(printed == messages, what << " prints\n" << out.str() << "\ninstead of\n" << messages);
        };
        thrown("analyze_string", a, [&] { return lib::v3::analyze_string(t, name); });
        thrown("analyze_string for 3.0", a, [&] { return lib::v3::analyze_string(t, name, "3.0"); });
        thrown("analyze_file", unnamed, [&] { return lib::v3::analyze_file(path); });
        thrown("unwrap", a, [&] { return a.unwrap(); });
        std::ostringstream other;
        try {
            (void)a.unwrap(other);
        } catch (const lib::v3::analyzer::AnalysisFailed&) {
        }
        PBT_CHECK(other.str().empty() == a.errors.empty(), "unwrap(stream) does not write to the stream");
    };
    // A text read through any entry point is what the model has for it.
    auto content = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(8);
        auto t = model::text(g.p);
        c.show = t;
        c.nontrivial = g.p.stmts.size() > 2;
        auto r = oracle::analyse(g.p);
        Dir dir;
        auto path = dir.write("p.cq", t);
        std::string bytes;
        switch (s.draw(4)) {
            case 0: bytes = V3xAnalyzer{}.analyze_file(path).at(0); break;
            case 1: bytes = V3xAnalyzer{}.analyze_string(t).at(0); break;
            case 2: bytes = lib::v3::default_analyzer().analyze_file(path).to_strings().at(0); break;
            default: bytes = ::tree::base::serialize(lib::v3::analyze_file(path));
        }
        cqasm::tree::One<lib::sem::Program> root{ ::tree::base::deserialize<lib::sem::Node>(bytes) };
        auto want = oracle::written(g.p, r, {});
        auto got = lib::tree(*root, {});
        PBT_CHECK(lib::agree(want, got, r.rough), "read back:\n" << got << "expected:\n" << want << "for:\n" << t);
    };
    return run(argc, argv, "C20", "texts (valid, faulty, with syntax errors, odd ones), each through every entry point; non-trivial: more than 20 characters",
        { { "entry points", entries, 2500, 50000 }, { "content", content, 800, 20000 } });
}
