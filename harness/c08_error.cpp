#include <fmt/format.h>

#include "libqasm/error.hpp"
#include "loc.hpp"

using namespace pbt;
using namespace loc;
using cqasm::error::Error;

namespace cqasm::checks {
CQASM_ANALYSIS_ERROR(CustomError);
}
using cqasm::checks::CustomError;

struct Node : cqasm::tree::Annotatable {};

static std::string render(const SL& l) {  // as decided by C05; here only for what the code under test prints
    std::ostringstream o;
    o << l;
    return o.str();
}

struct Model {
    std::string message;
    bool located = false;
    SL location;
};

static void judge(const Error& e, const Model& m) {
    std::string text = "Error" + (m.located ? " at " + render(m.location) : std::string{}) + ": " +
        (m.message.empty() ? "<unknown error message>" : m.message);
    // what() is a C string: it ends at the first NUL.
    PBT_CHECK(std::string{ e.what() } == std::string{ text.c_str() }, "the text is " << quote(e.what()) << ", expected " << quote(text));
    const std::exception& base = e;
    PBT_CHECK(std::string{ base.what() } == std::string{ text.c_str() }, "the text as std::exception is " << quote(base.what()));
    std::ostringstream o;
    o << e;
    PBT_CHECK(o.str() == std::string{ text.c_str() }, "printed " << quote(o.str()));
    PBT_CHECK(fmt::format("{}", e) == std::string{ text.c_str() }, "formatted " << quote(fmt::format("{}", e)));

    auto j = gen::read_json(e.to_json());
    auto pos = [&](const char* which, std::uint32_t line, std::uint32_t column) {
        auto& p = j.at("range").at(which);
        PBT_CHECK(p.at("line").num() == std::to_string(line), which << " line is " << p.at("line").num());
        PBT_CHECK(p.at("character").num() == std::to_string(column), which << " character is " << p.at("character").num());
    };
    auto z = m.located ? m.location : SL{};
    pos("start", z.range.first.line, z.range.first.column);
    pos("end", z.range.last.line, z.range.last.column);
    auto msg = m.message.empty() ? std::string{ "<unknown error message>" } : m.message;
    PBT_CHECK(j.at("message").str() == msg, "JSON message is " << quote(j.at("message").str()));
    PBT_CHECK(j.at("severity").num() == "1", "severity is " << j.at("severity").num());
    bool named = m.located && m.location.file_name.has_value();
    PBT_CHECK(j.has("relatedInformation") == named, "relatedInformation is " << (named ? "missing" : "there without a file name"));
    if (named) {
        auto& ri = j.at("relatedInformation");
        PBT_CHECK(ri.kind == gen::Json::array && ri.a.size() == 1, "relatedInformation is not one entry");
        auto uri = ri.a[0].at("location").at("uri").str();
        PBT_CHECK(uri.rfind("file:///", 0) == 0, "uri is " << quote(uri));
        PBT_CHECK(gen::url_decode(uri.substr(8)) == *m.location.file_name, "uri is " << quote(uri));
        for (unsigned char c : uri.substr(8)) {
            PBT_CHECK(gen::unreserved(c) || c == '%', "uri is not encoded: " << quote(uri));
        }
        auto& at = ri.a[0].at("location").at("range");
        for (auto* which : { "start", "end" }) {
            for (auto* part : { "line", "character" }) {
                PBT_CHECK(at.at(which).at(part).num() == "0", "the related location's " << which << " " << part << " is "
                                                                  << at.at(which).at(part).num());
            }
        }
        PBT_CHECK(ri.a[0].at("message").kind == gen::Json::string && !ri.a[0].at("message").str().empty(),
            "relatedInformation has no message");
    }
}

static std::string message(Src& s) {
    if (s.chance(1, 2000)) {
        return gen::stretched(s, gen::text(s, 10), gen::text(s, 10), 14);
    }
    switch (s.weighted({ 1, 3, 4 })) {
        case 0: return "";
        case 1: return s.pick({ "failed", "a {} b", "{0}", "%s %d", "}{", "Error: x", "c:\\x\"y\"\n" });
        default: {
            auto t = gen::text(s, 300);
            return t;
        }
    }
}

static SL location(Src& s) {
    auto f = index(s);
    return SL{ file_name(s), Range{ f, near(s, f) } };
}

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    cl.push_back({ "histories of one error",
        [](Src& s, Case& c) {
            Model m;
            m.message = message(s);
            std::ostringstream o;
            o << quote(m.message);
            auto plain = [&] { return Node{}; };
            auto located = [&](SL& out) {
                Node n;
                out = location(s);
                n.set_annotation(out);
                return n;
            };
            std::optional<Error> e;
            SL l;
            switch (s.draw(7)) {
                case 0:
                    o << " no node";
                    e.emplace(m.message);
                    break;
                case 1: {
                    auto n = plain();
                    o << " unlocated node";
                    e.emplace(m.message, &n);
                    break;
                }
                case 2: {
                    auto n = located(l);
                    e.emplace(m.message, &n);
                    m.located = true, m.location = l;
                    o << " node at " << render(l);
                    break;
                }
                case 3:
                    l = location(s);
                    e.emplace(m.message, std::make_shared<SL>(l));
                    m.located = true, m.location = l;
                    o << " at " << render(l);
                    break;
                case 4:
                    o << " null location";
                    e.emplace(m.message, std::shared_ptr<SL>{});
                    break;
                case 5: {
                    auto f = file_name(s);
                    auto i = index(s);
                    Range r{ i, near(s, i) };
                    e.emplace(m.message, f, r);
                    m.located = true, m.location = SL{ f, r };
                    o << " fields " << render(m.location);
                    break;
                }
                default: {
                    auto n = located(l);
                    e.emplace(CustomError{ std::string{ m.message }, &n });
                    m.located = true, m.location = l;
                    o << " derived class, node at " << render(l);
                }
            }
            c.show = o.str();
            bool first = m.located;
            auto steps = s.draw(6);
            unsigned attached = 0;
            for (std::uint64_t i = 0; i < steps; ++i) {
                switch (s.draw(6)) {
                    case 0: judge(*e, m); break;
                    case 1: {
                        auto n = plain();
                        e->context(n);
                        o << "; context without location";
                        break;
                    }
                    case 2:
                    case 3: {
                        auto n = located(l);
                        e->context(n);
                        ++attached;
                        if (!m.located) {
                            m.located = true, m.location = l;
                        }
                        // The node may move on or go away afterwards.
                        SL other = location(s);
                        n.set_annotation(other);
                        o << "; context " << render(l);
                        break;
                    }
                    case 4: {
                        Error copy{ *e };
                        judge(copy, m);
                        auto n = located(l);
                        copy.context(n);
                        o << "; copy with context " << render(l);
                        if (s.flip()) {
                            e.emplace(copy);
                            if (!m.located) {
                                m.located = true, m.location = l;
                            }
                            o << " kept";
                        }
                        break;
                    }
                    default:
                        try {
                            throw Error{ *e };
                        } catch (const std::runtime_error& r) {
                            auto* x = dynamic_cast<const Error*>(&r);
                            PBT_CHECK(x, "not caught as what it is");
                            judge(*x, m);
                        }
                        o << "; thrown";
                }
                c.show = o.str();
                judge(*e, m);
            }
            judge(*e, m);
            judge(*e, m);
            c.nontrivial = m.located;
            c.label(m.message.empty() ? "empty message" : "message");
            c.label(!m.located ? "never located" : first ? attached ? "located, later contexts ignored" : "located" : "located by context");
            c.label(m.located && m.location.file_name ? "file name" : "no file name");
        },
        120000, 1000000 });
    cl.push_back({ "errors in a list keep their own data",
        [](Src& s, Case& c) {
            cqasm::error::AnalysisErrors list;
            std::vector<Model> ms;
            auto n = 1 + s.draw(6);
            for (std::uint64_t i = 0; i < n; ++i) {
                Model m;
                m.message = message(s);
                if (s.flip()) {
                    m.located = true;
                    m.location = location(s);
                    list.emplace_back(m.message, m.location.file_name, m.location.range);
                } else {
                    list.emplace_back(m.message);
                }
                ms.push_back(m);
                c.show += quote(m.message) + (m.located ? "@" + render(m.location) : "") + " ";
            }
            for (std::size_t i = 0; i < list.size(); ++i) {
                judge(list[i], ms[i]);
            }
            // What what() returned stays as it is, whatever the other errors and further calls do.
            const auto& fixed = list;
            std::vector<const char*> pointers;
            for (auto& e : fixed) {
                pointers.push_back(e.what());
            }
            for (std::size_t i = list.size(); i-- > 0;) {
                judge(fixed[i], ms[i]);
            }
            for (std::size_t i = 0; i < list.size(); ++i) {
                PBT_CHECK(std::string{ pointers[i] } == std::string{ fixed[i].what() },
                    "the string returned by what() of error " << i << " has become " << quote(pointers[i]));
            }
            c.nontrivial = n > 1;
        },
        30000, 300000 });
    return run(argc, argv, "C08",
        "messages (empty, format-like, UTF-8 texts up to 300 characters), locations, all constructors, up to 5 further "
        "steps (context, copy, throw, read); non-trivial: a location is attached, or several errors",
        cl);
}
