// C30: the version statement.
#include "decide.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
using namespace pbt;

static std::string digits(Src& s) {
    switch (s.weighted({ 5, 3, 2, 1 })) {
        case 0: return std::string(s.chance(1, 4) ? s.draw(4) : 0, '0') + std::to_string(s.draw(6));
        case 1: return s.pick({ std::string{ "3" }, std::string{ "0" } });
        case 2: {
            std::string r;
            for (auto n = 1 + s.draw(19); n > 0; --n) {
                r += static_cast<char>('0' + s.draw(10));
            }
            return r;
        }
        default: return s.pick({ std::string{ "9223372036854775807" }, std::string{ "9223372036854775808" }, std::string{ "4294967299" }, std::string{ "18446744073709551619" }, std::string{ "99999999999999999999999999" }, std::string{ "000000000000000000000000000003" } });
    }
}
static std::string version(Src& s) {
    return s.chance(1, 4) ? digits(s) : (s.chance(1, 3) ? "3" : digits(s)) + "." + digits(s);
}
static bool in_range(const std::string& v) {
    auto dot = v.find('.');
    return oracle::int_in_range(v.substr(0, dot)) && (dot == std::string::npos || oracle::int_in_range(v.substr(dot + 1)));
}
static bool supported(const std::string& v) {
    auto t = oracle::version_text(v);
    return t == "3" || t == "3.0";
}

int main(int argc, char** argv) {
    auto gate = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        for (auto n = s.draw(5); n > 0; --n) {
            s.chance(1, 4) ? (void)g.faulty_statement() : g.valid_statement();
        }
        g.p.version = version(s);
        model::Random layout{ s };
        layout.rate = 12;
        auto text = s.flip() ? model::text(g.p) : model::write(g.p, layout);
        c.show = text;
        c.nontrivial = true;
        auto p = lib::parse(text);
        auto a = lib::analyse(text);
        if (!in_range(g.p.version)) {
            c.label("no such number");
            PBT_CHECK(p.errors.size() == 1 && a.errors.size() == 1, "the version is no number in range, but:\n" << lib::outcome(a) << "for:\n" << text);
            auto dot = g.p.version.find('.');
            auto first = g.p.version.substr(0, dot);
            auto bad = oracle::int_in_range(first) ? g.p.version.substr(dot + 1) : first;
            PBT_CHECK(p.errors[0].message.find("'" + bad + "'") != std::string::npos, "the error does not name the number " << bad << ": " << p.errors[0].what);
            auto offset = static_cast<std::uint32_t>(bad == first && !oracle::int_in_range(first) ? 0 : dot + 1);
            PBT_CHECK(p.errors[0].at.l1 == g.p.version_at.l1 && p.errors[0].at.c1 == g.p.version_at.c1 + offset, "the error is elsewhere: " << p.errors[0].what << " for:\n" << text);
            return;
        }
        oracle::Form f{ true };
        PBT_CHECK(p.tree, "not parsed: " << lib::show(p.errors) << "for:\n" << text);
        auto r = oracle::analyse(g.p);
        if (supported(g.p.version)) {
            c.label("supported");
            PBT_CHECK(a.errors.size() == r.faults.size(), a.errors.size() << " errors for " << r.faults.size() << " faults:\n" << lib::show(a.errors) << "for:\n" << text);
            if (a.tree) {
                PBT_CHECK(lib::agree(oracle::written(g.p, r, {}), *a.tree, r.rough), "semantic tree:\n" << *a.tree << "for:\n" << text);
            }
            return;
        }
        c.label("not supported");
        PBT_CHECK(a.errors.size() == r.faults.size() + 1, a.errors.size() << " errors for a wrong version and " << r.faults.size() << " faults:\n" << lib::show(a.errors) << "for:\n" << text);
        auto& e = a.errors[0];
        PBT_CHECK(e.at == g.p.version_at, "the error is elsewhere: " << e.what << "\nfor:\n" << text);
        auto shown = oracle::version_text(g.p.version);
        auto at = e.message.find(shown);
        bool whole = false;
        for (; at != std::string::npos; at = e.message.find(shown, at + 1)) {
            auto edge = [&](std::size_t i) { return i >= e.message.size() || !(std::isdigit(static_cast<unsigned char>(e.message[i])) || (e.message[i] == '.' && i + 1 < e.message.size() && std::isdigit(static_cast<unsigned char>(e.message[i + 1])))); };
            whole = whole || (edge(at + shown.size()) && (at == 0 || edge(at - 1)));
        }
        PBT_CHECK(whole && e.message.find("3.0") != std::string::npos, "the error does not name the versions " << shown << " and 3.0: " << e.what);
    };
    // Missing, doubled, misplaced, malformed.
    auto misplaced = [](Src& s, Case& c) {
        progen::ProgramGen g{ s };
        g.valid(4);
        std::erase_if(g.p.stmts, [](auto& st) { return st->kind == model::Stmt::assembly; });  // whose text may have line ends
        g.p.stmts.push_back(decide::variable("bit", "last_one"));
        auto text = model::text(g.p);
        std::vector<std::string> lines;
        for (std::size_t i = 0, j; i < text.size(); i = j + 1) {
            j = text.find('\n', i);
            if (j == std::string::npos) {
                j = text.size();
            }
            lines.push_back(text.substr(i, j - i));
        }
        std::string word = lines[0];
        static const std::vector<std::string> malformed = { "version", "version x", "version 3.", "version .3", "version 3.0.0", "version 3.0 3.0", "version\n3.0", "version;3.0", "version -3.0", "version +3", "Version 3.0", "VERSION 3.0",
            "version 3,0", "version 3 .0", "version 3. 0", "version 3.0e0", "version '''3.0'''", "version (3.0)", "version 3.0 qubit zz", "version =3.0", "versions 3.0", "version v3.0", "version 3.x", "version /* */ 3.0", "version 0x3", "version 3.-0", "ver 3.0" };
        switch (s.draw(5)) {
            case 0: lines.erase(lines.begin()); break;
            case 1: lines.insert(lines.begin() + static_cast<long>(1 + s.draw(lines.size())), word); break;
            case 2: {
                auto to = 1 + s.draw(lines.size() - 1);
                std::swap(lines[0], lines[to]);
                break;
            }
            default: lines[0] = s.pick(malformed);
        }
        text.clear();
        for (auto& l : lines) {
            text += l + "\n";
        }
        c.show = text;
        c.nontrivial = true;
        auto p = lib::parse(text);
        auto a = lib::analyse(text);
        PBT_CHECK(p.errors.size() == 1 && a.errors.size() == 1, "accepted, or with " << p.errors.size() << " errors, without a proper version first:\n" << text << lib::outcome(a));
    };
    // Analyzers for other versions.
    auto analyzers = [](Src& s, Case& c) {
        std::string v;
        for (auto n = 1 + s.draw(4); n > 0; --n) {
            v += (v.empty() ? "" : ".") + (s.flip() ? std::to_string(s.draw(5)) : s.pick({ std::string{ "3" }, std::string{ "0" }, std::string{ "00" }, std::string{ "03" }, std::string{ "30" }, std::string{ "2147483647" } }));
        }
        std::vector<long long> parts;
        std::istringstream in{ v };
        for (std::string x; std::getline(in, x, '.');) {
            parts.push_back(std::stoll(x));
        }
        bool want = parts[0] == 3;
        for (std::size_t i = 1; i < parts.size(); ++i) {
            want = want && parts[i] == 0;
        }
        c.show = v;
        c.nontrivial = parts.size() > 1;
        c.label(want ? "supported" : "not supported");
        auto makes = [](auto f) {
            try {
                f();
                return true;
            } catch (const std::invalid_argument&) {
                return false;
            }
        };
        PBT_CHECK(makes([&] { lib::v3::analyzer::Analyzer a{ v }; }) == want, "Analyzer for " << v);
        PBT_CHECK(makes([&] { (void)lib::v3::default_analyzer(v); }) == want, "default_analyzer for " << v);
        PBT_CHECK(makes([&] { V3xAnalyzer a(v, false); }) == want, "V3xAnalyzer for " << v);
        PBT_CHECK(makes([&] { V3xAnalyzer a(v, true); }) == want, "V3xAnalyzer without defaults for " << v);
        PBT_CHECK(makes([&] { (void)lib::v3::analyze_string("version 3.0", std::nullopt, v); }) == want, "analyze_string for " << v);
        if (want) {  // and then it takes programs of that version, as usual
            auto a = lib::v3::default_analyzer(v);
            PBT_CHECK(a.analyze_string("version 3.0;qubit q", std::nullopt).errors.empty(), "an analyzer for " << v << " does not take version 3.0");
            PBT_CHECK(a.analyze_string("version 3.1;qubit q", std::nullopt).errors.size() == 1, "an analyzer for " << v << " takes version 3.1");
        }
    };
    return run(argc, argv, "C30", "version numbers and their places; non-trivial: all (third clause: more than one component)",
        { { "version numbers", gate, 6000, 150000 }, { "malformed and misplaced", misplaced, 2000, 40000 }, { "analyzers", analyzers, 800, 10000 } });
}
