// Calls of the helpers, of locations, versions, errors, string builders, overload tables and results, with their answers as text.
// Shared by the checks that are about where and when such calls are made (C33, C35, C36).
#pragma once

#include <fmt/format.h>

#include "gen.hpp"
#include "libqasm/error.hpp"
#include "libqasm/overload.hpp"
#include "libqasm/result.hpp"
#include "libqasm/string_builder.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/version.hpp"
#include "loc.hpp"

namespace work {
using pbt::Src;

// A minimal tree, and types and values for an overload table.
struct Leaf : cqasm::tree::Base {
    std::string text;
    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap&) const override {
        map.append_string("@t", "Leaf");
        map.append_string("text", text);
    }
    void dump_json(std::ostream& os) const { os << "{\"Leaf\":" << pbt::json_string(text) << "}"; }
};
struct Result {
    cqasm::tree::One<Leaf> root;
    std::vector<cqasm::error::Error> errors;
};
struct Kind : cqasm::tree::Base {
    std::uint64_t accepts = 0;
};
struct Thing : cqasm::tree::Base {
    std::uint64_t kind = 0;
};
inline cqasm::tree::Maybe<Thing> promote(const cqasm::tree::One<Thing>& v, const cqasm::tree::One<Kind>& t) {
    if (!(t->accepts >> v->kind & 1)) {
        return {};
    }
    auto n = std::make_shared<Thing>();
    n->kind = v->kind ^ 1;
    return cqasm::tree::Maybe<Thing>{ n };
}

struct Job {
    std::uint64_t what = 0;
    std::string a, b;
    std::optional<std::string> name;
    loc::Range range;
};
inline const char* const names[] = { "url", "json", "lower", "equal", "quotes", "version", "location", "error", "strings", "overloads", "result" };
constexpr std::uint64_t kinds = sizeof names / sizeof *names;

inline Job job(Src& s) {
    Job j;
    j.what = s.draw(kinds);
    j.a = gen::text(s, 40);
    j.b = s.flip() ? gen::text(s, 10) : j.a;
    if (s.chance(1, 3)) {
        for (auto& c : j.b) {
            c = static_cast<char>((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? c ^ 32 : c);
        }
    }
    j.name = loc::file_name(s);
    auto f = loc::index(s);
    j.range = loc::Range{ f, loc::near(s, f) };
    return j;
}
inline std::string written(const Job& j) { return std::string{ names[j.what] } + " " + pbt::quote(j.a); }

inline std::string answer(const Job& j) {
    using namespace cqasm;
    switch (j.what) {
        case 0: return utils::url_encode(j.a);
        case 1: return utils::json_encode(j.a);
        case 2: return utils::to_lowercase(j.a);
        case 3: return std::to_string(utils::equal_case_insensitive(j.a, j.b));
        case 4: return utils::remove_triple_quotes("'''" + j.a + "'''");
        case 5: {
            version::Version v{ std::to_string(j.range.first.line % 1000) + "." + std::to_string(j.range.last.line % 1000) };
            version::Version w{ std::to_string(j.range.last.column % 1000) };
            std::ostringstream o;
            o << v << " " << w << " " << (v < w) << (v == w);
            return o.str();
        }
        case 6: {
            loc::SL l{ j.name, j.range };
            l.expand_to_include(j.range.last);
            std::ostringstream o;
            o << l;
            return o.str() + fmt::format(" {}", l);
        }
        case 7: {
            error::Error e{ j.a, j.name, j.range };
            std::string t = e.what();
            return t + "\n" + e.to_json() + fmt::format("\n{}", e);
        }
        case 8: {
            syntactic::StringBuilder b;
            b.push_string(j.a);
            b.push_escape("\\n");
            b.push_escape(j.b);
            return b.stream.str();
        }
        case 9: {
            cqasm::overload::OverloadedNameResolver<std::string, Kind, Thing> table;
            auto bits = j.range.first.line;
            for (int k = 0; k < 3; ++k) {
                cqasm::tree::Any<Kind> types;
                for (std::uint32_t n = bits >> k & 3; n > 0; --n) {
                    auto t = std::make_shared<Kind>();
                    t->accepts = (bits >> n) & 15;
                    types.add(cqasm::tree::One<Kind>{ t });
                }
                table.add_overload(k == 1 ? j.b : j.a, std::to_string(k), types);
            }
            cqasm::tree::Any<Thing> values;
            for (std::uint32_t n = j.range.last.line & 3; n > 0; --n) {
                auto v = std::make_shared<Thing>();
                v->kind = j.range.last.column >> n & 3;
                values.add(cqasm::tree::One<Thing>{ v });
            }
            auto other = table;
            try {
                auto [tag, promoted] = other.resolve(j.a, values);
                std::string r = tag;
                for (auto& p : promoted) {
                    r += " " + std::to_string(p->kind);
                }
                return r;
            } catch (const cqasm::overload::NameResolutionFailure&) {
                return "name";
            } catch (const cqasm::overload::OverloadResolutionFailure&) {
                return "overload";
            }
        }
        default: {
            Result r;
            auto leaf = std::make_shared<Leaf>();
            leaf->text = j.a;
            r.root = cqasm::tree::One<Leaf>{ leaf };
            for (auto n = j.range.first.line & 3; n > 0; --n) {
                r.errors.emplace_back(j.b, j.name, j.range);
            }
            std::string t = cqasm::result::to_json(r);
            for (auto& x : cqasm::result::to_strings(r)) {
                t += "\n" + x;
            }
            return t;
        }
    }
}

}  // namespace work


