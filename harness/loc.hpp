#pragma once
#include "gen.hpp"
#include "libqasm/annotations.hpp"

namespace loc {
using pbt::Src;
using SL = cqasm::annotations::SourceLocation;
using Index = SL::Index;
using Range = SL::Range;

inline std::string show(const Index& i) {
    return std::to_string(i.line) + ":" + std::to_string(i.column);
}
inline std::string show(const Range& r) {
    return "[" + show(r.first) + " " + show(r.last) + "]";
}
inline std::string show(const std::optional<std::string>& f) {
    return f ? pbt::quote(*f) : "none";
}
inline Index index(Src& s) {
    Index i;
    i.line = gen::u32(s);
    i.column = gen::u32(s);
    return i;
}
// A position near another one, so that equal and adjacent coordinates are frequent.
inline Index near(Src& s, const Index& o) {
    Index i = o;
    switch (s.weighted({ 2, 2, 2, 3 })) {
        case 0: i.column = o.column + static_cast<std::uint32_t>(s.draw(3)) - 1u; break;
        case 1: i.line = o.line + static_cast<std::uint32_t>(s.draw(3)) - 1u; break;
        case 2: i.line = o.line; i.column = gen::u32(s); break;
        default: return index(s);
    }
    return i;
}
// Written from the documentation: line first, then column.
inline bool before(const Index& a, const Index& b) {
    return a.line != b.line ? a.line < b.line : a.column < b.column;
}
inline bool same(const Index& a, const Index& b) {
    return a.line == b.line && a.column == b.column;
}
inline std::optional<std::string> file_name(Src& s) {
    if (s.chance(1, 4000)) {
        return gen::stretched(s, gen::text(s, 10), gen::text(s, 10), 14);
    }
    switch (s.weighted({ 2, 1, 3, 2 })) {
        case 0: return std::nullopt;
        case 1: return std::string{};
        case 2: return std::string{ "dir/file.cq" };
        default: return gen::text(s, 40);
    }
}
}  // namespace loc
