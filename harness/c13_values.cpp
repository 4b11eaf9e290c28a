// C13: values, their types, promotion and sizes, against a model.
#include "lib.hpp"
#include "progen.hpp"
using namespace pbt;
namespace val = lib::val;
namespace typ = lib::typ;
namespace ct = cqasm::tree;

static const std::string letters = "QBVWbif";

static typ::Type make_type(char c, std::int64_t size) {
    switch (c) {
        case 'Q': return ct::make<typ::Qubit>(size);
        case 'B': return ct::make<typ::Bit>(size);
        case 'V': return ct::make<typ::QubitArray>(size);
        case 'W': return ct::make<typ::BitArray>(size);
        case 'b': return ct::make<typ::Bool>(size);
        case 'i': return ct::make<typ::Int>(size);
        default: return ct::make<typ::Float>(size);
    }
}
struct Made {
    val::Value v;
    char letter = 'b';        // of the type it is to have
    std::int64_t size = 1;
    std::int64_t i = 0;       // value of a bool or int
    double f = 0;
    bool constant = true;
    ct::One<lib::sem::Variable> keep;
    std::string show;
};
static Made make_value(Src& s) {
    Made m;
    switch (s.draw(5)) {
        case 0:
            m.i = s.flip();
            m.v = ct::make<val::ConstBool>(m.i != 0);
            m.letter = 'b';
            m.show = m.i ? "true" : "false";
            break;
        case 1:
            m.i = gen::i64(s);
            m.v = ct::make<val::ConstInt>(m.i);
            m.letter = 'i';
            m.show = std::to_string(m.i);
            break;
        case 2:
            m.f = gen::real(s);
            m.v = ct::make<val::ConstFloat>(m.f);
            m.letter = 'f';
            m.show = lib::hex(m.f);
            break;
        default: {
            m.constant = false;
            char t = s.chance(1, 4) ? "bif"[s.index(3)] : letters[s.index(4)];
            bool array = t == 'V' || t == 'W';
            auto size = array ? 1 + static_cast<std::int64_t>(s.draw(40)) : 1;
            m.keep = ct::make<lib::sem::Variable>("v", make_type(t, size));
            m.show = std::string{ "variable " } + t + std::to_string(size);
            m.letter = t;
            m.size = size;
            if (array && s.flip()) {
                val::Value r;
                ct::Many<val::ConstInt> indices;
                auto n = 1 + s.length(12);
                for (std::size_t k = 0; k < n; ++k) {
                    indices.add(ct::make<val::ConstInt>(s.range(0, size - 1)));
                }
                m.v = ct::make<val::IndexRef>(m.keep, indices);
                m.size = static_cast<std::int64_t>(n);
                if (n == 1) {
                    m.letter = t == 'V' ? 'Q' : 'B';
                }
                m.show += " with " + std::to_string(n) + " indices";
            } else {
                m.v = ct::make<val::VariableRef>(m.keep);
            }
        }
    }
    if (s.flip()) {
        auto l = static_cast<std::uint32_t>(1 + s.draw(9));
        m.v->set_annotation(lib::SL{ std::optional<std::string>{ "f" }, { { l, 2 }, { l, 5 } } });
    }
    return m;
}
// Whether d is the double nearest to x, ties to even.
static bool nearest(std::int64_t x, double d) {
    if (std::isnan(d) || std::fabs(d) > 9.3e18) {
        return false;
    }
    auto exact = [](double y) { return static_cast<__int128>(y); };  // |y| < 2^64 and integral here
    if (d != std::floor(d)) {
        return false;
    }
    auto dist = [&](double y) {
        auto k = exact(y) - x;
        return k < 0 ? -k : k;
    };
    auto here = dist(d), up = dist(std::nextafter(d, INFINITY)), down = dist(std::nextafter(d, -INFINITY));
    if (std::fabs(d) < 9007199254740992.0) {
        return here == 0;
    }
    std::uint64_t bits;
    std::memcpy(&bits, &d, 8);
    return (here < up || (here == up && bits % 2 == 0)) && (here < down || (here == down && bits % 2 == 0));
}
static bool promotes(char from, char to) {
    return from == to || (from == 'b' && (to == 'i' || to == 'f')) || (from == 'i' && to == 'f');
}
static std::string name(char c) {
    switch (c) {
        case 'Q': return "qubit";
        case 'B': return "bit";
        case 'V': return "qubit array";
        case 'W': return "bit array";
        case 'b': return "bool";
        case 'i': return "int";
        default: return "float";
    }
}
template <class X>
std::string printed(const X& x) {
    std::ostringstream o;
    o << x;
    return o.str();
}

int main(int argc, char** argv) {
    auto promotion = [](Src& s, Case& c) {
        auto m = make_value(s);
        char to = s.pick(letters);
        auto target = make_type(to, s.flip() ? 0 : static_cast<std::int64_t>(s.draw(50)));
        c.show = m.show + " to " + to;
        c.nontrivial = m.letter != to;
        c.label(m.letter == to ? "same type" : promotes(m.letter, to) ? "promotes" : "does not promote");
        auto before = lib::value(*m.v) + lib::at(*m.v, { true });
        auto t = val::type_of(m.v);
        PBT_CHECK(lib::letter(*t) == m.letter, m.show << " has type " << printed(t));
        PBT_CHECK(val::size_of(m.v) == m.size, m.show << " has size " << val::size_of(m.v) << ", not " << m.size);
        bool want = promotes(m.letter, to);
        PBT_CHECK(val::check_promote(t, target) == want, "check_promote of " << printed(t) << " to " << printed(target) << " says " << !want);
        auto p = val::promote(m.v, target);
        if (!m.constant && m.letter != to) {
            // For a variable, a promotion is just a check: what passes it is the variable itself.
            PBT_CHECK(p.empty() ? !(m.letter == 'b' && to == 'i') : want, "promote of " << m.show << " to " << printed(target) << (want ? " fails" : " succeeds"));
            PBT_CHECK(p.empty() || lib::value(*p) + lib::at(*p, { true }) == before, "promotion of a variable gives " << lib::value(*p));
            PBT_CHECK(lib::value(*m.v) + lib::at(*m.v, { true }) == before, "promote changed its argument");
            return;
        }
        PBT_CHECK(p.empty() != want, "promote of " << m.show << " to " << printed(target) << (want ? " fails" : " succeeds"));
        PBT_CHECK(lib::value(*m.v) + lib::at(*m.v, { true }) == before, "promote changed its argument");
        if (want) {
            PBT_CHECK(lib::letter(*val::type_of(p)) == to, "promoted value has type " << printed(val::type_of(p)));
            PBT_CHECK(lib::at(*p, { true }) == lib::at(*m.v, { true }), "promoted value is located at " << lib::at(*p, { true }));
            if (m.letter == to) {
                PBT_CHECK(lib::value(*p) == lib::value(*m.v), "identity promotion gives " << lib::value(*p));
            } else if (to == 'i') {
                PBT_CHECK(p->as_const_int()->value == m.i, m.show << " becomes " << lib::value(*p));
            } else {
                auto d = p->as_const_float()->value;
                PBT_CHECK(m.letter == 'b' ? d == static_cast<double>(m.i) : nearest(m.i, d), m.show << " becomes " << lib::value(*p));
            }
        }
        bool threw = false;
        try {
            val::check_const(m.v);
        } catch (const cqasm::error::AnalysisError&) {
            threw = true;
        }
        PBT_CHECK(threw != m.constant, "check_const of " << m.show << (threw ? " throws" : " does not throw"));
    };
    auto types = [](Src& s, Case& c) {
        char a = s.pick(letters), b = s.pick(letters);
        auto sa = gen::i64(s), sb = s.flip() ? sa : gen::i64(s);
        auto x = make_type(a, sa), y = make_type(b, sb);
        c.show = std::string(1, a) + std::to_string(sa) + " " + b + std::to_string(sb);
        c.nontrivial = a != b || sa != sb;
        PBT_CHECK(x.equals(y) == (a == b && sa == sb), "equality of types " << c.show << " is " << x.equals(y));
        PBT_CHECK(y.equals(x) == x.equals(y), "equality of types is not symmetric: " << c.show);
        PBT_CHECK(x.equals(x.clone()), "a type differs from its clone: " << c.show);
        PBT_CHECK(typ::type_check(x, y) == (a == b), "type_check of " << c.show << " is " << typ::type_check(x, y));
        PBT_CHECK(typ::size_of(x) == sa, "size of " << c.show << " is " << typ::size_of(x));
        PBT_CHECK(printed(x) == name(a), "type " << a << " is printed as " << printed(x));
        PBT_CHECK(val::check_promote(x, y) == promotes(a, b), "check_promote of " << c.show);
        bool array = a == 'V' || a == 'W';
        try {
            auto e = val::element_type_of(x);
            PBT_CHECK(array, "element_type_of " << a << " gives " << printed(e));
            PBT_CHECK(lib::letter(*e) == (a == 'V' ? 'Q' : 'B'), "element_type_of " << a << " gives " << printed(e));
        } catch (const std::runtime_error&) {
            PBT_CHECK(!array, "element_type_of " << a << " throws");
        }
    };
    auto specs = [](Src& s, Case& c) {
        std::string spec;
        bool known = true;
        for (auto n = s.length(12); n > 0; --n) {
            char x = s.chance(1, 12) ? static_cast<char>(s.draw(128)) : s.pick(letters);
            known = known && letters.find(x) != std::string::npos;
            spec += x;
        }
        c.show = quote(spec);
        c.nontrivial = spec.size() >= 2;
        std::string got, want;
        try {
            auto l = typ::from_spec(spec);
            PBT_CHECK(known, "from_spec accepts " << quote(spec));
            for (auto& t : l) {
                got += lib::letter(*t);
            }
            PBT_CHECK(got == spec, "from_spec of " << quote(spec) << " gives " << got);
            for (char x : spec) {
                want += (want.empty() ? "" : ", ") + name(x);
            }
            PBT_CHECK(printed(l) == want, "printed: " << printed(l));
        } catch (const std::invalid_argument&) {
            PBT_CHECK(!known, "from_spec rejects " << quote(spec));
        }
    };
    auto lists = [](Src& s, Case& c) {
        val::Values vs;
        std::vector<Made> ms;
        bool constant = true;
        for (auto n = s.length(8); n > 0; --n) {
            ms.push_back(make_value(s));
            vs.add(ms.back().v);
            constant = constant && ms.back().constant;
            c.show += ms.back().show + "; ";
        }
        c.nontrivial = ms.size() >= 2;
        auto ts = val::types_of(vs);
        PBT_CHECK(ts.size() == ms.size(), "types_of gives " << ts.size() << " types");
        for (std::size_t i = 0; i < ms.size(); ++i) {
            PBT_CHECK(lib::letter(*ts[i]) == ms[i].letter, "type of " << ms[i].show << " is " << printed(ts[i]));
        }
        bool threw = false;
        try {
            val::check_const(vs);
        } catch (const cqasm::error::AnalysisError&) {
            threw = true;
        }
        PBT_CHECK(threw != constant, "check_const of " << c.show << (threw ? " throws" : " does not throw"));
    };
    // The same through programs: the parameter of a gate is the promoted value.
    return run(argc, argv, "C13", "values of every kind with every target type, pairs of types, type specifications, lists; non-trivial: "
        "the two types differ (or at least two elements)",
        { { "promotion", promotion, 60000, 2000000 }, { "types", types, 30000, 500000 }, { "specifications", specs, 20000, 300000 },
            { "lists", lists, 10000, 200000 } });
}
