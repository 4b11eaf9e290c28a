#include "gen.hpp"
#include "libqasm/overload.hpp"

// A world of our own: values of some kind with an identity, types with a rule for which kinds they accept.
namespace world {
namespace tree = cqasm::tree;

struct TypeBase : tree::Base {
    int id = 0;                // which parameter of which overload this is
    int kind = 0;              // the kind a promoted value gets
    unsigned accepts = 0;      // set of value kinds
    // The id is no more part of the type than a location is.
    bool operator==(const TypeBase& o) const { return kind == o.kind && accepts == o.accepts; }
    bool operator!=(const TypeBase& o) const { return !(*this == o); }
};
struct Node : tree::Base {
    int kind = 0;
    int identity = 0;          // which argument it came from
    int via = -1;              // the parameter it was promoted to
    bool operator==(const Node& o) const { return kind == o.kind && identity == o.identity; }
    bool operator!=(const Node& o) const { return !(*this == o); }
};
using Type = tree::One<TypeBase>;
using Types = tree::Any<TypeBase>;
using Value = tree::One<Node>;
using Values = tree::Any<Node>;

tree::Maybe<Node> promote(const Value& v, const Type& t) {
    if (!(t->accepts >> v->kind & 1u)) {
        return {};
    }
    auto n = std::make_shared<Node>();
    n->kind = t->kind;
    n->identity = v->identity;
    n->via = t->id;
    return tree::Maybe<Node>{ n };
}
}  // namespace world

using namespace pbt;
using namespace world;

struct MParam {
    int id, kind;
    unsigned accepts;
};
struct MOverload {
    int tag;
    std::vector<MParam> params;
};

struct Tag {  // a tag that is not trivially copyable
    std::string name;
    int number;
};

static const std::vector<std::string> names = { "f", "F", "g", "", "ff", "f ", "operator+", "sin" };

int main(int argc, char** argv) {
    auto make_type = [](const MParam& p) {
        auto t = std::make_shared<TypeBase>();
        t->id = p.id;
        t->kind = p.kind;
        t->accepts = p.accepts;
        return Type{ t };
    };
    auto body = [=](Src& s, Case& c, std::size_t max_steps, std::size_t name_count, std::size_t max_arity) {
        cqasm::overload::OverloadedNameResolver<Tag, TypeBase, Node> table;
        std::map<std::string, std::vector<MOverload>> model;
        int next_id = 0, next_tag = 0;
        std::vector<std::pair<std::vector<MParam>, Types>> lists;
        auto steps = 1 + s.length(max_steps);
        std::ostringstream o;
        bool shadowed = false, promoted = false, seen_fail = false;
        for (std::size_t i = 0; i < steps; ++i) {
            auto which = s.index(name_count);
            const auto name = which < names.size() ? names[which] : "name" + std::to_string(which);
            if (s.chance(1, 12)) {  // a copy of the table goes its own way
                auto other = table;
                if (s.flip()) {
                    std::swap(table, other);
                }
                Types any;
                for (auto k = s.index(max_arity + 1); k > 0; --k) {
                    any.add(make_type({ -1, 3, 15u }));
                }
                other.add_overload(name, Tag{ name, -1 }, any);
                o << " copy";
            }
            if (s.chance(3, 5) && i + 1 < steps) {
                MOverload m;
                m.tag = next_tag++;
                Types types;
                auto arity = s.index(max_arity + 1);
                if (!lists.empty() && s.chance(1, 5)) {  // the very parameter types of another overload again
                    auto& l = lists[s.index(lists.size())];
                    m.params = l.first;
                    types = l.second;
                    arity = 0;
                }
                for (std::size_t k = 0; k < arity; ++k) {
                    MParam p;
                    p.id = next_id++;
                    p.kind = static_cast<int>(s.draw(4));
                    // Kinds are ordered: a type accepts its own kind and, mostly, the smaller ones.
                    p.accepts = s.chance(1, max_arity > 8 ? 200 : 4) ? static_cast<unsigned>(s.draw(16)) : (2u << p.kind) - 1u;
                    m.params.push_back(p);
                    types.add(make_type(p));
                }
                o << " add " << name << "#" << m.tag << "(";
                for (auto& p : m.params) {
                    o << p.kind << "<" << p.accepts << " ";
                }
                o << ")";
                table.add_overload(name, Tag{ name, m.tag }, types);
                PBT_CHECK(types.size() == m.params.size(), "the parameter types were changed");
                lists.emplace_back(m.params, types);
                model[name].push_back(m);
            } else {
                Values args;
                std::vector<int> kinds;
                auto& known = model[name];
                const MOverload* aim = !known.empty() && s.chance(4, 5) ? &known[s.index(known.size())] : nullptr;
                std::size_t n = aim ? aim->params.size() : s.index(max_arity + 1);
                bool fit = s.chance(3, 4);
                for (std::size_t k = 0; k < n; ++k) {
                    auto v = std::make_shared<Node>();
                    v->kind = static_cast<int>(s.draw(4));
                    for (int tries = 0; aim && fit && tries < 4 && !(aim->params[k].accepts >> v->kind & 1u); ++tries) {
                        v->kind = (v->kind + 1) % 4;
                    }
                    v->identity = static_cast<int>(1000 * i + k);
                    kinds.push_back(v->kind);
                    args.add(Value{ v });
                }
                o << " call " << name << "(";
                for (auto k : kinds) {
                    o << k << " ";
                }
                o << ")";
                c.show = o.str();
                const MOverload* want = nullptr;
                int applicable = 0;
                for (auto& m : known) {
                    bool ok = m.params.size() == kinds.size();
                    for (std::size_t k = 0; ok && k < kinds.size(); ++k) {
                        ok = m.params[k].accepts >> kinds[k] & 1u;
                    }
                    if (ok) {
                        want = &m;
                        ++applicable;
                    }
                }
                shadowed |= applicable > 1;
                std::string outcome;
                for (int round = 0; round < 2; ++round) {
                    try {
                        auto [tag, values] = table.resolve(name, args);
                        PBT_CHECK(want, "resolved to #" << tag.number << " although nothing applies");
                        PBT_CHECK(tag.number == want->tag && tag.name == name,
                            "resolved to " << tag.name << "#" << tag.number << ", expected #" << want->tag);
                        PBT_CHECK(values.size() == kinds.size(), "returned " << values.size() << " values");
                        for (std::size_t k = 0; k < kinds.size(); ++k) {
                            auto& v = *values.at(k);
                            PBT_CHECK(v.identity == static_cast<int>(1000 * i + k), "argument " << k << " became argument " << v.identity % 1000);
                            PBT_CHECK(v.via == want->params[k].id && v.kind == want->params[k].kind,
                                "argument " << k << " was promoted to another parameter");
                            promoted |= v.kind != kinds[k];
                        }
                    } catch (const cqasm::overload::NameResolutionFailure&) {
                        PBT_CHECK(known.empty(), "the name is reported unknown");
                        seen_fail = true;
                    } catch (const cqasm::overload::OverloadResolutionFailure&) {
                        PBT_CHECK(!known.empty(), "the unknown name is reported as an overload failure");
                        PBT_CHECK(!want, "no overload found, expected #" << want->tag);
                        seen_fail = true;
                    }
                }
                PBT_CHECK(args.size() == kinds.size(), "the arguments were changed");
                for (std::size_t k = 0; k < kinds.size(); ++k) {
                    PBT_CHECK(args.at(k)->kind == kinds[k] && args.at(k)->via == -1, "argument " << k << " was changed");
                }
                c.label(want ? applicable > 1 ? "several applicable" : "one applicable" : known.empty() ? "unknown name" : "none applicable");
                if (known.empty()) {
                    model.erase(name);
                }
            }
        }
        c.show = o.str();
        c.nontrivial = shadowed || promoted;
        if (seen_fail) {
            c.label("with a failure");
        }
    };
    std::vector<Clause> cl;
    cl.push_back({ "short histories of one name",
        [=](Src& s, Case& c) { body(s, c, 12, 1, 3); }, 120000, 1000000 });
    cl.push_back({ "histories of several names",
        [=](Src& s, Case& c) { body(s, c, 60, names.size(), 3); }, 60000, 600000 });
    cl.push_back({ "long histories",
        [=](Src& s, Case& c) { body(s, c, 400, names.size(), 8); }, 4000, 40000 });
    cl.push_back({ "many overloads of one name",
        [=](Src& s, Case& c) { body(s, c, 1500, 1, 8); }, 600, 6000 });
    cl.push_back({ "many names",
        [=](Src& s, Case& c) { body(s, c, 1500, 500, 3); }, 600, 6000 });
    cl.push_back({ "many parameters",
        [=](Src& s, Case& c) { body(s, c, 20, 1, s.pick({ std::size_t{ 12 }, std::size_t{ 40 }, std::size_t{ 300 } })); }, 3000, 30000 });
    cl.push_back({ "one overload on its own",
        [=](Src& s, Case& c) {
            std::vector<MParam> ps;
            Types types;
            auto n = s.chance(1, 20) ? s.draw(600) : s.draw(6);
            for (std::uint64_t i = 0; i < n; ++i) {
                MParam p{ static_cast<int>(i), static_cast<int>(s.draw(4)), 15u };
                ps.push_back(p);
                types.add(make_type(p));
                c.show += std::to_string(p.kind) + " ";
            }
            using O = cqasm::overload::Overload<Tag, TypeBase>;
            O a{ Tag{ "a", 1 }, types }, b{ Tag{ "b", 2 }, Types{} };
            O copy{ a };
            O moved{ O{ a } };
            O assigned{ b };
            assigned = a;
            O move_assigned{ b };
            move_assigned = O{ a };
            for (auto* x : { &a, &copy, &moved, &assigned, &move_assigned }) {
                PBT_CHECK(x->get_tag().name == "a" && x->get_tag().number == 1, "the tag is another one");
                PBT_CHECK(x->num_params() == ps.size(), "has " << x->num_params() << " parameters");
                for (std::size_t i = 0; i < ps.size(); ++i) {
                    PBT_CHECK(x->param_type_at(i)->id == ps[i].id, "parameter " << i << " is another one");
                }
            }
            c.nontrivial = n > 1;
        },
        3000, 20000 });
    return run(argc, argv, "C10",
        "histories of additions (0 to 8 parameters, up to 300 in one clause, random acceptance of 4 value kinds) and calls over up to 8 names "
        "(near-equal ones included); non-trivial: some call had several applicable overloads or promoted an argument",
        cl);
}
