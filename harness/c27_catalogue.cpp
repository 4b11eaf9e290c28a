// C27: the answers of the instruction set.
#include "decide.hpp"
using namespace pbt;
using lib::v3::instruction::InstructionSet;

struct Entry {
    std::string name;
    bool gate;
    int qubits;                                     // of a gate
    std::vector<std::optional<std::string>> params;  // the ways to write parameters
    std::vector<std::string> operands;
};
static const std::vector<Entry>& documented() {
    static const std::vector<Entry> all = [] {
        std::vector<Entry> r;
        for (auto& g : oracle::gates()) {
            Entry e{ g.name, true, g.qubits, {}, {} };
            std::string p = g.params;
            e.params = { p.empty() ? std::nullopt : std::optional<std::string>{ p } };
            e.operands = g.qubits == 1 ? std::vector<std::string>{ "Q", "V" } : std::vector<std::string>{ "QQ", "QV", "VQ", "VV" };
            r.push_back(e);
        }
        for (std::string n : { "reset", "init", "barrier" }) {
            r.push_back({ n, false, 0, { std::nullopt }, { "Q", "V" } });
        }
        r.push_back({ "wait", false, 0, { "i" }, { "Q", "V" } });
        r.push_back({ "measure", false, 0, { std::nullopt, "fff" }, { "BQ", "BV", "WQ", "WV" } });
        return r;
    }();
    return all;
}
static const Entry* entry(const std::string& n) {
    for (auto& e : documented()) {
        if (e.name == n) {
            return &e;
        }
    }
    return nullptr;
}
static bool begins(const std::string& n, const char* p) {
    return n.compare(0, 2, p) == 0;
}
using Answer = std::optional<std::optional<std::string>>;  // absent: reported as unknown
template <class F>
static Answer ask(F f, const std::string& name, std::string& message) {
    try {
        return f();
    } catch (const cqasm::error::AnalysisError& e) {
        message = e.what();
        auto shown = "'" + name + "'";  // as far as a C string goes
        PBT_CHECK(message.find(shown.substr(0, shown.find('\0'))) != std::string::npos, "the report of an unknown name does not state it: " << quote(message));
        return std::nullopt;
    }
}
static std::string show(const Answer& a) {
    return !a ? "unknown" : !*a ? "none" : quote(**a);
}

static void queries(const std::string& n, std::vector<std::size_t> counts = {}) {
    auto& set = InstructionSet::get_instance();
    PBT_CHECK(&set == &InstructionSet::get_instance(), "there are two instruction sets");
    auto* e = entry(n);
    bool gate = e && e->gate, one = gate && e->qubits == 1, two = gate && e->qubits == 2, other = e && !e->gate;
    bool c1 = begins(n, "1q"), c2 = begins(n, "2q");
    bool inv = n == "inv", pow = n == "pow", ctrl = n == "ctrl";
#define IS(q, want) PBT_CHECK(set.q(n) == (want), #q "(" << quote(n) << ") is " << set.q(n))
    IS(is_single_qubit_named_gate, one);
    IS(is_two_qubit_named_gate, two);
    IS(is_named_gate, gate);
    IS(is_single_qubit_gate_composition, c1);
    IS(is_two_qubit_gate_composition, c2);
    IS(is_gate_composition, c1 || c2);
    IS(is_single_qubit_gate, one || c1);
    IS(is_two_qubit_gate, two || c2);
    IS(is_gate, gate || c1 || c2);
    IS(is_measure, n == "measure");
    IS(is_reset, n == "reset");
    IS(is_init, n == "init");
    IS(is_barrier, n == "barrier");
    IS(is_wait, n == "wait");
    IS(is_non_gate, other);
    IS(is_inv_gate_modifier, inv);
    IS(is_pow_gate_modifier, pow);
    IS(is_ctrl_gate_modifier, ctrl);
    IS(is_single_qubit_gate_modifier, inv || pow);
    IS(is_two_qubit_gate_modifier, ctrl);
    IS(is_gate_modifier, inv || pow || ctrl);
#undef IS
    PBT_CHECK(set.get_named_gate_map().count(n) == (gate ? e->operands.size() : 0), quote(n) << " has " << set.get_named_gate_map().count(n) << " forms among the gates");
    PBT_CHECK(set.get_non_gate_map().count(n) == (other ? e->operands.size() * e->params.size() : 0), quote(n) << " has " << set.get_non_gate_map().count(n) << " forms among the non-gates");
    PBT_CHECK(set.get_gate_modifier_map().count(n) == (inv || pow || ctrl), quote(n) << " among the modifiers");
    PBT_CHECK(set.get_single_qubit_named_gate_list().count(n) == one && set.get_two_qubit_named_gate_list().count(n) == two && set.get_non_gate_list().count(n) == other, quote(n) << " in the lists");

    auto first = e ? Answer{ e->params[0] } : std::nullopt;
    auto modifier = inv || ctrl ? Answer{ std::optional<std::string>{} } : pow ? Answer{ std::optional<std::string>{ "f" } } : std::nullopt;
    std::string message;
    auto is = [&](const char* what, const Answer& got, const Answer& want) {
        PBT_CHECK(got == want, what << "(" << quote(n) << ") is " << show(got) << " instead of " << show(want));
    };
    is("get_named_gate_param_types", ask([&] { return set.get_named_gate_param_types(n); }, n, message), gate ? first : std::nullopt);
    is("get_non_gate_param_types", ask([&] { return set.get_non_gate_param_types(n); }, n, message), other ? first : std::nullopt);
    is("get_gate_modifier_param_types", ask([&] { return set.get_gate_modifier_param_types(n); }, n, message), modifier);
    is("get_instruction_param_types", ask([&] { return set.get_instruction_param_types(n); }, n, message), e ? first : modifier);
    counts.insert(counts.end(), { 0, 1, 2, 3, 4, 5, 6, 100 });
    for (auto count : counts) {
        std::optional<std::string> want;
        if (other) {
            for (auto& p : e->params) {
                if (p && p->size() == count) {
                    want = p;
                }
            }
        }
        auto got = set.get_non_gate_param_types_with_param_count(n, count);
        PBT_CHECK(got == want, "get_non_gate_param_types_with_param_count(" << quote(n) << ", " << count << ") is " << show(Answer{ got }));
    }
}

int main(int argc, char** argv) {
    auto& all = documented();
    std::vector<std::string> known;
    for (auto& e : all) {
        known.push_back(e.name);
    }
    known.insert(known.end(), { "inv", "pow", "ctrl" });
    // Every entry, and every name near one.
    auto near = known.size() * 64;
    auto names = [&](Src& s, Case& c) {
        auto k = s.draw(near);
        auto n = known[k / 64];
        c.nontrivial = true;
        if (k % 64 != 0) {
            auto at = s.draw(n.size());
            switch (k % 11) {
                case 0: n[at] ^= 0x20; break;
                case 1: n.erase(at, 1); break;
                case 2: n.insert(at, 1, n[at]); break;
                case 3: n += s.pick(std::string{ "0159qkdgXYZ _.\n" }); break;
                case 4: n = s.pick({ std::string{ "1q" }, std::string{ "2q" }, std::string{ "3q" }, std::string{ "m" }, std::string{ "C" }, std::string{ "q" }, std::string{ " " } }) + n; break;
                case 5: n = n.substr(0, at); break;
                case 6: n = s.pick(known) + s.pick({ std::string{}, std::string{ "." }, std::string{ "(" } }) + n; break;
                case 7: n += std::string(1, '\0') + s.pick({ std::string{}, std::string{ "x" }, n }); break;
                case 8: n = s.pick({ std::string{ "1q_" }, std::string{ "2q_" }, std::string{ "1q" }, std::string{ "1q_2q_" }, std::string{ "2q_inv_" }, std::string{ "3q_" } }) + n; break;
                case 9: {  // long
                    auto more = s.flip() ? std::string(8 + s.length(600), 'X') : gen::text(s, 300);
                    n = s.flip() ? n + more : more + n;
                    break;
                }
                default: n = s.chance(1, 2) ? gen::text(s, 12) : s.pick({ std::string{ "1q" }, std::string{ "2q" }, std::string{ "1Q" }, std::string{ "q1" }, std::string{}, std::string{ "1" }, std::string{ "2" } }) + (s.flip() ? s.pick(known) : gen::text(s, 4));
            }
        }
        c.show = n;
        std::vector<std::size_t> counts;
        for (auto low : { 0, 1, 3 }) {  // what is left when a number is cut to fewer bits
            counts.push_back(low + (std::size_t{ 1 } << (3 + s.draw(61))));
        }
        counts.push_back(std::size_t(0) - 1 - s.draw(5));
        c.label(n.find('\0') != std::string::npos ? "with NUL" : entry(n) ? "documented" : n == "inv" || n == "pow" || n == "ctrl" ? "modifier" : begins(n, "1q") || begins(n, "2q") ? "composition" : "other");
        queries(n, counts);
    };
    // The forms in the catalogue are those that programs can use: any operand kinds, any number of them.
    auto letters = std::string{ "QVBW" };
    std::vector<std::string> shapes;
    for (char a : letters) {
        shapes.push_back({ a });
        for (char b : letters) {
            shapes.push_back({ a, b });
        }
    }
    auto forms = [&](Src& s, Case& c) {
        auto k = s.draw(all.size() * shapes.size());
        auto& e = all[k / shapes.size()];
        auto shape = shapes[k % shapes.size()];
        bool longer = s.chance(1, 8);
        if (longer) {
            shape += s.pick(letters);
        }
        auto& set = InstructionSet::get_instance();
        auto& map = e.gate ? set.get_named_gate_map() : set.get_non_gate_map();
        std::set<std::optional<std::string>> params;
        std::set<std::string> operands;
        auto range = map.equal_range(e.name);
        for (auto it = range.first; it != range.second; ++it) {
            params.insert(it->second.first);
            operands.insert(it->second.second.value_or(""));
        }
        PBT_CHECK((operands == std::set<std::string>{ e.operands.begin(), e.operands.end() }), "the operand kinds of " << e.name);
        PBT_CHECK((params == std::set<std::optional<std::string>>{ e.params.begin(), e.params.end() }), "the parameter kinds of " << e.name);
        auto way = s.pick(e.params).value_or("");
        std::string args;
        for (char t : way) {
            args += (args.empty() ? "(" : ", ") + std::string{ t == 'i' ? "1" : "1.5" };
        }
        args += args.empty() ? "" : ")";
        std::vector<std::string> os;
        std::map<char, int> used;
        std::string text = "version 3.0\n";
        for (char o : shape) {
            auto name = std::string{ o == 'Q' ? "q" : o == 'V' ? "v" : o == 'B' ? "b" : "w" } + std::to_string(used[o]++);
            text += (o == 'Q' ? "qubit " : o == 'V' ? "qubit[1] " : o == 'B' ? "bit " : "bit[1] ") + name + "\n";
            os.push_back(name);
        }
        if (e.name == "measure") {
            if (shape.size() != 2) {
                return;
            }
            text += os[0] + " = measure" + args + " " + os[1] + "\n";
        } else if (!e.gate && shape.size() != 1) {
            return;
        } else {
            text += e.name + args + " ";
            for (std::size_t i = 0; i < os.size(); ++i) {
                text += (i ? ", " : "") + os[i];
            }
            text += "\n";
        }
        c.show = text;
        c.nontrivial = true;
        bool want = operands.contains(shape);
        c.label(want ? "a form" : "no form");
        auto a = lib::analyse(text);
        PBT_CHECK(a.tree.has_value() == want, (want ? "a catalogued form is rejected:\n" : "a form that is not catalogued is accepted:\n") << text << lib::outcome(a));
        if (want) {
            auto* st = &*a.result.root->block->statements.back();
            auto& ref = st->as_gate_instruction() ? st->as_gate_instruction()->instruction_ref : st->as_non_gate_instruction()->instruction_ref;
            PBT_CHECK(lib::reference(ref) == e.name + ":" + shape, "resolved to " << lib::reference(ref) << ":\n" << text);
        }
        if (s.chance(1, 4)) {  // and neither using nor extending an analyzer changes the catalogue
            auto other = lib::v3::default_analyzer();
            other.register_instruction(e.name, "B");
            other.register_instruction("other", "Q");
            queries(e.name);
            queries("other");
        }
    };
    return run(argc, argv, "C27", "names (all documented ones, names near them, any text) and operand kinds; non-trivial: all",
        { { "names", names, 20000, 400000, near }, { "forms", forms, 4000, 60000, all.size() * shapes.size() } });
}
