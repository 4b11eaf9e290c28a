#include "libqasm/error.hpp"
#include "libqasm/result.hpp"
#include "loc.hpp"

using namespace pbt;
using cqasm::error::Error;

namespace fake {
// A minimal tree: result.hpp only asks for serialization and for JSON.
struct Leaf : cqasm::tree::Base {
    std::string text;
    std::int64_t number = 0;
    std::string json;
    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap&) const override {
        map.append_string("@t", "Leaf");
        map.append_string("text", text);
        map.append_int("number", number);
    }
    void dump_json(std::ostream& os) const { os << json; }
};
template <class E>
struct Result {
    cqasm::tree::One<Leaf> root;
    std::vector<E> errors;
};
}  // namespace fake

int main(int argc, char** argv) {
    std::vector<Clause> cl;
    auto body = [](Src& s, Case& c, std::size_t max_errors, bool near = false) {
        fake::Result<Error> r;
        bool has_root = s.chance(3, 4);
        std::ostringstream o;
        if (has_root) {
            auto leaf = std::make_shared<fake::Leaf>();
            leaf->text = gen::text(s, 50);
            leaf->number = gen::i64(s);
            leaf->json = "{\"Leaf\":{\"n\":" + std::to_string(leaf->number) + ",\"t\":" + json_string(gen::text(s, 10)) + "}}";
            r.root = cqasm::tree::One<fake::Leaf>{ leaf };
            o << "root " << quote(leaf->text) << " " << leaf->number << " ";
        }
        auto n = near ? max_errors - s.draw(3) : s.length(max_errors);
        if (!has_root && n == 0) {
            n = 1;
        }
        std::vector<std::string> texts, jsons;
        std::vector<std::string> messages;
        for (std::size_t i = 0; i < n; ++i) {
            if (i && s.chance(1, 6)) {  // the same again
                auto j = s.flip() ? i - 1 : s.index(i);
                r.errors.push_back(Error{ r.errors[j] });
                messages.push_back(std::string{ messages[j] });
                o << "again " << j << " ";
                continue;
            }
            auto m = s.chance(1, 10) ? std::string{} : n < 10 && s.chance(1, 40) ? gen::stretched(s, gen::text(s, 5), gen::text(s, 5), 13) : gen::text(s, near ? 3 : 60);
            m.erase(std::remove(m.begin(), m.end(), '\0'), m.end());
            if (s.flip()) {
                r.errors.emplace_back(m);
            } else {
                auto f = loc::index(s);
                r.errors.emplace_back(m, loc::file_name(s), loc::Range{ f, loc::near(s, f) });
            }
            messages.push_back(m.empty() ? "<unknown error message>" : m);
            o << "error " << quote(m) << " ";
        }
        // Taken from copies, before the result is asked.
        for (auto e : r.errors) {
            texts.emplace_back(e.what());
            jsons.push_back(e.to_json());
        }
        c.show = o.str();
        for (int round = 0; round < 2; ++round) {
            auto strings = cqasm::result::to_strings(r);
            auto json = cqasm::result::to_json(r);
            if (n == 0) {
                PBT_CHECK(strings.size() == 1, "a tree gives " << strings.size() << " strings");
                PBT_CHECK(strings[0] == ::tree::base::serialize(r.root), "the string is not the serialized tree");
                PBT_CHECK(!strings[0].empty(), "the serialized tree is empty");
                PBT_CHECK(json == r.root->json, "JSON is " << quote(json));
                PBT_CHECK(cqasm::result::root_to_json(r.root) == r.root->json, "root_to_json differs");
            } else {
                PBT_CHECK(strings.size() == n + 1, n << " errors give " << strings.size() << " strings");
                PBT_CHECK(strings[0].empty(), "the first string is not empty");
                for (std::size_t i = 0; i < n; ++i) {
                    PBT_CHECK(strings[i + 1] == texts[i], "string " << i + 1 << " is " << quote(strings[i + 1]) << ", expected " << quote(texts[i]));
                }
                auto j = gen::read_json(json);
                PBT_CHECK(j.kind == gen::Json::object && j.o.size() == 1, "not an object with one member");
                auto& list = j.at("errors");
                PBT_CHECK(list.kind == gen::Json::array && list.a.size() == n, "lists " << list.a.size() << " errors");
                std::string want = "{\"errors\":[";
                for (std::size_t i = 0; i < n; ++i) {
                    PBT_CHECK(list.a[i].at("message").str() == messages[i], "error " << i << " has message " << quote(list.a[i].at("message").str()));
                    want += (i ? "," : "") + jsons[i];
                }
                want += "]}";
                PBT_CHECK(json == want, "JSON is " << quote(json) << ", expected " << quote(want));
            }
            auto ej = gen::read_json(cqasm::result::errors_to_json(r.errors));
            PBT_CHECK(ej.at("errors").a.size() == n, "errors_to_json lists another number of errors");
        }
        PBT_CHECK(r.errors.size() == n, "the result was changed");
        c.nontrivial = n != 1 || has_root;
        c.label(n == 0 ? "tree" : n == 1 ? "one error" : "several errors");
        c.label(has_root && n ? "tree and errors present" : "tree or errors present");
    };
    cl.push_back({ "results", [=](Src& s, Case& c) { body(s, c, 6); }, 40000, 400000 });
    cl.push_back({ "long error lists", [=](Src& s, Case& c) { body(s, c, 300); }, 600, 6000 });
    cl.push_back({ "very long error lists", [=](Src& s, Case& c) { body(s, c, (std::size_t{ 1 } << (s.chance(1, 3) ? 16 : 10 + s.draw(6))) + 1, true); }, 3, 40 });
    cl.push_back({ "round numbers of errors", [=](Src& s, Case& c) { body(s, c, (s.chance(1, 4) ? (s.flip() ? 100 : 1000) : std::size_t{ 1 } << (4 + s.draw(8))) + 1, true); }, 100, 2000 });
    return run(argc, argv, "C11",
        "results with or without a tree and with 0 to 300 errors (and around powers of two up to 65536) of random texts and locations; non-trivial: a tree, or "
        "several errors",
        cl);
}
