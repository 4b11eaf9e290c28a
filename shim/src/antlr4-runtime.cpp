#include "antlr4-runtime.h"

#include <algorithm>
#include <fstream>
#include <iterator>
#include <set>

namespace antlr4 {

// --------------------------------------------------------------------------------------------------------------------
// Input
// --------------------------------------------------------------------------------------------------------------------

static void put_utf8(std::string& out, char32_t c) {
    if (c < 0x80) {
        out += static_cast<char>(c);
    } else if (c < 0x800) {
        out += static_cast<char>(0xC0 | (c >> 6));
        out += static_cast<char>(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
        out += static_cast<char>(0xE0 | (c >> 12));
        out += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        out += static_cast<char>(0x80 | (c & 0x3F));
    } else {
        out += static_cast<char>(0xF0 | (c >> 18));
        out += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
        out += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        out += static_cast<char>(0x80 | (c & 0x3F));
    }
}

std::string CharStream::text(size_t from, size_t to_exclusive) const {
    std::string ret;
    for (size_t i = from; i < to_exclusive && i < data.size(); ++i) {
        put_utf8(ret, data[i]);
    }
    return ret;
}

ANTLRInputStream::ANTLRInputStream(std::istream& stream) {
    load(stream);
}

void ANTLRInputStream::load(std::istream& stream) {
    load(std::string{ std::istreambuf_iterator<char>(stream), std::istreambuf_iterator<char>() });
}

void ANTLRInputStream::load(std::string_view input) {
    if (input.substr(0, 3) == "\xEF\xBB\xBF") {
        input.remove_prefix(3);
    }
    data.clear();
    data.reserve(input.size());
    const auto illegal = [] { throw IllegalArgumentException{ "UTF-8 string contains an illegal byte sequence" }; };
    for (size_t i = 0; i < input.size();) {
        const auto byte = [&](size_t k) -> unsigned { return static_cast<unsigned char>(input[i + k]); };
        const unsigned lead = byte(0);
        size_t n = lead < 0x80 ? 1 : lead < 0xC2 ? 0 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : lead < 0xF5 ? 4 : 0;
        if (n == 0 || i + n > input.size()) {
            illegal();
        }
        char32_t c = n == 1 ? lead : lead & (0x7F >> n);
        for (size_t k = 1; k < n; ++k) {
            if ((byte(k) & 0xC0) != 0x80) {
                illegal();
            }
            c = (c << 6) | (byte(k) & 0x3F);
        }
        if ((n == 3 && c < 0x800) || (n == 4 && (c < 0x10000 || c > 0x10FFFF)) || (c >= 0xD800 && c < 0xE000)) {
            illegal();
        }
        data += c;
        i += n;
    }
}

void ANTLRFileStream::loadFromFile(const std::string& file_name) {
    std::ifstream stream(file_name, std::ios::binary);
    if (!stream) {
        return;
    }
    load(std::string{ std::istreambuf_iterator<char>(stream), std::istreambuf_iterator<char>() });
}

std::string Token::toString() const {
    return "[@" + std::to_string(index_) + "," + std::to_string(start_) + ":" + std::to_string(stop_) + "='" + getText() +
        "',<" + std::to_string(static_cast<std::ptrdiff_t>(type_)) + ">," + std::to_string(line_) + ":" + std::to_string(column_) + "]";
}

std::vector<std::unique_ptr<Token>> Lexer::getAllTokens() {
    std::vector<std::unique_ptr<Token>> ret;
    for (auto token = nextToken(); token->getType() != Token::EOF; token = nextToken()) {
        ret.push_back(std::move(token));
    }
    return ret;
}

void CommonTokenStream::fill() {
    while (tokens_.empty() || tokens_.back()->getType() != Token::EOF) {
        tokens_.push_back(source_->nextToken(tokens_.size()));
    }
}

std::vector<Token*> CommonTokenStream::getTokens() {
    std::vector<Token*> ret;
    for (const auto& token : tokens_) {
        ret.push_back(token.get());
    }
    return ret;
}

std::string CommonTokenStream::getText() {
    fill();
    std::string ret;
    for (const auto& token : tokens_) {
        ret += token->getType() == Token::EOF ? "" : token->getText();
    }
    return ret;
}

void Recognizer::report(Token* offending, size_t line, size_t column, const std::string& msg) {
    for (auto listener : listeners_) {
        listener->syntaxError(this, offending, line, column, msg, nullptr);
    }
    throw ParseCancellationException{ "line " + std::to_string(line) + ":" + std::to_string(column) + " " + msg };
}

// --------------------------------------------------------------------------------------------------------------------
// Lexer
// --------------------------------------------------------------------------------------------------------------------

namespace {

struct LexConfig {
    int state;
    int alt;
    bool passed;
    bool operator<(const LexConfig& o) const {
        return std::tie(state, alt, passed) < std::tie(o.state, o.alt, o.passed);
    }
};

using LexConfigs = std::vector<LexConfig>;

/** Lazily built DFA of a lexer mode. */
struct LexDfa {
    const shim::LexerMode& mode;
    std::map<LexConfigs, int> index;
    std::vector<LexConfigs> configs;
    std::vector<int> accept;  // token type or -1
    std::vector<std::vector<int>> ascii;  // -2 unknown, -1 error

    explicit LexDfa(const shim::LexerMode& m) : mode{ m } {
        LexConfigs start;
        std::set<LexConfig> seen;
        int alt = 0;
        for (auto s : mode.eps[0]) {
            closure({ s, ++alt, false }, start, seen, false);
        }
        add(std::move(start));
    }

    int add(LexConfigs c) {
        auto it = index.find(c);
        if (it != index.end()) {
            return it->second;
        }
        int acc = -1;
        for (const auto& config : c) {
            if (mode.accept[config.state] >= 0) {
                acc = mode.accept[config.state];
                break;
            }
        }
        int id = static_cast<int>(configs.size());
        index.emplace(c, id);
        configs.push_back(std::move(c));
        accept.push_back(acc);
        ascii.emplace_back(128, -2);
        return id;
    }

    /** Returns whether the configuration reached the end of its token. */
    bool closure(LexConfig c, LexConfigs& out, std::set<LexConfig>& seen, bool reached) {
        c.passed = c.passed || mode.nongreedy[c.state];
        if (mode.accept[c.state] >= 0) {
            if (seen.insert(c).second) {
                out.push_back(c);
            }
            return true;
        }
        if (mode.chars[c.state].second >= 0) {
            if ((!reached || !c.passed) && seen.insert(c).second) {
                out.push_back(c);
            }
        } else if (!seen.insert(c).second) {
            return reached;
        }
        for (auto target : mode.eps[c.state]) {
            reached = closure({ target, c.alt, c.passed }, out, seen, reached);
        }
        return reached;
    }

    int step(int id, char32_t ch) {
        if (ch < 128 && ascii[id][ch] != -2) {
            return ascii[id][ch];
        }
        LexConfigs out;
        std::set<LexConfig> seen;
        int skip_alt = 0;
        const auto from = configs[id];
        for (const auto& c : from) {
            bool reached = c.alt == skip_alt;
            if (reached && c.passed) {
                continue;
            }
            const auto& [ranges, target] = mode.chars[c.state];
            if (target < 0) {
                continue;
            }
            bool matches = std::any_of(
                ranges.begin(), ranges.end(), [ch](const auto& r) { return r.first <= ch && ch <= r.second; });
            if (matches && closure({ target, c.alt, c.passed }, out, seen, reached)) {
                skip_alt = c.alt;
            }
        }
        int ret = out.empty() ? -1 : add(std::move(out));
        if (ch < 128) {
            ascii[id][ch] = ret;
        }
        return ret;
    }
};

std::vector<LexDfa>& dfas(const shim::LexerTables& tables) {
    // Per thread, since it is filled in lazily.
    static thread_local std::map<const shim::LexerTables*, std::vector<LexDfa>> all;
    auto& ret = all[&tables];
    if (ret.empty()) {
        for (const auto& mode : tables.modes) {
            ret.emplace_back(mode);
        }
    }
    return ret;
}

std::string escape(const std::string& s) {
    std::string ret;
    for (char c : s) {
        switch (c) {
            case '\n': ret += "\\n"; break;
            case '\r': ret += "\\r"; break;
            case '\t': ret += "\\t"; break;
            default: ret += c;
        }
    }
    return ret;
}

}  // namespace

Lexer::Lexer(CharStream* input, const shim::LexerTables& tables) : input_{ input }, tables_{ tables } {}

std::unique_ptr<Token> Lexer::nextToken(size_t index) {
    const auto& data = input_->data;
    for (;;) {
        if (pos_ >= data.size()) {
            return std::make_unique<Token>(input_, Token::EOF, pos_, pos_ - 1, line_, column_, index);
        }
        auto& dfa = dfas(tables_)[mode_];
        int state = 0;
        int type = -1;
        size_t end = pos_;
        size_t p = pos_;
        while (p < data.size()) {
            state = dfa.step(state, data[p]);
            if (state < 0) {
                break;
            }
            ++p;
            if (dfa.accept[state] >= 0) {
                type = dfa.accept[state];
                end = p;
            }
        }
        if (type < 0) {
            report(nullptr, line_, column_, "token recognition error at: '" + escape(input_->text(pos_, p + 1)) + "'");
        }
        auto token = std::make_unique<Token>(input_, type, pos_, end - 1, line_, column_, index);
        for (; pos_ < end; ++pos_) {
            if (data[pos_] == U'\n') {
                ++line_;
                column_ = 0;
            } else {
                ++column_;
            }
        }
        bool skip = false;
        auto it = tables_.commands.find(type);
        if (it != tables_.commands.end()) {
            for (const auto& command : it->second) {
                switch (command.kind) {
                    case shim::LexerCommand::SKIP: skip = true; break;
                    case shim::LexerCommand::MODE: mode_ = command.arg; break;
                    case shim::LexerCommand::PUSH:
                        mode_stack_.push_back(mode_);
                        mode_ = command.arg;
                        break;
                    case shim::LexerCommand::POP:
                        if (mode_stack_.empty()) {
                            throw RuntimeException{ "empty mode stack" };
                        }
                        mode_ = mode_stack_.back();
                        mode_stack_.pop_back();
                        break;
                }
            }
        }
        if (!skip) {
            return token;
        }
    }
}

Token* CommonTokenStream::get(size_t i) {
    while (tokens_.size() <= i) {
        if (!tokens_.empty() && tokens_.back()->getType() == Token::EOF) {
            return tokens_.back().get();
        }
        tokens_.push_back(source_->nextToken(tokens_.size()));
    }
    return tokens_[i].get();
}

void CommonTokenStream::consume() {
    if (get(p_)->getType() != Token::EOF) {
        ++p_;
        get(p_);
    }
}

// --------------------------------------------------------------------------------------------------------------------
// Parse tree
// --------------------------------------------------------------------------------------------------------------------

std::any tree::TerminalNode::accept(ParseTreeVisitor* visitor) {
    return visitor->visitTerminal(this);
}

std::any tree::AbstractParseTreeVisitor::visitChildren(ParseTree* node) {
    std::any result;
    if (auto context = dynamic_cast<ParserRuleContext*>(node)) {
        for (auto child : context->children) {
            result = child->accept(this);
        }
    }
    return result;
}

std::string ParserRuleContext::getText() {
    std::string ret;
    for (auto child : children) {
        ret += child->getText();
    }
    return ret;
}

tree::TerminalNode* ParserRuleContext::getToken(size_t type, size_t i) {
    auto tokens = getTokens(type);
    return i < tokens.size() ? tokens[i] : nullptr;
}

std::vector<tree::TerminalNode*> ParserRuleContext::getTokens(size_t type) {
    std::vector<tree::TerminalNode*> ret;
    for (auto child : children) {
        if (auto node = dynamic_cast<tree::TerminalNode*>(child); node && node->getSymbol()->getType() == type) {
            ret.push_back(node);
        }
    }
    return ret;
}

// --------------------------------------------------------------------------------------------------------------------
// Parser
// --------------------------------------------------------------------------------------------------------------------

namespace shim {

/** For each state: the tokens that can come next within its rule, and whether the end of the rule can be reached. */
struct ParserAnalysis {
    std::vector<TokenSet> first;
    std::vector<char> nullable;

    explicit ParserAnalysis(const ParserTables& t) : first(t.states.size()), nullable(t.states.size(), 0) {
        for (auto stop : t.stop) {
            nullable[stop] = 1;
        }
        for (bool changed = true; changed;) {
            changed = false;
            for (size_t s = 0; s < t.states.size(); ++s) {
                auto f = first[s];
                char n = nullable[s];
                for (const auto& tr : t.states[s].trans) {
                    if (tr.kind == Transition::SET) {
                        f |= tr.types;
                    } else if (tr.kind == Transition::EPS) {
                        f |= first[tr.target];
                        n |= nullable[tr.target];
                    } else {
                        f |= first[tr.target];
                        if (nullable[tr.target]) {
                            f |= first[tr.follow];
                            n |= nullable[tr.follow];
                        }
                    }
                }
                if (f != first[s] || n != nullable[s]) {
                    first[s] = f;
                    nullable[s] = n;
                    changed = true;
                }
            }
        }
    }
};

static const ParserAnalysis& analyse(const ParserTables& t) {
    static const ParserAnalysis ret{ t };  // there is one grammar
    return ret;
}

}  // namespace shim

Parser::Parser(TokenStream* input, const shim::ParserTables& tables)
: input_{ input }
, tables_{ tables }
, analysis_{ shim::analyse(tables) } {}

Parser::~Parser() = default;

void Parser::fail(Token* token, const std::string& msg) {
    report(token, token->getLine(), token->getCharPositionInLine(), msg);
}

/** Tokens that can come at a state, given the rules that are being parsed. */
shim::TokenSet Parser::expected(size_t state, ParserRuleContext* context) const {
    auto ret = analysis_.first[state];
    while (analysis_.nullable[state]) {
        if (!context || !context->parent) {
            ret.set(shim::bit(Token::EOF));
            break;
        }
        state = tables_.states[context->invokingState].trans[0].follow;
        ret |= analysis_.first[state];
        context = context->parentContext();
    }
    return ret;
}

std::string Parser::display(const shim::TokenSet& set) const {
    std::string ret;
    for (size_t i = 0; i < set.size(); ++i) {
        if (set[i]) {
            ret += (ret.empty() ? "" : ", ") + (i == 0 ? std::string{ "<EOF>" } : tables_.display[i - 1]);
        }
    }
    return set.count() > 1 ? "{" + ret + "}" : ret;
}

std::string Parser::display(Token* token) {
    return "'" + escape(token->getText()) + "'";
}

bool Parser::singleTokenDeletion() {
    return expected(state_, _ctx)[shim::bit(LA(2))];
}

void Parser::sync() {
    const auto la = LA(1);
    if (analysis_.nullable[state_] || analysis_.first[state_][shim::bit(la)]) {
        return;
    }
    auto token = input_->LT(1);
    switch (tables_.states[state_].type) {
        case shim::BLOCK_START:
        case shim::STAR_BLOCK_START:
        case shim::PLUS_BLOCK_START:
        case shim::STAR_LOOP_ENTRY: {
            bool extraneous = singleTokenDeletion();
            fail(token, (extraneous ? "extraneous input " : "mismatched input ") + display(token) + " expecting " +
                    display(expected(state_, _ctx)));
        }
        case shim::PLUS_LOOP_BACK:
        case shim::STAR_LOOP_BACK:
            fail(token, "extraneous input " + display(token) + " expecting " + display(expected(state_, _ctx)));
        default: break;
    }
}

void Parser::match(size_t type) {
    if (LA(1) != type) {
        recoverInline();
    }
    consume();
}

void Parser::recoverInline() {
    auto token = input_->LT(1);
    const auto expecting = expected(state_, _ctx);
    if (singleTokenDeletion()) {
        fail(token, "extraneous input " + display(token) + " expecting " + display(expecting));
    }
    const auto& tr = tables_.states[state_].trans[0];
    if (expected(tr.target, _ctx)[shim::bit(token->getType())]) {
        fail(token, "missing " + display(expecting) + " at " + display(token));
    }
    fail(token, "mismatched input " + display(token) + " expecting " + display(expecting));
}

void Parser::consume() {
    auto node = std::make_unique<tree::TerminalNode>(input_->LT(1));
    node->parent = _ctx;
    _ctx->children.push_back(node.get());
    nodes_.push_back(std::move(node));
    at_eof_ = at_eof_ || input_->LT(1)->getType() == Token::EOF;
    input_->consume();
}

void Parser::enterRule(ParserRuleContext* context, size_t state) {
    setState(state);
    if (context->parent) {
        context->parent->children.push_back(context);
    }
    context->start = input_->LT(1);
    _ctx = context;
}

// The token before the current one, as ANTLR's LT(-1).
static Token* previous(TokenStream* input) {
    return input->index() > 0 ? input->get(input->index() - 1) : nullptr;
}

void Parser::exitRule() {
    _ctx->stop = input_->LT(1)->getType() == Token::EOF && at_eof_ ? input_->LT(1) : previous(input_);
    setState(_ctx->invokingState);
    _ctx = static_cast<ParserRuleContext*>(_ctx->parent);
}

void Parser::enterRecursionRule(ParserRuleContext* context, size_t state, int precedence) {
    setState(state);
    precedence_.push_back(precedence);
    context->start = input_->LT(1);
    _ctx = context;
}

void Parser::pushNewRecursionContext(ParserRuleContext* context) {
    auto left = _ctx;
    left->parent = context;
    left->invokingState = state_;
    left->stop = previous(input_);
    context->start = left->start;
    context->children.push_back(left);
    _ctx = context;
}

void Parser::unrollRecursionContexts(ParserRuleContext* parent_context) {
    precedence_.pop_back();
    auto ret = _ctx;
    ret->stop = previous(input_);
    ret->parent = parent_context;
    _ctx = parent_context;
    if (parent_context) {
        parent_context->children.push_back(ret);
    }
}

void Parser::noViableAlt() {
    noViableAlt(input_->index(), input_->index());
}

void Parser::noViableAlt(size_t start_index, size_t offending_index) {
    auto start = input_->get(start_index);
    auto offending = input_->get(offending_index);
    std::string text;
    if (start->getType() == Token::EOF) {
        text = "<EOF>";
    } else {
        for (size_t i = start_index; i <= offending_index; ++i) {
            if (input_->get(i)->getType() == Token::EOF) {
                break;
            }
            text += input_->get(i)->getText();
        }
    }
    fail(offending, "no viable alternative at input '" + escape(text) + "'");
}

// --------------------------------------------------------------------------------------------------------------------
// Prediction
//
// A set of configurations (state, stack) with, for each, the alternatives it stands for, advanced in step over the
// lookahead. The stacks share a graph, in which a node is a return state pushed at an input position, and the edges
// carry the alternatives they are valid for. Node 0 is the bottom: any caller in SLL mode, no caller in LL mode.
// --------------------------------------------------------------------------------------------------------------------

namespace {

using Mask = std::uint32_t;

struct GssEdge {
    int parent;
    Mask mask;
};

struct GssNode {
    int follow;
    std::vector<GssEdge> edges;
    Mask popped = 0;
    Mask popped_dipped = 0;
    ParserRuleContext* outer = nullptr;  // callers of this context have still to be added
};

struct Config {
    int state;
    int node;
    Mask mask;
    Mask dipped;
};

struct Simulator {
    const shim::ParserTables& t;
    bool full;
    std::vector<GssNode> nodes;
    std::unordered_map<std::uint64_t, int> pushed;  // at the current position
    std::map<ParserRuleContext*, int> outer;

    std::vector<Config> configs;
    std::unordered_map<std::uint64_t, int> index;
    std::vector<int> work;
    bool eof_as_epsilon = false;

    Simulator(const shim::ParserTables& tables, bool full_context) : t{ tables }, full{ full_context } {
        nodes.push_back({ -1, {} });
    }

    /** The node to which the rule of an outer context returns. */
    int outer_node(ParserRuleContext* context) {
        if (!context || !context->parent) {
            return 0;
        }
        auto it = outer.find(context);
        if (it != outer.end()) {
            return it->second;
        }
        int id = static_cast<int>(nodes.size());
        nodes.push_back({ t.states[context->invokingState].trans[0].follow, {} });
        nodes.back().outer = context;
        outer.emplace(context, id);
        return id;
    }

    void begin() {
        configs.clear();
        index.clear();
        pushed.clear();
        work.clear();
    }

    static std::uint64_t key(int a, int b) {
        return (static_cast<std::uint64_t>(a) << 32) | static_cast<std::uint32_t>(b);
    }

    void add(int state, int node, Mask mask, Mask dipped) {
        if (!mask) {
            return;
        }
        auto [it, inserted] = index.emplace(key(state, node), static_cast<int>(configs.size()));
        if (inserted) {
            configs.push_back({ state, node, mask, dipped });
            work.push_back(it->second);
            return;
        }
        auto& c = configs[it->second];
        if ((c.mask | mask) != c.mask || (c.dipped | dipped) != c.dipped) {
            c.mask |= mask;
            c.dipped |= dipped;
            work.push_back(it->second);
        }
    }

    void close() {
        while (!work.empty()) {
            auto c = configs[work.back()];
            work.pop_back();
            const auto& s = t.states[c.state];
            if (s.type == shim::RULE_STOP) {
                if (c.node == 0) {
                    if (!full) {
                        for (auto f : t.follow[s.rule]) {
                            add(f, 0, c.mask, c.mask);
                        }
                    }
                    continue;
                }
                if (auto context = nodes[c.node].outer) {
                    nodes[c.node].outer = nullptr;
                    int parent = outer_node(context->parentContext());
                    nodes[c.node].edges.push_back({ parent, ~Mask{ 0 } });
                }
                auto& n = nodes[c.node];
                n.popped |= c.mask;
                n.popped_dipped |= c.dipped;
                for (const auto& e : n.edges) {
                    add(n.follow, e.parent, c.mask & e.mask, c.dipped & e.mask);
                }
                continue;
            }
            for (const auto& tr : s.trans) {
                switch (tr.kind) {
                    case shim::Transition::EPS: add(tr.target, c.node, c.mask, c.dipped); break;
                    case shim::Transition::SET:
                        if (eof_as_epsilon && tr.types[0]) {
                            add(tr.target, c.node, c.mask, c.dipped);
                        }
                        break;
                    case shim::Transition::RULE: {
                        auto [it, inserted] = pushed.emplace(key(tr.target, tr.follow), static_cast<int>(nodes.size()));
                        if (inserted) {
                            nodes.push_back({ tr.follow, {} });
                        }
                        int id = it->second;
                        auto& n = nodes[id];
                        auto e = std::find_if(
                            n.edges.begin(), n.edges.end(), [&](const GssEdge& x) { return x.parent == c.node; });
                        if (e == n.edges.end()) {
                            n.edges.push_back({ c.node, c.mask });
                        } else {
                            e->mask |= c.mask;
                        }
                        if (n.popped & c.mask) {
                            add(n.follow, c.node, n.popped & c.mask, n.popped_dipped & c.mask);
                        }
                        add(tr.target, id, c.mask, c.dipped);
                        break;
                    }
                }
            }
        }
    }

    /** The configurations that ANTLR keeps: those that cannot move without consuming a token. */
    bool essential(const Config& c) const {
        const auto& s = t.states[c.state];
        if (s.type == shim::RULE_STOP) {
            return c.node == 0 && (full || t.follow[s.rule].empty());
        }
        return std::any_of(
            s.trans.begin(), s.trans.end(), [](const auto& tr) { return tr.kind == shim::Transition::SET; });
    }

    /** Whether two alternatives have the same stacks at a node. */
    bool same_stacks(int node, Mask a, Mask b, std::set<int>& seen) const {
        if (!seen.insert(node).second) {
            return true;
        }
        for (const auto& e : nodes[node].edges) {
            if (((e.mask & a) != 0) != ((e.mask & b) != 0)) {
                return false;
            }
            if ((e.mask & a) && !same_stacks(e.parent, a, b, seen)) {
                return false;
            }
        }
        return true;
    }

    /** The subsets of alternatives that share both state and stack. */
    void subsets(std::map<int, std::vector<Mask>>& by_state) const {
        for (const auto& c : configs) {
            if (!essential(c)) {
                continue;
            }
            std::vector<Mask> groups;
            for (Mask rest = c.mask; rest; rest &= rest - 1) {
                Mask b = rest & ~(rest - 1);
                bool found = false;
                for (auto& g : groups) {
                    std::set<int> seen;
                    if (same_stacks(c.node, g & ~(g - 1), b, seen)) {
                        g |= b;
                        found = true;
                        break;
                    }
                }
                if (!found) {
                    groups.push_back(b);
                }
            }
            auto& v = by_state[c.state];
            v.insert(v.end(), groups.begin(), groups.end());
        }
    }
};

bool single(Mask m) {
    return m && !(m & (m - 1));
}

size_t lowest(Mask m) {
    size_t ret = 1;
    while (!(m & 1)) {
        m >>= 1;
        ++ret;
    }
    return ret;
}

}  // namespace

size_t Parser::adaptivePredict(size_t decision) {
    bool conflict = false;
    size_t ret = predict(decision, false, conflict);
    return conflict ? predict(decision, true, conflict) : ret;
}

size_t Parser::predict(size_t decision, bool full, bool& conflict) {
    const auto start_index = input_->index();
    Simulator sim{ tables_, full };
    const int bottom = full ? sim.outer_node(_ctx) : 0;
    const auto& alternatives = tables_.states[tables_.decisions[decision]].trans;
    sim.begin();
    for (size_t i = 0; i < alternatives.size(); ++i) {
        sim.add(alternatives[i].target, bottom, Mask{ 1 } << i, 0);
    }
    sim.close();
    for (size_t k = start_index;;) {
        const auto token_type = input_->get(k)->getType();
        const auto previous = sim.configs;
        sim.begin();
        sim.eof_as_epsilon = token_type == Token::EOF;
        std::vector<Config> skipped;
        for (const auto& c : previous) {
            const auto& s = tables_.states[c.state];
            if (s.type == shim::RULE_STOP && sim.essential(c)) {
                if (full || token_type == Token::EOF) {
                    skipped.push_back(c);
                }
                continue;
            }
            for (const auto& tr : s.trans) {
                if (tr.kind == shim::Transition::SET && tr.types[shim::bit(token_type)]) {
                    sim.add(tr.target, c.node, c.mask, c.dipped);
                }
            }
        }
        sim.close();
        if (token_type == Token::EOF) {
            std::vector<Config> kept;
            for (const auto& c : sim.configs) {
                if (tables_.states[c.state].type == shim::RULE_STOP && sim.essential(c)) {
                    kept.push_back(c);
                }
            }
            sim.configs = kept;
            sim.index.clear();
            for (size_t i = 0; i < kept.size(); ++i) {
                sim.index.emplace(Simulator::key(kept[i].state, kept[i].node), static_cast<int>(i));
            }
        }
        bool has_stop = std::any_of(sim.configs.begin(), sim.configs.end(),
            [&](const Config& c) { return tables_.states[c.state].type == shim::RULE_STOP && sim.essential(c); });
        if (!full || !has_stop) {
            for (const auto& c : skipped) {
                sim.add(c.state, c.node, c.mask, c.dipped);
            }
            sim.work.clear();
        }

        Mask alive = 0;
        bool all_stopped = true;
        for (const auto& c : sim.configs) {
            if (sim.essential(c)) {
                alive |= c.mask;
                all_stopped = all_stopped && tables_.states[c.state].type == shim::RULE_STOP;
            }
        }
        if (!alive) {
            // Prefer an alternative that had already finished the rule of the decision.
            Mask finished = 0;
            for (const auto& c : previous) {
                if (!sim.essential(c)) {
                    continue;
                }
                finished |= c.dipped;
                if (tables_.states[c.state].type == shim::RULE_STOP && c.node == 0) {
                    finished |= c.mask;
                }
            }
            if (finished) {
                conflict = false;
                return lowest(finished);
            }
            noViableAlt(start_index, k);
        }
        if (single(alive)) {
            conflict = false;
            return lowest(alive);
        }
        std::map<int, std::vector<Mask>> by_state;
        if (full) {
            sim.subsets(by_state);
            Mask mins = 0;
            for (const auto& [state, masks] : by_state) {
                for (auto m : masks) {
                    mins |= m & ~(m - 1);
                }
            }
            if (single(mins)) {
                conflict = false;
                return lowest(mins);
            }
        } else {
            bool conflicting = all_stopped;
            if (!conflicting) {
                sim.subsets(by_state);
                bool one_alt = false;
                for (const auto& [state, masks] : by_state) {
                    Mask total = 0;
                    for (auto m : masks) {
                        conflicting = conflicting || !single(m);
                        total |= m;
                    }
                    one_alt = one_alt || single(total);
                }
                conflicting = conflicting && !one_alt;
            }
            if (conflicting) {
                conflict = true;
                return 0;
            }
        }
        if (token_type != Token::EOF) {
            ++k;
        }
    }
}

}  // namespace antlr4
