/** \file
 * Stand-in for the ANTLR 4 C++ runtime, for the code that antlrgen.py generates and the parts of the API libqasm uses.
 * Lexing (longest match, first rule, non-greedy), prediction (SLL, then full-context LL) and the default error strategy
 * are those of ANTLR, so that the accepted language, the parse tree, and the first error are the ones ANTLR gives.
 * There is no recovery after the first error: libqasm's error listener always throws.
 */
#pragma once

#include <any>
#include <bitset>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <exception>
#include <istream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

#ifdef EOF
#undef EOF  // as ANTLR does
#endif

namespace antlr4 {

class RuntimeException : public std::exception {
    std::string message_;

public:
    explicit RuntimeException(std::string message = "") : message_{ std::move(message) } {}
    const char* what() const noexcept override { return message_.c_str(); }
};

class IllegalArgumentException : public RuntimeException {
    using RuntimeException::RuntimeException;
};

class ParseCancellationException : public RuntimeException {
    using RuntimeException::RuntimeException;
};

class RecognitionException : public RuntimeException {
    using RuntimeException::RuntimeException;
};

class NoViableAltException : public RecognitionException {
    using RecognitionException::RecognitionException;
};

class InputMismatchException : public RecognitionException {
    using RecognitionException::RecognitionException;
};

namespace misc {
struct Interval {
    std::ptrdiff_t a = -1;
    std::ptrdiff_t b = -2;
    Interval() = default;
    Interval(std::ptrdiff_t from, std::ptrdiff_t to) : a{ from }, b{ to } {}
    Interval(size_t from, size_t to) : a{ static_cast<std::ptrdiff_t>(from) }, b{ static_cast<std::ptrdiff_t>(to) } {}
    size_t length() const { return b < a ? 0 : static_cast<size_t>(b - a + 1); }
};
}  // namespace misc

class CharStream {
public:
    virtual ~CharStream() = default;
    std::u32string data;
    std::string text(size_t from, size_t to_exclusive) const;
    std::string getText(const misc::Interval& interval) {
        return interval.a < 0 || interval.b < interval.a ? "" : text(static_cast<size_t>(interval.a), static_cast<size_t>(interval.b) + 1);
    }
    size_t size() { return data.size(); }
    virtual std::string getSourceName() const { return "<unknown>"; }
    virtual std::string toString() const { return text(0, data.size()); }
};

class ANTLRInputStream : public CharStream {
public:
    ANTLRInputStream() = default;
    explicit ANTLRInputStream(std::string_view input) { load(input); }
    ANTLRInputStream(const char* input, size_t length) { load(std::string_view{ input, length }); }
    explicit ANTLRInputStream(std::istream& stream);
    void load(std::string_view input);
    void load(std::string_view input, bool /* lenient */) { load(input); }
    void load(const char* input, size_t length) { load(std::string_view{ input, length }); }
    void load(std::istream& stream);
    std::string name;
    std::string getSourceName() const override { return name.empty() ? "<unknown>" : name; }
};

class ANTLRFileStream : public ANTLRInputStream {
public:
    ANTLRFileStream() = default;
    void loadFromFile(const std::string& file_name);
};

class Token {
public:
    static constexpr size_t INVALID_TYPE = 0;
    static constexpr size_t DEFAULT_CHANNEL = 0;
    static constexpr size_t HIDDEN_CHANNEL = 1;
    static constexpr size_t EOF = static_cast<size_t>(-1);

    Token(CharStream* input, size_t type, size_t start, size_t stop, size_t line, size_t column, size_t index)
    : input_{ input }
    , type_{ type }
    , start_{ start }
    , stop_{ stop }
    , line_{ line }
    , column_{ column }
    , index_{ index } {}
    std::string getText() const { return type_ == EOF ? "<EOF>" : input_->text(start_, stop_ + 1); }
    size_t getType() const { return type_; }
    size_t getLine() const { return line_; }
    size_t getCharPositionInLine() const { return column_; }
    size_t getStartIndex() const { return start_; }
    size_t getStopIndex() const { return stop_; }
    size_t getTokenIndex() const { return index_; }
    size_t getChannel() const { return DEFAULT_CHANNEL; }
    CharStream* getInputStream() const { return input_; }
    std::string toString() const;

private:
    CharStream* input_;
    size_t type_, start_, stop_, line_, column_, index_;
};

using CommonToken = Token;

class Recognizer;

class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offending_symbol, size_t line,
        size_t char_position_in_line, const std::string& msg, std::exception_ptr e) = 0;
};

class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) override {}
};

class Recognizer {
public:
    virtual ~Recognizer() = default;
    void addErrorListener(ANTLRErrorListener* listener) { listeners_.push_back(listener); }
    void removeErrorListener(ANTLRErrorListener* listener) { std::erase(listeners_, listener); }
    void removeErrorListeners() { listeners_.clear(); }

protected:
    [[noreturn]] void report(Token* offending, size_t line, size_t column, const std::string& msg);

private:
    std::vector<ANTLRErrorListener*> listeners_;
};

namespace shim {

struct LexerCommand {
    enum Kind { SKIP, POP, PUSH, MODE } kind;
    int arg;
};

struct LexerMode {
    std::vector<std::vector<int>> eps;
    std::vector<std::pair<std::vector<std::pair<std::uint32_t, std::uint32_t>>, int>> chars;
    std::vector<int> nongreedy;
    std::vector<int> accept;
};

struct LexerTables {
    std::vector<std::string> names;
    std::vector<LexerMode> modes;
    std::map<int, std::vector<LexerCommand>> commands;
};

enum StateType {
    RULE_START,
    RULE_STOP,
    BASIC,
    BLOCK_START,
    BLOCK_END,
    STAR_LOOP_ENTRY,
    STAR_BLOCK_START,
    STAR_LOOP_BACK,
    LOOP_END,
    PLUS_BLOCK_START,
    PLUS_LOOP_BACK
};

/** Set of token types, as a bit set: EOF is bit 0, type t is bit t + 1. */
using TokenSet = std::bitset<128>;

struct Transition {
    enum Kind { EPS, SET, RULE } kind;
    int target;
    TokenSet types;
    int rule;
    int follow;
};

inline size_t bit(size_t type) {
    return type + 1;  // EOF is -1
}
inline Transition eps(int target) {
    return { Transition::EPS, target, {}, -1, -1 };
}
inline Transition set(std::initializer_list<int> types, int target) {
    Transition ret{ Transition::SET, target, {}, -1, -1 };
    for (auto type : types) {
        ret.types.set(bit(static_cast<size_t>(type)));
    }
    return ret;
}
inline Transition rule(int index, int target, int follow) {
    return { Transition::RULE, target, {}, index, follow };
}

struct State {
    StateType type = BASIC;
    int rule = 0;
    std::vector<Transition> trans;
};

struct ParserTables {
    std::vector<std::string> display;
    std::vector<State> states;
    std::vector<std::vector<int>> follow;
    std::vector<int> start;
    std::vector<int> stop;
    std::vector<int> decisions;
};

struct ParserAnalysis;

}  // namespace shim

class TokenSource {
public:
    virtual ~TokenSource() = default;
    virtual std::unique_ptr<Token> nextToken(size_t index) = 0;
};

class Lexer : public Recognizer, public TokenSource {
public:
    Lexer(CharStream* input, const shim::LexerTables& tables);
    std::unique_ptr<Token> nextToken(size_t index) override;
    std::unique_ptr<Token> nextToken() { return nextToken(count_++); }
    /** All tokens that are left, without the one for the end. */
    std::vector<std::unique_ptr<Token>> getAllTokens();
    CharStream* getInputStream() { return input_; }
    size_t getLine() const { return line_; }
    size_t getCharPositionInLine() { return column_; }

private:
    CharStream* input_;
    const shim::LexerTables& tables_;
    size_t count_ = 0;
    size_t pos_ = 0;
    size_t line_ = 1;
    size_t column_ = 0;
    int mode_ = 0;
    std::vector<int> mode_stack_;
};

class TokenStream {
public:
    virtual ~TokenStream() = default;
    virtual Token* LT(size_t k) = 0;
    virtual void consume() = 0;
    virtual size_t index() const = 0;
    virtual Token* get(size_t i) = 0;
    size_t LA(size_t k) { return LT(k)->getType(); }
};

/** Fetches the tokens as they are needed, as ANTLR's does: consuming one fetches the next. */
class CommonTokenStream : public TokenStream {
public:
    explicit CommonTokenStream(TokenSource* source) : source_{ source } {}
    TokenSource* getTokenSource() const { return source_; }
    size_t size() const { return tokens_.size(); }
    void fill();
    std::vector<Token*> getTokens();
    std::string getText();
    Token* LT(size_t k) override { return get(p_ + k - 1); }
    void consume() override;
    size_t index() const override { return p_; }
    Token* get(size_t i) override;

private:
    TokenSource* source_;
    std::vector<std::unique_ptr<Token>> tokens_;
    size_t p_ = 0;
};

class ParserRuleContext;

namespace tree {

class ParseTreeVisitor;

class ParseTree {
public:
    ParseTree* parent = nullptr;
    std::vector<ParseTree*> children;

    virtual ~ParseTree() = default;
    virtual std::any accept(ParseTreeVisitor* visitor) = 0;
    virtual std::string getText() = 0;
    ParseTree* getParent() const { return parent; }
    size_t childCount() const { return children.size(); }
    ParseTree* child(size_t i) const { return children.at(i); }
};

class TerminalNode : public ParseTree {
public:
    explicit TerminalNode(Token* symbol) : symbol_{ symbol } {}
    Token* getSymbol() const { return symbol_; }
    std::string toString() { return getText(); }
    std::string getText() override { return symbol_->getText(); }
    std::any accept(ParseTreeVisitor* visitor) override;

private:
    Token* symbol_;
};

/** Never made: the first error does not return. */
class ErrorNode : public TerminalNode {
public:
    using TerminalNode::TerminalNode;
};

class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
    virtual std::any visit(ParseTree* tree) = 0;
    virtual std::any visitChildren(ParseTree* node) = 0;
    virtual std::any visitTerminal(TerminalNode* node) = 0;
    virtual std::any visitErrorNode(ErrorNode*) { return {}; }
};

class AbstractParseTreeVisitor : public ParseTreeVisitor {
public:
    std::any visit(ParseTree* tree) override { return tree->accept(this); }
    std::any visitChildren(ParseTree* node) override;
    std::any visitTerminal(TerminalNode*) override { return {}; }
};

}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
public:
    size_t invokingState = static_cast<size_t>(-1);
    Token* start = nullptr;
    Token* stop = nullptr;
    std::exception_ptr exception = nullptr;

    ParserRuleContext() = default;
    ParserRuleContext(ParserRuleContext* parent_context, size_t invoking_state)
    : invokingState{ invoking_state } {
        parent = parent_context;
    }
    Token* getStart() const { return start; }
    Token* getStop() const { return stop; }
    ParserRuleContext* parentContext() const { return static_cast<ParserRuleContext*>(parent); }
    misc::Interval getSourceInterval() {
        return !start || !stop ? misc::Interval{} : misc::Interval{ start->getTokenIndex(), stop->getTokenIndex() };
    }
    bool isEmpty() const { return children.empty(); }

    virtual size_t getRuleIndex() const { return static_cast<size_t>(-1); }
    void copyFrom(ParserRuleContext* other) {
        parent = other->parent;
        invokingState = other->invokingState;
        start = other->start;
        stop = other->stop;
    }
    std::string getText() override;
    std::any accept(tree::ParseTreeVisitor* visitor) override { return visitor->visitChildren(this); }

    tree::TerminalNode* getToken(size_t type, size_t i);
    std::vector<tree::TerminalNode*> getTokens(size_t type);

    template <typename T>
    T* getRuleContext(size_t i) {
        for (auto child : children) {
            if (auto context = dynamic_cast<T*>(child)) {
                if (i-- == 0) {
                    return context;
                }
            }
        }
        return nullptr;
    }
    template <typename T>
    std::vector<T*> getRuleContexts() {
        std::vector<T*> ret;
        for (auto child : children) {
            if (auto context = dynamic_cast<T*>(child)) {
                ret.push_back(context);
            }
        }
        return ret;
    }
};

class Parser : public Recognizer {
public:
    Parser(TokenStream* input, const shim::ParserTables& tables);
    ~Parser() override;
    TokenStream* getTokenStream() { return input_; }
    Token* getCurrentToken() { return input_->LT(1); }
    ParserRuleContext* getContext() { return _ctx; }
    size_t getNumberOfSyntaxErrors() const { return 0; }  // the first one does not return
    void setBuildParseTree(bool /* build */) {}

protected:
    ParserRuleContext* _ctx = nullptr;

    void setState(size_t state) { state_ = state; }
    size_t getState() const { return state_; }
    size_t LA(size_t k) { return input_->LT(k)->getType(); }
    void sync();
    void match(size_t type);
    void recoverInline();
    void consume();
    [[noreturn]] void noViableAlt();
    size_t adaptivePredict(size_t decision);
    bool precpred(int precedence) const { return precedence >= precedence_.back(); }

    template <typename C, typename... Args>
    C* createInstance(Args&&... args) {
        auto owner = std::make_unique<C>(std::forward<Args>(args)...);
        auto ret = owner.get();
        nodes_.push_back(std::move(owner));
        return ret;
    }

    /** Replaces the current context by one of the class of an alternative label. */
    template <typename C, typename B>
    C* replaceContext(B* context) {
        auto ret = createInstance<C>(context);
        if (context->parent && !context->parent->children.empty() && context->parent->children.back() == context) {
            context->parent->children.back() = ret;
        }
        _ctx = ret;
        return ret;
    }

    void enterRule(ParserRuleContext* context, size_t state);
    void exitRule();
    void enterRecursionRule(ParserRuleContext* context, size_t state, int precedence);
    void pushNewRecursionContext(ParserRuleContext* context);
    void unrollRecursionContexts(ParserRuleContext* parent_context);
    void stopHere() {}

private:
    TokenStream* input_;
    const shim::ParserTables& tables_;
    const shim::ParserAnalysis& analysis_;
    size_t state_ = static_cast<size_t>(-1);
    bool at_eof_ = false;  // the end has been matched
    std::vector<std::unique_ptr<tree::ParseTree>> nodes_;
    std::vector<int> precedence_{ 0 };

    [[noreturn]] void fail(Token* token, const std::string& msg);
    shim::TokenSet expected(size_t state, ParserRuleContext* context) const;
    std::string display(const shim::TokenSet& set) const;
    static std::string display(Token* token);
    bool singleTokenDeletion();
    size_t predict(size_t decision, bool full_context, bool& conflict);
    [[noreturn]] void noViableAlt(size_t start_index, size_t offending_index);
};

}  // namespace antlr4

namespace antlrcpp {

using Any = std::any;

template <typename To, typename From>
To downCast(From* from) {
    return static_cast<To>(from);
}

template <typename T, typename U>
bool is(U* object) {
    return dynamic_cast<T>(object) != nullptr;
}

}  // namespace antlrcpp
