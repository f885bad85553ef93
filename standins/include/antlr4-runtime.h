// Stand-in for the ANTLR 4 C++ runtime (not available offline): the part libqasm uses.  Trees, tokens and prediction state live
// outside the simulated heap; texts handed to the library are ordinary strings.  See standins/src/antlr4-runtime.cpp.
#pragma once
#include <any>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <istream>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#ifdef EOF
#undef EOF
#endif

namespace antlr4 {

inline constexpr size_t INVALID_INDEX = std::numeric_limits<size_t>::max();

namespace standin {
template <class T> struct Alloc {
    using value_type = T;
    Alloc() = default;
    template <class U> Alloc(const Alloc<U>&) {}
    T* allocate(size_t n) { void* p = std::malloc(n * sizeof(T) + !n); if (!p) std::abort(); return static_cast<T*>(p); }
    void deallocate(T* p, size_t) { std::free(p); }
    template <class U> bool operator==(const Alloc<U>&) const { return true; }
};
template <class T> using Vec = std::vector<T, Alloc<T>>;
struct Outside {  // objects of these classes do not live in the simulated heap
    static void* operator new(size_t n) { void* p = std::malloc(n); if (!p) std::abort(); return p; }
    static void operator delete(void* p) { std::free(p); }
};
struct Simulator;
struct LexSimulator;
}  // namespace standin

// ---- exceptions --------------------------------------------------------------------------------------------------------
class RuntimeException : public std::exception {
    std::string message_;
public:
    explicit RuntimeException(const std::string& msg = "") : message_(msg) {}
    const char* what() const noexcept override { return message_.c_str(); }
};
class IllegalStateException : public RuntimeException { public: using RuntimeException::RuntimeException; };
class IllegalArgumentException : public RuntimeException { public: using RuntimeException::RuntimeException; };
class IndexOutOfBoundsException : public RuntimeException { public: using RuntimeException::RuntimeException; };
class UnsupportedOperationException : public RuntimeException { public: using RuntimeException::RuntimeException; };
class CancellationException : public IllegalStateException { public: using IllegalStateException::IllegalStateException; };
class ParseCancellationException : public CancellationException { public: using CancellationException::CancellationException; };
class IOException : public std::exception {
    std::string message_;
public:
    explicit IOException(const std::string& msg = "") : message_(msg) {}
    const char* what() const noexcept override { return message_.c_str(); }
};

// ---- input -------------------------------------------------------------------------------------------------------------
class IntStream {
public:
    static constexpr size_t EOF = std::numeric_limits<size_t>::max();
    virtual ~IntStream() = default;
    virtual void consume() = 0;
    virtual size_t LA(ptrdiff_t i) = 0;
    virtual size_t index() = 0;
    virtual void seek(size_t index) = 0;
    virtual size_t size() = 0;
    virtual std::string getSourceName() const = 0;
};
class CharStream : public IntStream {
public:
    virtual std::string textOf(size_t start, size_t stop) = 0;  // code points start..stop, inclusive
    virtual std::string toString() const = 0;
};
class ANTLRInputStream : public CharStream {
protected:
    standin::Vec<char32_t> data_;
    size_t p_ = 0;
    void decode(const char* data, size_t length);
public:
    std::string name;
    ANTLRInputStream() = default;
    ANTLRInputStream(std::string_view input) { load(input.data(), input.size()); }
    ANTLRInputStream(const std::string& input) : ANTLRInputStream(std::string_view(input)) {}
    ANTLRInputStream(const char* data, size_t length) { load(data, length); }
    explicit ANTLRInputStream(std::istream& stream) { load(stream); }
    void load(const std::string& input) { load(input.data(), input.size()); }
    void load(const char* data, size_t length) { decode(data, length); }
    void load(std::istream& stream);
    void reset() { p_ = 0; }
    void consume() override;
    size_t LA(ptrdiff_t i) override;
    size_t index() override { return p_; }
    void seek(size_t i) override { p_ = i < data_.size() ? i : data_.size(); }
    size_t size() override { return data_.size(); }
    std::string textOf(size_t start, size_t stop) override;
    std::string toString() const override;
    std::string getSourceName() const override { return name.empty() ? "<unknown>" : name; }
};
class ANTLRFileStream : public ANTLRInputStream {
    std::string file_name_;
public:
    ANTLRFileStream() = default;
    void loadFromFile(const std::string& file_name);
    std::string getSourceName() const override { return file_name_; }
};

// ---- tokens ------------------------------------------------------------------------------------------------------------
class Token {
public:
    static constexpr size_t INVALID_TYPE = 0;
    static constexpr size_t EPSILON = std::numeric_limits<size_t>::max() - 1;
    static constexpr size_t EOF = IntStream::EOF;
    static constexpr size_t DEFAULT_CHANNEL = 0;
    virtual ~Token() = default;
    virtual std::string getText() const = 0;
    virtual size_t getType() const = 0;
    virtual size_t getLine() const = 0;
    virtual size_t getCharPositionInLine() const = 0;
    virtual size_t getChannel() const = 0;
    virtual size_t getTokenIndex() const = 0;
    virtual size_t getStartIndex() const = 0;
    virtual size_t getStopIndex() const = 0;
    virtual CharStream* getInputStream() const = 0;
};
class CommonToken : public Token, public standin::Outside {
public:
    size_t type_ = 0, line_ = 0, column_ = 0, index_ = 0, start_ = 0, stop_ = 0;
    CharStream* input_ = nullptr;
    std::string getText() const override;
    size_t getType() const override { return type_; }
    size_t getLine() const override { return line_; }
    size_t getCharPositionInLine() const override { return column_; }
    size_t getChannel() const override { return 0; }
    size_t getTokenIndex() const override { return index_; }
    size_t getStartIndex() const override { return start_; }
    size_t getStopIndex() const override { return stop_; }
    CharStream* getInputStream() const override { return input_; }
};

// ---- errors ------------------------------------------------------------------------------------------------------------
class Recognizer;
class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offendingSymbol, size_t line, size_t charPositionInLine,
        const std::string& msg, std::exception_ptr e) = 0;
};
class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) override {}
};
class ConsoleErrorListener : public BaseErrorListener {
public:
    static ConsoleErrorListener INSTANCE;
    void syntaxError(Recognizer*, Token*, size_t line, size_t column, const std::string& msg, std::exception_ptr) override;
};
class Recognizer {
    standin::Vec<ANTLRErrorListener*> listeners_;
protected:
    void notify(Token* offending, size_t line, size_t column, const std::string& msg);
public:
    Recognizer();
    virtual ~Recognizer() = default;
    void addErrorListener(ANTLRErrorListener* l) { listeners_.push_back(l); }
    void removeErrorListener(ANTLRErrorListener* l) { std::erase(listeners_, l); }
    void removeErrorListeners() { listeners_.clear(); }
};

// ---- lexer -------------------------------------------------------------------------------------------------------------
class TokenSource {
public:
    virtual ~TokenSource() = default;
    virtual std::unique_ptr<CommonToken> nextToken() = 0;
    virtual CharStream* getInputStream() = 0;
};
class Lexer : public Recognizer, public TokenSource {
    friend struct standin::LexSimulator;
    CharStream* input_;
    size_t line_ = 1, column_ = 0, mode_ = 0;
    standin::Vec<size_t> modes_;
    bool hit_eof_ = false;
public:
    explicit Lexer(CharStream* input) : input_(input) {}
    std::unique_ptr<CommonToken> nextToken() override;
    CharStream* getInputStream() override { return input_; }
    size_t getLine() const { return line_; }
    size_t getCharPositionInLine() const { return column_; }
};
class TokenStream {
public:
    virtual ~TokenStream() = default;
    virtual CommonToken* LT(ptrdiff_t k) = 0;
    virtual size_t LA(ptrdiff_t k) = 0;
    virtual void consume() = 0;
    virtual size_t index() = 0;
    virtual void seek(size_t i) = 0;
    virtual CommonToken* get(size_t i) = 0;
    virtual std::string textBetween(Token* start, Token* stop) = 0;
};
class CommonTokenStream : public TokenStream {
    TokenSource* source_;
    standin::Vec<std::unique_ptr<CommonToken>> tokens_;
    size_t p_ = 0;
    bool started_ = false, eof_ = false;
    bool sync(size_t i);
    void init();
public:
    explicit CommonTokenStream(TokenSource* source) : source_(source) {}
    CommonToken* LT(ptrdiff_t k) override;
    size_t LA(ptrdiff_t k) override { return LT(k)->getType(); }
    void consume() override;
    size_t index() override { return p_; }
    void seek(size_t i) override { init(); sync(i); p_ = i; }
    CommonToken* get(size_t i) override { return tokens_.at(i).get(); }
    std::string textBetween(Token* start, Token* stop) override;
    void fill() { init(); while (!eof_) sync(tokens_.size()); }
    size_t size() const { return tokens_.size(); }
};

// ---- trees -------------------------------------------------------------------------------------------------------------
namespace tree {
class ParseTreeVisitor;
class ParseTree : public standin::Outside {
public:
    ParseTree* parent = nullptr;
    standin::Vec<ParseTree*> children;
    virtual ~ParseTree() = default;
    virtual std::string getText() = 0;
    virtual std::any accept(ParseTreeVisitor* visitor) = 0;
};
class TerminalNode : public ParseTree {
public:
    CommonToken* symbol = nullptr;
    Token* getSymbol() const { return symbol; }
    std::string getText() override { return symbol->getText(); }
    std::any accept(ParseTreeVisitor* visitor) override;
};
class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
    virtual std::any visit(ParseTree* tree) = 0;
    virtual std::any visitChildren(ParseTree* node) = 0;
    virtual std::any visitTerminal(TerminalNode* node) = 0;
};
class AbstractParseTreeVisitor : public ParseTreeVisitor {
protected:
    virtual std::any defaultResult() { return {}; }
    virtual std::any aggregateResult(std::any, std::any next) { return next; }
    virtual bool shouldVisitNextChild(ParseTree*, const std::any&) { return true; }
public:
    std::any visit(ParseTree* tree) override { return tree->accept(this); }
    std::any visitChildren(ParseTree* node) override {
        std::any result = defaultResult();
        for (auto* c : node->children) {
            if (!shouldVisitNextChild(node, result)) break;
            result = aggregateResult(std::move(result), c->accept(this));
        }
        return result;
    }
    std::any visitTerminal(TerminalNode*) override { return defaultResult(); }
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
public:
    size_t invokingState = INVALID_INDEX;
    CommonToken* start = nullptr;
    CommonToken* stop = nullptr;
    ParserRuleContext() = default;
    virtual size_t getRuleIndex() const { return INVALID_INDEX; }
    std::any accept(tree::ParseTreeVisitor* visitor) override { return visitor->visitChildren(this); }
    Token* getStart() const { return start; }
    Token* getStop() const { return stop; }
    std::string getText() override { std::string r; for (auto* c : children) r += c->getText(); return r; }
    tree::TerminalNode* getToken(size_t type, size_t i) const;
    std::vector<tree::TerminalNode*> getTokens(size_t type) const;
    template <class T> T* getRuleContext(size_t i) const {
        size_t j = 0;
        for (auto* c : children)
            if (auto* x = dynamic_cast<T*>(c)) { if (j++ == i) return x; }
        return nullptr;
    }
    template <class T> std::vector<T*> getRuleContexts() const {
        std::vector<T*> r;
        for (auto* c : children)
            if (auto* x = dynamic_cast<T*>(c)) r.push_back(x);
        return r;
    }
};

// ---- parser ------------------------------------------------------------------------------------------------------------
class Parser : public Recognizer {
    friend struct standin::Simulator;
public:
    using Maker = ParserRuleContext* (*)(size_t);
private:
    TokenStream* input_;
    Maker make_rule_, make_label_;
    standin::Vec<std::unique_ptr<tree::ParseTree>> owned_;
    standin::Vec<int> precedence_;
    ParserRuleContext* ctx_ = nullptr;
    size_t state_ = INVALID_INDEX;
protected:
    Parser(TokenStream* input, Maker make_rule, Maker make_label);
    ParserRuleContext* runRule(size_t rule);
public:
    ~Parser() override;
    TokenStream* getTokenStream() { return input_; }
    Token* getCurrentToken() { return input_->LT(1); }
    ParserRuleContext* getContext() { return ctx_; }
};

}  // namespace antlr4
