// Stand-in for the ANTLR 4 C++ runtime: lexer and parser simulation over the ATNs built by gen/antlrgen.py, following
// LexerATNSimulator, ParserATNSimulator (SLL, then LL with full context), DefaultErrorStrategy and the generated functions.
// Error recovery is not simulated: libqasm's listener throws at the first error.
#include "antlr4-runtime.h"

#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include "antlr_tables.inc"

namespace antlr4 {
namespace standin {

enum { BASIC = 1, RULE_START, BLOCK_START, PLUS_BLOCK_START, STAR_BLOCK_START, TOKEN_START, RULE_STOP, BLOCK_END, STAR_LOOP_BACK, STAR_LOOP_ENTRY, PLUS_LOOP_BACK, LOOP_END };
enum { EPS = 1, RANGE, RULE, PRED, ATOM, ACTION, SET, NOT_SET, WILD, PREC };
enum { OP_SEQ, OP_TOK, OP_SET, OP_CALL, OP_LL1ALT, OP_LL1OPT, OP_LL1STAR, OP_LL1PLUS, OP_ALT, OP_OPT, OP_STAR, OP_PLUS, OP_LABEL, OP_PRIMARY, OP_RECLOOP, OP_PRECPRED, OP_OUTER };
constexpr int T_EOF = -1, T_EPS = -2;
constexpr int EMPTY_RS = std::numeric_limits<int>::max();

template <class K, class V> using Map = std::map<K, V, std::less<K>, Alloc<std::pair<const K, V>>>;
template <class K> using Set = std::set<K, std::less<K>, Alloc<K>>;
template <class K, class V, class H> using HMap = std::unordered_map<K, V, H, std::equal_to<K>, Alloc<std::pair<const K, V>>>;

struct Tr { int type, target, a, b, follow; int outer = -1; };
struct State {
    int type = 0, rule = -1, arg = -1;
    bool eps_only = true, nongreedy = false, prec_decision = false;
    Vec<Tr> tr;
};
struct Atn {
    bool lexer;
    Vec<State> states;
    Vec<int> rule_start, rule_stop, rule_tok, mode_start, decisions;
    Vec<char> prec_rule;
    Vec<Vec<std::pair<int, int>>> sets;
    Vec<std::pair<int, int>> actions;

    explicit Atn(const int* p) {
        ++p;  // version
        lexer = *p++ == 0;
        ++p;  // max token type
        int n = *p++;
        states.resize(n);
        for (auto& s : states) {
            s.type = *p++;
            if (!s.type) continue;
            s.rule = *p++;
            if (s.rule == 65535) s.rule = -1;
            if (s.type == LOOP_END || s.type == BLOCK_START || s.type == PLUS_BLOCK_START || s.type == STAR_BLOCK_START) s.arg = *p++;
        }
        for (int i = *p++; i--;) states[*p++].nongreedy = true;
        Set<int> prec;
        for (int i = *p++; i--;) prec.insert(*p++);
        for (int i = *p++; i--;) {
            rule_start.push_back(*p++);
            prec_rule.push_back(prec.count(rule_start.back()));
            if (lexer) rule_tok.push_back(*p++);
        }
        rule_stop.resize(rule_start.size());
        for (int i = 0; i < n; ++i) if (states[i].type == RULE_STOP) rule_stop[states[i].rule] = i;
        for (int i = *p++; i--;) mode_start.push_back(*p++);
        for (int i = *p++; i--;) {
            Vec<std::pair<int, int>> s;
            int k = *p++;
            if (*p++) s.push_back({ T_EOF, T_EOF });
            for (; k--; p += 2) s.push_back({ p[0], p[1] });
            sets.push_back(s);
        }
        for (int i = *p++; i--; p += 6) {
            Tr t{ p[2], p[1], p[3], p[4], 0 };
            if (t.type == RULE) { t.follow = p[1]; t.target = p[3]; t.a = p[4]; t.b = p[5]; }
            if (t.type == ATOM && p[5]) t.a = T_EOF;
            states[p[0]].tr.push_back(t);
        }
        for (auto& s : states)
            for (size_t i = 0; i < s.tr.size(); ++i) {
                Tr t = s.tr[i];
                if (t.type != RULE) continue;
                Tr r{ EPS, t.follow, 0, 0, 0 };
                if (prec_rule[t.a] && t.b == 0) r.outer = t.a;
                states[rule_stop[t.a]].tr.push_back(r);
            }
        for (int i = *p++; i--;) decisions.push_back(*p++);
        if (lexer) for (int i = *p++; i--; p += 3) actions.push_back({ p[0], p[1] });
        for (auto& s : states) {
            s.eps_only = !s.tr.empty();
            for (auto& t : s.tr) if (t.type == ATOM || t.type == RANGE || t.type == SET || t.type == NOT_SET || t.type == WILD) s.eps_only = false;
        }
        for (auto& s : states)
            if (s.type == STAR_LOOP_ENTRY && prec_rule[s.rule]) {
                const State& e = states[s.tr.back().target];
                s.prec_decision = e.type == LOOP_END && e.eps_only && states[e.tr[0].target].type == RULE_STOP;
            }
    }
    bool in_set(int k, int x) const { for (auto& r : sets[k]) if (x >= r.first && x <= r.second) return true; return false; }
    bool matches(const Tr& t, int x, int lo, int hi) const {
        switch (t.type) {
        case ATOM: return t.a == x;
        case RANGE: return x >= t.a && x <= t.b;
        case SET: return in_set(t.a, x);
        case NOT_SET: return x >= lo && x <= hi && !in_set(t.a, x);
        case WILD: return x >= lo && x <= hi;
        }
        return false;
    }
};
static const Atn& lexer() { static const Atn a(lexer_atn); return a; }
static const Atn& parser() { static const Atn a(parser_atn); return a; }
static const bool warmed = (lexer(), parser(), true);

// ---- graph-structured stacks -------------------------------------------------------------------------------------------
using Frames = Vec<std::pair<int, int>>;  // (return state, parent), sorted; the empty stack is {(EMPTY_RS, -1)}
struct FramesHash { size_t operator()(const Frames& f) const { size_t h = 7; for (auto& x : f) h = (h * 1000003u) ^ (static_cast<size_t>(x.first) * 31 + static_cast<size_t>(x.second)); return h; } };
struct PairHash { size_t operator()(const std::pair<int, int>& p) const { return static_cast<size_t>(p.first) * 1000003u + static_cast<size_t>(p.second); } };
struct Stacks {
    Vec<Frames> of;
    HMap<Frames, int, FramesHash> ids;
    HMap<std::pair<int, int>, int, PairHash> merged[2];
    Stacks() { intern({ { EMPTY_RS, -1 } }); }
    int intern(const Frames& f) {
        auto [it, fresh] = ids.emplace(f, static_cast<int>(of.size()));
        if (fresh) of.push_back(f);
        return it->second;
    }
    static constexpr int EMPTY = 0;
    int push(int parent, int rs) { Frames f; f.push_back({ rs, parent }); return intern(f); }
    bool empty(int c) const { return of[c][0].first == EMPTY_RS; }
    bool empty_path(int c) const { return of[c].back().first == EMPTY_RS; }
    int merge(int a, int b, bool wild) {
        if (a == b) return a;
        if (wild && (a == EMPTY || b == EMPTY)) return EMPTY;
        auto key = std::minmax(a, b);
        std::pair<int, int> k(key.first, key.second);
        auto it = merged[wild].find(k);
        if (it != merged[wild].end()) return it->second;
        Frames x = of[a], y = of[b], r;
        size_t i = 0, j = 0;
        while (i < x.size() && j < y.size()) {
            if (x[i].first < y[j].first) r.push_back(x[i++]);
            else if (x[i].first > y[j].first) r.push_back(y[j++]);
            else { r.push_back({ x[i].first, x[i].second == y[j].second ? x[i].second : merge(x[i].second, y[j].second, wild) }); ++i; ++j; }
        }
        for (; i < x.size(); ++i) r.push_back(x[i]);
        for (; j < y.size(); ++j) r.push_back(y[j]);
        int m = intern(r);
        merged[wild].emplace(k, m);
        return m;
    }
};

// ---- lexer -------------------------------------------------------------------------------------------------------------
struct LexConfig {
    int state, alt, ctx, nact;
    int act[4];
    bool passed;
    bool operator==(const LexConfig& o) const { return state == o.state && alt == o.alt && ctx == o.ctx && passed == o.passed && nact == o.nact && !std::memcmp(act, o.act, sizeof(int) * nact); }
    size_t hash() const { return static_cast<size_t>(state) * 31 + static_cast<size_t>(ctx) * 977 + static_cast<size_t>(alt) * 7919 + nact * 3 + passed; }
};
struct LexHash { size_t operator()(const LexConfig& c) const { return c.hash(); } };
struct LexSet {
    Vec<LexConfig> list;
    std::unordered_set<LexConfig, LexHash, std::equal_to<LexConfig>, Alloc<LexConfig>> seen;
    void add(const LexConfig& c) { if (seen.insert(c).second) list.push_back(c); }
};
// Like the runtime, remembers what it computed: a state of the automaton is the set of configurations, its edges are filled
// in as they are needed. Nothing here is visible to the instrumented code, and nothing here is ever preempted.
struct LexNode { Vec<LexConfig> list; int ascii[128], at_eof; Map<int, int> other; int accept; };  // edges: -2 unknown, -1 none
struct LexListHash { size_t operator()(const Vec<LexConfig>& l) const { size_t h = l.size(); for (auto& c : l) h = h * 1000003u ^ c.hash(); return h; } };
struct LexDfa { Stacks st; std::deque<LexNode, Alloc<LexNode>> nodes; HMap<Vec<LexConfig>, int, LexListHash> ids; Map<size_t, int> start; };
static LexDfa& lex_dfa() { static LexDfa d; return d; }
struct LexSimulator {
    Lexer& lx;
    explicit LexSimulator(Lexer& l) : lx(l) {}
    const Atn& atn = lexer();
    LexDfa& dfa = lex_dfa();
    Stacks& st = dfa.st;

    int intern(const LexSet& s) {
        auto [it, fresh] = dfa.ids.emplace(s.list, static_cast<int>(dfa.nodes.size()));
        if (fresh) {
            LexNode n;
            n.list = s.list;
            std::fill(std::begin(n.ascii), std::end(n.ascii), -2);
            n.at_eof = -2;
            n.accept = -1;
            for (size_t i = 0; i < n.list.size() && n.accept < 0; ++i) if (atn.states[n.list[i].state].type == RULE_STOP) n.accept = static_cast<int>(i);
            dfa.nodes.push_back(std::move(n));
        }
        return it->second;
    }
    int start_node(size_t mode) {
        auto it = dfa.start.find(mode);
        if (it != dfa.start.end()) return it->second;
        LexSet s;
        auto& ms = atn.states[atn.mode_start[mode]];
        for (size_t i = 0; i < ms.tr.size(); ++i) closure(LexConfig{ ms.tr[i].target, static_cast<int>(i) + 1, Stacks::EMPTY, 0, {}, false }, s, false, false);
        return dfa.start[mode] = intern(s);
    }
    int next_node(int from, int t) {
        LexNode& n = dfa.nodes[from];
        int* known = t == T_EOF ? &n.at_eof : t < 128 ? &n.ascii[t] : nullptr;
        if (known && *known != -2) return *known;
        if (!known) { auto it = n.other.find(t); if (it != n.other.end()) return it->second; }
        LexSet reach;
        int skip = 0;
        for (auto& c : n.list) {
            bool acc = c.alt == skip;
            if (acc && c.passed) continue;
            for (auto& tr : atn.states[c.state].tr) {
                if (!atn.matches(tr, t, 0, 0x10ffff)) continue;
                LexConfig d = c;
                d.state = tr.target;
                enter(d, c);
                if (closure(d, reach, acc, t == T_EOF)) { skip = c.alt; break; }
            }
        }
        int r = reach.list.empty() ? -1 : intern(reach);
        if (known) *known = r; else n.other[t] = r;
        return r;
    }

    bool closure(const LexConfig& c, LexSet& out, bool accepted, bool eof_eps) {
        const State& s = atn.states[c.state];
        if (s.type == RULE_STOP) {
            if (st.empty_path(c.ctx)) {
                if (st.empty(c.ctx)) { out.add(c); return true; }
                LexConfig d = c;
                d.ctx = Stacks::EMPTY;
                out.add(d);
                accepted = true;
            }
            Frames f = st.of[c.ctx];
            for (auto& [rs, parent] : f) {
                if (rs == EMPTY_RS) continue;
                LexConfig d = c;
                d.state = rs;
                d.ctx = parent;
                enter(d, c);
                accepted = closure(d, out, accepted, eof_eps);
            }
            return accepted;
        }
        if (!s.eps_only && (!accepted || !c.passed)) out.add(c);
        for (auto& t : s.tr) {
            LexConfig d = c;
            d.state = t.target;
            switch (t.type) {
            case RULE: d.ctx = st.push(c.ctx, t.follow); break;
            case EPS: break;
            case ACTION: if (st.empty_path(c.ctx)) d.act[d.nact < 4 ? d.nact++ : 3] = t.b; break;
            default: if (!eof_eps || !atn.matches(t, T_EOF, 0, 0x10ffff)) continue;
            }
            enter(d, c);
            accepted = closure(d, out, accepted, eof_eps);
        }
        return accepted;
    }
    void enter(LexConfig& d, const LexConfig&) { const State& s = atn.states[d.state]; if (s.nongreedy) d.passed = true; }

    // Returns the token type (T_EOF at the end of the input) and the actions, or throws through the listener.
    int match(size_t mode, Vec<int>& acts, bool& error, size_t& fail_index) {
        CharStream* in = lx.input_;
        size_t start = in->index();
        int cur = start_node(mode);
        bool have = false;
        size_t a_index = 0, a_line = 0, a_col = 0;
        int a_type = 0;
        Vec<int> a_acts;
        auto capture = [&](int node) {
            const LexNode& s = dfa.nodes[node];
            if (s.accept < 0) return;
            const LexConfig& c = s.list[s.accept];
            have = true;
            a_index = in->index(); a_line = lx.line_; a_col = lx.column_;
            a_type = atn.rule_tok[atn.states[c.state].rule];
            a_acts.assign(c.act, c.act + c.nact);
        };
        capture(cur);
        size_t la = in->LA(1);
        int t = la == IntStream::EOF ? T_EOF : static_cast<int>(la);
        for (;;) {
            int reach = next_node(cur, t);
            if (reach < 0) break;
            if (t != T_EOF) {
                if (t == '\n') { ++lx.line_; lx.column_ = 0; } else ++lx.column_;
                in->consume();
            }
            capture(reach);
            if (t == T_EOF) break;
            la = in->LA(1);
            t = la == IntStream::EOF ? T_EOF : static_cast<int>(la);
            cur = reach;
        }
        if (have) {
            in->seek(a_index);
            lx.line_ = a_line;
            lx.column_ = a_col;
            acts = a_acts;
            return a_type;
        }
        if (t == T_EOF && in->index() == start) return T_EOF;
        error = true;
        fail_index = in->index();
        return 0;
    }
};

// ---- parser ------------------------------------------------------------------------------------------------------------
struct Config { int state, alt, ctx, sem; int reaches; bool suppressed; bool operator==(const Config&) const = default; };
struct ConfigSet {
    bool full = false;
    Vec<Config> list;
    HMap<std::pair<int, int>, int, PairHash> at;
    static std::pair<int, int> key(const Config& c) { return { c.state * 64 + c.alt, c.sem }; }
    void add(const Config& c, Stacks& st) {
        auto [it, fresh] = at.emplace(key(c), static_cast<int>(list.size()));
        if (fresh) { list.push_back(c); return; }
        Config& e = list[it->second];
        e.ctx = st.merge(e.ctx, c.ctx, !full);
        e.reaches = std::max(e.reaches, c.reaches);
        if (c.suppressed) e.suppressed = true;
    }
};
using TokSet = Set<int>;
using Busy = std::set<std::array<int, 5>, std::less<std::array<int, 5>>, Alloc<std::array<int, 5>>>;

static std::string escape(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else r += c; }
    return r;
}
static std::string display(int t) {
    if (t == T_EOF) return "<EOF>";
    if (t == T_EPS) return "<EPSILON>";
    return token_display[t];
}
static std::string display(const TokSet& s) {
    if (s.empty()) return "{}";
    std::string r = s.size() > 1 ? "{" : "";
    bool first = true;
    for (int t : s) { if (!first) r += ", "; first = false; r += display(t); }
    return s.size() > 1 ? r + "}" : r;
}

// A state of the automaton of a decision: the configurations SLL prediction is in, and what follows from them alone.
struct ListHash { size_t operator()(const Vec<Config>& l) const { size_t h = l.size(); for (auto& c : l) h = (h * 1000003u) ^ static_cast<size_t>(c.state * 31 + c.alt * 7 + c.ctx * 977 + c.sem * 131 + c.reaches * 3 + c.suppressed); return h; } };
struct ParNode { ConfigSet set; Map<int, int> edges; int unique = 0; bool conflict = false, sem = false; Set<int> alts; };
struct ParDfa {
    Stacks st;
    std::deque<ParNode, Alloc<ParNode>> nodes;
    Map<int, HMap<Vec<Config>, int, ListHash>> ids;  // by the rule of a precedence decision: the closure depends on it
    Map<std::pair<int, int>, int> start;
    Map<std::pair<int, int>, TokSet> next;
};
static ParDfa& par_dfa() { static ParDfa d; return d; }

struct Simulator {
    Parser& p;
    const Atn& atn = parser();
    Stacks* stp = &par_dfa().st;  // SLL prediction's; prediction with full context has its own
    bool prec_dfa = false;
    int dec_state = 0, dec_rule = 0;
    explicit Simulator(Parser& parser) : p(parser) {}

    int la(ptrdiff_t k) { size_t t = p.input_->LA(k); return t == Token::EOF ? T_EOF : static_cast<int>(t); }
    const State& cur() { return atn.states[p.state_]; }
    static std::string show(Token* t) { return "'" + escape(t->getText()) + "'"; }
    [[noreturn]] void fail(Token* t, const std::string& msg) {
        p.notify(t, t->getLine(), t->getCharPositionInLine(), msg);
        throw ParseCancellationException(msg);  // error recovery is not simulated
    }

    // LL1Analyzer
    void look(int s, const Vec<int>& ctx, bool local, TokSet& out, Set<std::pair<int, Vec<int>>>& busy, Set<int>& called) {
        if (!busy.insert({ s, ctx }).second) return;
        const State& x = atn.states[s];
        if (x.type == RULE_STOP) {
            if (ctx.empty()) { out.insert(local ? T_EPS : T_EOF); return; }
            bool had = called.erase(x.rule);
            Vec<int> up(ctx.begin(), ctx.end() - 1);
            look(ctx.back(), up, local, out, busy, called);
            if (had) called.insert(x.rule);
            return;
        }
        for (auto& t : x.tr) {
            if (t.type == RULE) {
                if (called.count(t.a)) continue;
                called.insert(t.a);
                Vec<int> down = ctx;
                down.push_back(t.follow);
                look(t.target, down, local, out, busy, called);
                called.erase(t.a);
            } else if (t.type == EPS || t.type == PREC || t.type == ACTION) look(t.target, ctx, local, out, busy, called);
            else if (t.type == ATOM) out.insert(t.a);
            else if (t.type == SET) for (auto& r : atn.sets[t.a]) for (int i = r.first; i <= r.second; ++i) out.insert(i);
        }
    }
    const TokSet& next_tokens(int s) {
        auto [it, fresh] = par_dfa().next.try_emplace({ s, 0 });
        if (!fresh) return it->second;
        TokSet& r = it->second;
        Set<std::pair<int, Vec<int>>> busy;
        Set<int> called;
        look(s, {}, true, r, busy, called);
        return r;
    }
    TokSet next_tokens(int s, ParserRuleContext* ctx) {
        Vec<int> stack;
        for (auto* c = ctx; c && c->parent && c->invokingState != INVALID_INDEX; c = static_cast<ParserRuleContext*>(c->parent)) stack.push_back(atn.states[c->invokingState].tr[0].follow);
        std::reverse(stack.begin(), stack.end());
        TokSet r;
        Set<std::pair<int, Vec<int>>> busy;
        Set<int> called;
        look(s, stack, false, r, busy, called);
        return r;
    }
    TokSet expected(size_t state, ParserRuleContext* ctx) {
        TokSet following = next_tokens(static_cast<int>(state));
        if (!following.count(T_EPS)) return following;
        TokSet r = following;
        r.erase(T_EPS);
        while (ctx && ctx->invokingState != INVALID_INDEX && following.count(T_EPS)) {
            following = next_tokens(atn.states[ctx->invokingState].tr[0].follow);
            r.insert(following.begin(), following.end());
            r.erase(T_EPS);
            ctx = static_cast<ParserRuleContext*>(ctx->parent);
        }
        if (following.count(T_EPS)) r.insert(T_EOF);
        return r;
    }
    TokSet expected() { return expected(p.state_, p.ctx_); }

    // DefaultErrorStrategy
    [[noreturn]] void mismatch() { Token* t = p.input_->LT(1); fail(t, "mismatched input " + show(t) + " expecting " + display(expected())); }
    [[noreturn]] void unwanted() { Token* t = p.input_->LT(1); fail(t, "extraneous input " + show(t) + " expecting " + display(expected())); }
    void try_deletion() { if (expected().count(la(2))) unwanted(); }
    void sync() {
        int t = la(1);
        const TokSet& n = next_tokens(static_cast<int>(p.state_));
        if (n.count(T_EPS) || n.count(t)) return;
        switch (cur().type) {
        case BLOCK_START: case STAR_BLOCK_START: case PLUS_BLOCK_START: case STAR_LOOP_ENTRY: try_deletion(); mismatch();
        case PLUS_LOOP_BACK: case STAR_LOOP_BACK: unwanted();
        default: break;
        }
    }
    [[noreturn]] void recover_inline() {
        try_deletion();
        int next = cur().tr[0].type == RULE ? cur().tr[0].target : cur().tr[0].target;
        if (next_tokens(next, p.ctx_).count(la(1))) {
            Token* t = p.input_->LT(1);
            fail(t, "missing " + display(expected()) + " at " + show(t));
        }
        mismatch();
    }
    [[noreturn]] void no_viable(Token* start, Token* offending) {
        std::string text = start->getType() == Token::EOF ? "<EOF>" : p.input_->textBetween(start, offending);
        fail(offending, "no viable alternative at input '" + escape(text) + "'");
    }

    // ParserATNSimulator
    bool precpred(int prec) { return prec >= p.precedence_.back(); }
    bool can_drop(const Config& c) {
        const State& s = atn.states[c.state];
        if (s.type != STAR_LOOP_ENTRY || !s.prec_decision || stp->empty(c.ctx) || stp->empty_path(c.ctx)) return false;
        const Frames& f = stp->of[c.ctx];
        for (auto& x : f) if (atn.states[x.first].rule != s.rule) return false;
        int block_end = atn.states[s.tr[0].target].arg;
        for (auto& x : f) {
            const State& r = atn.states[x.first];
            if (r.tr.size() != 1 || (r.tr[0].type != EPS && r.tr[0].type != RULE && r.tr[0].type != PREC && r.tr[0].type != ACTION)) return false;
            int target = r.tr[0].target;
            if (r.type == BLOCK_END && target == c.state) continue;
            if (x.first == block_end) continue;
            if (target == block_end) continue;
            const State& q = atn.states[target];
            if (q.type == BLOCK_END && q.tr.size() == 1 && q.tr[0].type == EPS && q.tr[0].target == c.state) continue;
            return false;
        }
        return true;
    }
    void closure(const Config& c, ConfigSet& out, Busy& busy, bool collect, int depth, bool eof_eps) {
        if (atn.states[c.state].type == RULE_STOP) {
            if (!stp->empty(c.ctx)) {
                Frames f = stp->of[c.ctx];
                for (auto& [rs, parent] : f) {
                    if (rs == EMPTY_RS) {
                        if (out.full) { Config d = c; d.ctx = Stacks::EMPTY; out.add(d, *stp); }
                        else closure_(c, out, busy, collect, depth, eof_eps);
                        continue;
                    }
                    Config d = c;
                    d.state = rs;
                    d.ctx = parent;
                    closure(d, out, busy, collect, depth - 1, eof_eps);
                }
                return;
            }
            if (out.full) { out.add(c, *stp); return; }
        }
        closure_(c, out, busy, collect, depth, eof_eps);
    }
    static std::array<int, 5> busy_key(const Config& c) { return { c.state, c.alt, c.ctx, c.sem, c.suppressed }; }
    void closure_(const Config& c, ConfigSet& out, Busy& busy, bool collect, int depth, bool eof_eps) {
        const State& s = atn.states[c.state];
        if (!s.eps_only) out.add(c, *stp);
        for (size_t i = 0; i < s.tr.size(); ++i) {
            if (i == 0 && can_drop(c)) continue;
            const Tr& t = s.tr[i];
            bool go_on = t.type != ACTION && collect;
            Config d = c;
            d.state = t.target;
            bool eps = true;
            switch (t.type) {
            case RULE: d.ctx = stp->push(c.ctx, t.follow); break;
            case PREC:
                if (go_on && depth == 0) {
                    if (out.full) { if (!precpred(t.a)) continue; }
                    else d.sem = c.sem < 0 ? t.a : std::min(c.sem, t.a);
                }
                break;
            case EPS: case ACTION: break;
            default:
                if (!eof_eps || !atn.matches(t, T_EOF, 0, 1)) continue;
                eps = false;
            }
            int nd = depth;
            if (s.type == RULE_STOP) {
                if (prec_dfa && t.outer == dec_rule) d.suppressed = true;
                d.reaches = 1;  // only whether matters
                if (!busy.insert(busy_key(d)).second) continue;
                --nd;
            } else {
                if (!eps && !busy.insert(busy_key(d)).second) continue;
                if (t.type == RULE && nd >= 0) ++nd;
            }
            closure(d, out, busy, go_on, nd, eof_eps);
        }
    }
    int from_context(ParserRuleContext* c) {
        if (!c || !c->parent) return Stacks::EMPTY;
        return stp->push(from_context(static_cast<ParserRuleContext*>(c->parent)), atn.states[c->invokingState].tr[0].follow);
    }
    ConfigSet start_state(int s, ParserRuleContext* ctx, bool full) {
        ConfigSet r;
        r.full = full;
        int c0 = full ? from_context(ctx) : Stacks::EMPTY;
        auto& tr = atn.states[s].tr;
        for (size_t i = 0; i < tr.size(); ++i) {
            Busy busy;
            closure(Config{ tr[i].target, static_cast<int>(i) + 1, c0, -1, 0, false }, r, busy, true, 0, false);
        }
        return r;
    }
    ConfigSet precedence_filter(const ConfigSet& in) {
        ConfigSet r;
        r.full = in.full;
        Map<int, int> from1;
        for (auto& c : in.list) {
            if (c.alt != 1) continue;
            if (c.sem >= 0 && !precpred(c.sem)) continue;
            from1[c.state] = c.ctx;
            Config d = c;
            d.sem = -1;
            r.add(d, *stp);
        }
        for (auto& c : in.list) {
            if (c.alt == 1) continue;
            if (!c.suppressed) {
                auto it = from1.find(c.state);
                if (it != from1.end() && it->second == c.ctx) continue;
            }
            r.add(c, *stp);
        }
        return r;
    }
    static int unique_alt(const ConfigSet& s) {
        int a = 0;
        for (auto& c : s.list) { if (!a) a = c.alt; else if (c.alt != a) return 0; }
        return a;
    }
    bool all_stopped(const ConfigSet& s) { for (auto& c : s.list) if (atn.states[c.state].type != RULE_STOP) return false; return true; }
    ConfigSet reach_set(const ConfigSet& from, int t, bool full) {
        ConfigSet inter;
        inter.full = full;
        Vec<Config> skipped;
        for (auto& c : from.list) {
            if (atn.states[c.state].type == RULE_STOP) { if (full || t == T_EOF) skipped.push_back(c); continue; }
            for (auto& tr : atn.states[c.state].tr)
                if (atn.matches(tr, t, 0, 1 << 30)) { Config d = c; d.state = tr.target; inter.add(d, *stp); }
        }
        bool as_is = skipped.empty() && t != T_EOF && (inter.list.size() == 1 || unique_alt(inter));
        ConfigSet r;
        r.full = full;
        if (as_is) r = inter;
        else {
            Busy busy;
            for (auto& c : inter.list) closure(c, r, busy, false, 0, t == T_EOF);
        }
        if (t == T_EOF && !all_stopped(r)) {
            ConfigSet n;
            n.full = full;
            for (auto& c : r.list) if (atn.states[c.state].type == RULE_STOP) n.add(c, *stp);
            r = n;
        }
        bool stopped = false;
        for (auto& c : r.list) stopped |= atn.states[c.state].type == RULE_STOP;
        if (!skipped.empty() && (!full || !stopped)) for (auto& c : skipped) r.add(c, *stp);
        return r;
    }
    Map<std::pair<int, int>, Set<int>> alt_subsets(const ConfigSet& s) {
        Map<std::pair<int, int>, Set<int>> m;
        for (auto& c : s.list) m[{ c.state, c.ctx }].insert(c.alt);
        return m;
    }
    bool sll_conflict(const ConfigSet& s, Set<int>& alts) {
        auto m = alt_subsets(s);
        for (auto& [k, v] : m) alts.insert(v.begin(), v.end());
        if (all_stopped(s)) return true;
        bool conflict = false;
        for (auto& [k, v] : m) conflict |= v.size() > 1;
        if (!conflict) return false;
        Map<int, Set<int>> by_state;
        for (auto& c : s.list) by_state[c.state].insert(c.alt);
        for (auto& [k, v] : by_state) if (v.size() == 1) return false;
        return true;
    }
    int finished_alt(const ConfigSet& s, bool valid) {
        int best = 0;
        for (auto& c : s.list) {
            bool ok = c.sem < 0 || precpred(c.sem);
            if (ok != valid) continue;
            if (c.reaches > 0 || (atn.states[c.state].type == RULE_STOP && stp->empty_path(c.ctx))) best = best ? std::min(best, c.alt) : c.alt;
        }
        return best;
    }
    int syn_valid(const ConfigSet& s) { int a = finished_alt(s, true); return a ? a : finished_alt(s, false); }
    // Alternatives of D whose predicates hold; empty optional when D needs none.
    std::optional<Set<int>> eval_predicates(const ConfigSet& s, const Set<int>& alts) {
        Map<int, int> pred;  // -2 absent, -1 none
        bool any = false;
        for (auto& c : s.list) {
            if (!alts.count(c.alt)) continue;
            auto it = pred.find(c.alt);
            if (it == pred.end()) pred[c.alt] = c.sem;
            else if (it->second == -1 || c.sem == -1) it->second = -1;
            else it->second = std::max(it->second, c.sem);
        }
        for (auto& [a, s2] : pred) any |= s2 >= 0;
        if (!any) return std::nullopt;
        Set<int> r;
        for (auto& [a, s2] : pred) if (s2 < 0 || precpred(s2)) r.insert(a);
        return r;
    }
    int intern(ConfigSet&& s) {
        // The order of the configurations and the merging they came from matter to nothing but the order of later ones.
        auto [it, fresh] = par_dfa().ids[prec_dfa ? dec_rule : -1].emplace(s.list, static_cast<int>(par_dfa().nodes.size()));
        if (fresh) {
            ParNode n;
            n.unique = unique_alt(s);
            n.conflict = !n.unique && sll_conflict(s, n.alts);
            for (auto& c : s.list) n.sem |= c.sem >= 0;
            n.set = std::move(s);
            par_dfa().nodes.push_back(std::move(n));
        }
        return it->second;
    }
    int start_node() {
        std::pair<int, int> key(dec_state, prec_dfa ? p.precedence_.back() : 0);
        auto it = par_dfa().start.find(key);
        if (it != par_dfa().start.end()) return it->second;
        ConfigSet s = start_state(dec_state, nullptr, false);
        if (prec_dfa) s = precedence_filter(s);
        return par_dfa().start[key] = intern(std::move(s));
    }
    int next_node(int from, int t) {
        ParNode& n = par_dfa().nodes[from];
        auto it = n.edges.find(t);
        if (it != n.edges.end()) return it->second;
        ConfigSet s = reach_set(n.set, t, false);
        return n.edges[t] = s.list.empty() ? -1 : intern(std::move(s));
    }
    int predict(int decision) {
        stp = &par_dfa().st;
        dec_state = atn.decisions[decision];
        dec_rule = atn.states[dec_state].rule;
        prec_dfa = atn.states[dec_state].type == STAR_LOOP_ENTRY && atn.states[dec_state].prec_decision;
        TokenStream* in = p.input_;
        size_t start = in->index();
        int prev = start_node();
        int t = la(1);
        for (;;) {
            int next = next_node(prev, t);
            if (next < 0) {
                Token* offending = in->LT(1);
                Token* first = in->get(start);
                in->seek(start);
                int a = syn_valid(par_dfa().nodes[prev].set);
                if (a) return a;
                no_viable(first, offending);
            }
            const ParNode& d = par_dfa().nodes[next];
            if (d.unique) {
                if (d.sem)
                    if (auto ok = eval_predicates(d.set, { d.unique })) {
                        if (ok->empty()) { Token* off = in->LT(1); Token* first = in->get(start); in->seek(start); no_viable(first, off); }
                        in->seek(start);
                        return *ok->begin();
                    }
                in->seek(start);
                return d.unique;
            }
            if (d.conflict) {
                if (d.sem)
                    if (auto ok = eval_predicates(d.set, d.alts); ok && ok->size() == 1) { in->seek(start); return *ok->begin(); }
                return predict_full(start);
            }
            prev = next;
            if (t != T_EOF) { in->consume(); t = la(1); }
        }
    }
    int predict_full(size_t start) {
        TokenStream* in = p.input_;
        size_t at = in->index();
        in->seek(start);
        (void)at;
        Stacks mine;
        stp = &mine;
        ConfigSet prev = start_state(dec_state, p.ctx_, true);
        int t = la(1);
        for (;;) {
            ConfigSet r = reach_set(prev, t, true);
            if (r.list.empty()) {
                Token* offending = in->LT(1);
                Token* first = in->get(start);
                in->seek(start);
                int a = syn_valid(prev);
                if (a) return a;
                no_viable(first, offending);
            }
            int u = unique_alt(r);
            if (!u) {
                Set<int> viable;
                for (auto& [k, v] : alt_subsets(r)) viable.insert(*v.begin());
                if (viable.size() == 1) u = *viable.begin();
            }
            if (u) { in->seek(start); return u; }
            prev = std::move(r);
            if (t != T_EOF) { in->consume(); t = la(1); }
        }
    }

    // ---- what the generated functions do ----
    ParserRuleContext* own(ParserRuleContext* c, tree::ParseTree* parent, size_t invoking) {
        p.owned_.emplace_back(c);
        c->parent = parent;
        c->invokingState = invoking;
        return c;
    }
    ParserRuleContext* copy(size_t label, ParserRuleContext* from) {
        auto* c = own(p.make_label_(label), from->parent, from->invokingState);
        c->start = from->start;
        c->stop = from->stop;
        return c;
    }
    void consume() {
        CommonToken* o = p.input_->LT(1);
        if (o->getType() != Token::EOF) p.input_->consume();
        auto* n = new tree::TerminalNode();
        p.owned_.emplace_back(n);
        n->symbol = o;
        n->parent = p.ctx_;
        p.ctx_->children.push_back(n);
    }
    struct Frame { ParserRuleContext* local; ParserRuleContext* parent; size_t parent_state; int rule; };

    ParserRuleContext* rule(int r, int prec) {
        Frame f{ own(p.make_rule_(r), p.ctx_, p.state_), p.ctx_, p.state_, r };
        const int* op = rule_prog + rule_prog_at[r];
        p.state_ = atn.rule_start[r];
        if (rule_leftrec[r]) {
            p.precedence_.push_back(prec);
            p.ctx_ = f.local;
            p.ctx_->start = p.input_->LT(1);
            exec(op, f);
            p.precedence_.pop_back();
            p.ctx_->stop = last();
            auto* ret = p.ctx_;
            p.ctx_ = f.parent;
            ret->parent = f.parent;
            if (f.parent) f.parent->children.push_back(ret);
            return ret;
        }
        p.ctx_ = f.local;
        p.ctx_->start = p.input_->LT(1);
        if (p.ctx_->parent) p.ctx_->parent->children.push_back(p.ctx_);
        exec(op, f);
        auto* ret = f.local;
        ret->stop = last();
        p.state_ = p.ctx_->invokingState;
        p.ctx_ = static_cast<ParserRuleContext*>(p.ctx_->parent);
        return ret;
    }
    CommonToken* last() { size_t i = p.input_->index(); return i ? p.input_->get(i - 1) : nullptr; }

    // Executes one operation, returns what follows it.
    const int* exec(const int* op, Frame& f) {
        switch (*op++) {
        case OP_SEQ: { int n = *op++; while (n--) op = exec(op, f); return op; }
        case OP_TOK: {
            p.state_ = op[0];
            if (la(1) != op[1]) recover_inline();
            consume();
            return op + 2;
        }
        case OP_SET: {
            p.state_ = op[0];
            int n = op[1], t = la(1);
            bool in = false;
            for (int i = 0; i < n; ++i) in |= op[2 + i] == t;
            if (!in) recover_inline();
            consume();
            return op + 2 + n;
        }
        case OP_CALL: p.state_ = op[0]; rule(op[1], op[2]); return op + 3;
        case OP_LL1ALT: case OP_LL1OPT: case OP_ALT: case OP_OPT: {
            int kind = op[-1], n = op[2];
            p.state_ = op[0];
            sync();
            int chosen = -1, t = la(1);
            if (kind == OP_ALT || kind == OP_OPT) chosen = predict(op[1]) - 1;
            op += 3;
            const int* body = nullptr;
            for (int i = 0; i < n; ++i) {
                int nl = *op++;
                if (kind == OP_LL1ALT || kind == OP_LL1OPT) for (int k = 0; k < nl; ++k) if (op[k] == t) chosen = i;
                op += nl;
                int size = *op++;
                if (chosen == i && !body) body = op;
                op += size;
            }
            if (body) exec(body, f);
            else if (kind == OP_LL1ALT) { Token* t1 = p.input_->LT(1); no_viable(t1, t1); }
            return op;
        }
        case OP_LL1STAR: case OP_LL1PLUS: {
            bool plus = op[-1] == OP_LL1PLUS;
            int entry = op[0], back = op[1], nl = op[2];
            const int* lk = op + 3;
            const int* body = lk + nl + 1;
            const int* end = body + lk[nl];
            auto more = [&] { int t = la(1); for (int i = 0; i < nl; ++i) if (lk[i] == t) return true; return false; };
            p.state_ = entry;
            sync();
            if (plus) do { exec(body, f); p.state_ = back; sync(); } while (more());
            else while (more()) { exec(body, f); p.state_ = back; sync(); }
            return end;
        }
        case OP_STAR: case OP_PLUS: case OP_RECLOOP: {
            int kind = op[-1], entry = op[0], back = op[1], dec = op[2], start = op[3], sdec = op[4], n = op[5];
            const int* alts = op + 6;
            const int* end = alts;
            for (int i = 0; i < n; ++i) end += 1 + *end;
            auto body = [&] {
                const int* b = alts;
                if (n > 1 || sdec >= 0) {
                    p.state_ = start;
                    sync();
                    int a = predict(sdec);
                    for (int i = 1; i < a; ++i) b += 1 + *b;
                }
                exec(b + 1, f);
            };
            if (kind == OP_RECLOOP) p.ctx_->stop = last();
            p.state_ = entry;
            sync();
            if (kind == OP_PLUS) {
                int a = 1;
                do { body(); p.state_ = back; sync(); a = predict(dec); } while (a == 1);
            } else {
                while (predict(dec) == 1) { body(); p.state_ = back; sync(); }
            }
            return end;
        }
        case OP_LABEL: {  // an alternative of the loop of a left-recursive rule
            auto* fresh = own(op[0] >= 0 ? p.make_label_(op[0]) : p.make_rule_(f.rule), f.parent, f.parent_state);
            auto* previous = p.ctx_;
            f.local = fresh;
            previous->parent = fresh;
            previous->invokingState = atn.rule_start[f.rule];
            previous->stop = last();
            p.ctx_ = fresh;
            fresh->start = previous->start;
            fresh->children.push_back(previous);
            return exec(op + 1, f);
        }
        case OP_PRIMARY: {
            if (op[0] >= 0) { f.local = copy(op[0], f.local); p.ctx_ = f.local; }
            return exec(op + 1, f);
        }
        case OP_PRECPRED: p.state_ = op[0]; if (!precpred(op[1])) { Token* t = p.input_->LT(1); fail(t, "rule " + std::string(rule_names[f.rule]) + " failed predicate"); } return op + 2;
        case OP_OUTER: {
            if (op[1] >= 0) f.local = copy(op[1], f.local);
            if (p.ctx_ != f.local && f.local->parent) {
                f.local->parent->children.pop_back();
                f.local->parent->children.push_back(f.local);
            }
            p.ctx_ = f.local;
            return exec(op + 2, f);
        }
        }
        std::abort();
    }
};

}  // namespace standin

// ---- input ----
static void utf8(std::string& r, char32_t c) {
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xc0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += static_cast<char>(0xe0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    else { r += static_cast<char>(0xf0 | c >> 18); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
}
void ANTLRInputStream::decode(const char* data, size_t n) {
    const auto* d = reinterpret_cast<const unsigned char*>(data);
    if (n >= 3 && d[0] == 0xef && d[1] == 0xbb && d[2] == 0xbf) { d += 3; n -= 3; }
    data_.clear();
    data_.reserve(n);
    p_ = 0;
    for (size_t i = 0; i < n;) {
        unsigned char c = d[i];
        int len = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        char32_t v = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7;
        bool ok = len && i + len <= n;
        for (int k = 1; ok && k < len; ++k) { ok = (d[i + k] & 0xc0) == 0x80; v = v << 6 | (d[i + k] & 63); }
        if (ok && ((len == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (len == 4 && (v < 0x10000 || v > 0x10ffff)))) ok = false;
        if (!ok) throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
        data_.push_back(v);
        i += len;
    }
}
void ANTLRInputStream::load(std::istream& stream) {
    if (!stream.good() || stream.eof()) return;
    // like the real runtime: a failing read raises instead of ending the text
    std::basic_string<char, std::char_traits<char>, standin::Alloc<char>> s{std::istreambuf_iterator<char>(stream), std::istreambuf_iterator<char>()};
    decode(s.data(), s.size());
}
void ANTLRInputStream::consume() {
    if (p_ >= data_.size()) throw IllegalStateException("cannot consume EOF");
    ++p_;
}
size_t ANTLRInputStream::LA(ptrdiff_t i) {
    if (!i) return 0;
    ptrdiff_t at = static_cast<ptrdiff_t>(p_) + (i < 0 ? i : i - 1);
    if (at < 0 || at >= static_cast<ptrdiff_t>(data_.size())) return IntStream::EOF;
    return data_[static_cast<size_t>(at)];
}
std::string ANTLRInputStream::textOf(size_t start, size_t stop) {
    std::string r;
    if (stop >= data_.size()) stop = data_.size() - 1;
    if (start >= data_.size()) return r;
    for (size_t i = start; i <= stop; ++i) utf8(r, data_[i]);
    return r;
}
std::string ANTLRInputStream::toString() const {
    std::string r;
    for (char32_t c : data_) utf8(r, c);
    return r;
}
void ANTLRFileStream::loadFromFile(const std::string& file_name) {
    file_name_ = file_name;
    if (file_name_.empty()) return;
    std::ifstream stream(file_name, std::ios::binary);
    load(stream);
}

// ---- tokens, errors ----
std::string CommonToken::getText() const {
    size_t n = input_->size();
    if (start_ < n && stop_ < n) return input_->textOf(start_, stop_);
    return "<EOF>";
}
ConsoleErrorListener ConsoleErrorListener::INSTANCE;
void ConsoleErrorListener::syntaxError(Recognizer*, Token*, size_t line, size_t column, const std::string& msg, std::exception_ptr) {
    std::cerr << "line " << line << ":" << column << " " << msg << std::endl;
}
Recognizer::Recognizer() { listeners_.push_back(&ConsoleErrorListener::INSTANCE); }
void Recognizer::notify(Token* offending, size_t line, size_t column, const std::string& msg) {
    standin::Vec<ANTLRErrorListener*> l = listeners_;
    for (auto* x : l) x->syntaxError(this, offending, line, column, msg, nullptr);
}

std::unique_ptr<CommonToken> Lexer::nextToken() {
    for (;;) {
        auto t = std::unique_ptr<CommonToken>(new CommonToken());
        t->input_ = input_;
        t->start_ = input_->index();
        t->line_ = line_;
        t->column_ = column_;
        if (hit_eof_) {
            t->type_ = Token::EOF;
            t->stop_ = input_->index() - 1;
            return t;
        }
        bool skip = false, more = false;
        int type = 0;
        do {
            more = false;
            standin::Vec<int> acts;
            bool error = false;
            size_t at = 0;
            standin::LexSimulator sim(*this);
            type = sim.match(mode_, acts, error, at);
            if (error) {
                std::string text = "token recognition error at: '" + standin::escape(input_->textOf(t->start_, at)) + "'";
                notify(nullptr, t->line_, t->column_, text);
                if (input_->LA(1) != IntStream::EOF) {
                    if (input_->LA(1) == '\n') { ++line_; column_ = 0; } else ++column_;
                    input_->consume();
                }
                skip = true;
            }
            for (int a : acts) {
                auto [kind, arg] = standin::lexer().actions[a];
                switch (kind) {
                case 6: skip = true; break;
                case 3: more = true; break;
                case 4: if (modes_.empty()) throw IllegalStateException("cannot pop mode stack"); mode_ = modes_.back(); modes_.pop_back(); break;
                case 5: modes_.push_back(mode_); mode_ = static_cast<size_t>(arg); break;
                case 2: mode_ = static_cast<size_t>(arg); break;
                }
            }
            if (input_->LA(1) == IntStream::EOF) hit_eof_ = true;
        } while (more && !skip);
        if (skip) continue;
        if (type == standin::T_EOF) {
            t->type_ = Token::EOF;
            t->stop_ = input_->index() - 1;
            hit_eof_ = true;
            return t;
        }
        t->type_ = static_cast<size_t>(type);
        t->stop_ = input_->index() - 1;
        return t;
    }
}
bool CommonTokenStream::sync(size_t i) {
    while (tokens_.size() <= i && !eof_) {
        auto t = source_->nextToken();
        t->index_ = tokens_.size();
        eof_ = t->type_ == Token::EOF;
        tokens_.push_back(std::move(t));
    }
    return i < tokens_.size();
}
void CommonTokenStream::init() { if (!started_) { started_ = true; sync(0); } }
CommonToken* CommonTokenStream::LT(ptrdiff_t k) {
    init();
    if (k < 0) return p_ >= static_cast<size_t>(-k) ? tokens_[p_ - static_cast<size_t>(-k)].get() : nullptr;
    size_t i = p_ + static_cast<size_t>(k) - 1;
    sync(i);
    return tokens_[std::min(i, tokens_.size() - 1)].get();
}
void CommonTokenStream::consume() {
    if (LA(1) == Token::EOF) throw IllegalStateException("cannot consume EOF");
    sync(p_ + 1);
    ++p_;
}
std::string CommonTokenStream::textBetween(Token* start, Token* stop) {
    std::string r;
    for (size_t i = start->getTokenIndex(); i <= stop->getTokenIndex() && i < tokens_.size(); ++i) {
        if (tokens_[i]->type_ == Token::EOF) break;
        r += tokens_[i]->getText();
    }
    return r;
}

// ---- trees, parser ----
std::any tree::TerminalNode::accept(ParseTreeVisitor* visitor) { return visitor->visitTerminal(this); }
tree::TerminalNode* ParserRuleContext::getToken(size_t type, size_t i) const {
    size_t j = 0;
    for (auto* c : children)
        if (auto* t = dynamic_cast<tree::TerminalNode*>(c); t && t->symbol->type_ == type) { if (j++ == i) return t; }
    return nullptr;
}
std::vector<tree::TerminalNode*> ParserRuleContext::getTokens(size_t type) const {
    std::vector<tree::TerminalNode*> r;
    for (auto* c : children)
        if (auto* t = dynamic_cast<tree::TerminalNode*>(c); t && t->symbol->type_ == type) r.push_back(t);
    return r;
}
Parser::Parser(TokenStream* input, Maker make_rule, Maker make_label) : input_(input), make_rule_(make_rule), make_label_(make_label) {}
Parser::~Parser() = default;
ParserRuleContext* Parser::runRule(size_t rule) { return standin::Simulator(*this).rule(static_cast<int>(rule), 0); }

}  // namespace antlr4
