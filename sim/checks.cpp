// Checks of the properties that are decided on the text, location, error and table parts of the library.
#include "checks.hpp"
#include <unistd.h>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <cerrno>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>

extern char** environ;

namespace sim {

// ---------------------------------------------------------------- decoding oracles
namespace {
struct JP {
    const std::string& d; size_t p = 0; std::string err;
    bool bad(const char* m) { if (err.empty()) err = std::string(m) + " at offset " + std::to_string(p); return false; }
    void ws() { while (p < d.size() && (d[p] == ' ' || d[p] == '\n' || d[p] == '\t' || d[p] == '\r')) ++p; }
    static void utf8(std::string& o, unsigned c) {
        if (c < 0x80) o += static_cast<char>(c);
        else if (c < 0x800) { o += static_cast<char>(0xC0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += static_cast<char>(0xE0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
        else { o += static_cast<char>(0xF0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
    }
    bool hex4(unsigned& v) {
        v = 0;
        for (int k = 0; k < 4; ++k) {
            if (p >= d.size()) return bad("unfinished \\u escape");
            char c = d[p++]; int x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (x < 0) { --p; return bad("a \\u escape without four hexadecimal digits"); }
            v = v * 16 + static_cast<unsigned>(x);
        }
        return true;
    }
    bool str(std::string& o) {
        ++p;
        while (p < d.size() && d[p] != '"') {
            unsigned char c = static_cast<unsigned char>(d[p]);
            if (c < 0x20) return bad("unescaped control character in a string");
            if (c != '\\') { o += d[p++]; continue; }
            ++p;
            if (p >= d.size()) return bad("unfinished escape");
            switch (d[p++]) {
                case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': {
                    unsigned v, w; if (!hex4(v)) return false;
                    if (v >= 0xD800 && v < 0xDC00) {
                        if (p + 1 >= d.size() || d[p] != '\\' || d[p + 1] != 'u') return bad("lone surrogate escape");
                        p += 2; if (!hex4(w)) return false;
                        if (w < 0xDC00 || w > 0xDFFF) return bad("lone surrogate escape");
                        v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                    } else if (v >= 0xDC00 && v <= 0xDFFF) return bad("lone surrogate escape");
                    utf8(o, v); break;
                }
                default: --p; return bad("unknown escape");
            }
        }
        if (p >= d.size()) return bad("unfinished string");
        ++p; return true;
    }
    bool val(J& j, int depth) {
        if (depth > 400) return bad("nesting too deep");
        ws();
        if (p >= d.size()) return bad("unexpected end");
        char c = d[p];
        if (c == '"') { j.t = J::STR; return str(j.str); }
        if (c == '{') {
            j.t = J::OBJ; ++p; ws();
            if (p < d.size() && d[p] == '}') { ++p; return true; }
            for (;;) {
                ws(); if (p >= d.size() || d[p] != '"') return bad("object key expected");
                std::string k; if (!str(k)) return false;
                for (auto& e : j.obj) if (e.first == k) return bad("repeated object key");
                ws(); if (p >= d.size() || d[p] != ':') return bad("':' expected"); ++p;
                j.obj.emplace_back(k, J{}); if (!val(j.obj.back().second, depth + 1)) return false;
                ws(); if (p < d.size() && d[p] == ',') { ++p; continue; }
                if (p < d.size() && d[p] == '}') { ++p; return true; }
                return bad("',' or '}' expected");
            }
        }
        if (c == '[') {
            j.t = J::ARR; ++p; ws();
            if (p < d.size() && d[p] == ']') { ++p; return true; }
            for (;;) {
                j.arr.emplace_back(); if (!val(j.arr.back(), depth + 1)) return false;
                ws(); if (p < d.size() && d[p] == ',') { ++p; continue; }
                if (p < d.size() && d[p] == ']') { ++p; return true; }
                return bad("',' or ']' expected");
            }
        }
        for (auto [w, t] : {std::pair<const char*, J::T>{"true", J::BOOL}, {"false", J::BOOL}, {"null", J::NUL}})
            if (!d.compare(p, strlen(w), w)) { j.t = t; j.b = *w == 't'; p += strlen(w); return true; }
        size_t s = p;
        auto digits = [&] { size_t q = p; while (p < d.size() && d[p] >= '0' && d[p] <= '9') ++p; return p > q; };
        if (d[p] == '-') ++p;
        if (p < d.size() && d[p] == '0') ++p; else if (!digits()) return bad("value expected");
        if (p < d.size() && d[p] == '.') { ++p; if (!digits()) return bad("digits expected"); }
        if (p < d.size() && (d[p] == 'e' || d[p] == 'E')) { ++p; if (p < d.size() && (d[p] == '+' || d[p] == '-')) ++p; if (!digits()) return bad("digits expected"); }
        j.t = J::NUM; j.num = d.substr(s, p - s);
        return true;
    }
};
}  // namespace
bool json_parse(const std::string& text, J& out, std::string& err) {
    JP q{text};
    if (!q.val(out, 0)) { err = "malformed JSON: " + q.err; return false; }
    q.ws();
    if (q.p != text.size()) { err = "malformed JSON: text after the end of the value at offset " + std::to_string(q.p); return false; }
    return true;
}
bool url_decode(const std::string& s, std::string& o, std::string& err) {
    auto hx = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (size_t k = 0; k < s.size(); ++k) {
        char c = s[k];
        if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~') { o += c; continue; }
        if (c == '%' && k + 2 < s.size() && hx(s[k + 1]) >= 0 && hx(s[k + 2]) >= 0) { o += static_cast<char>(hx(s[k + 1]) * 16 + hx(s[k + 2])); k += 2; continue; }
        err = c == '%' ? "a percent sign without two hexadecimal digits" : "the reserved byte \\x" + hex(std::string(1, c));
        err += " at offset " + std::to_string(k);
        return false;
    }
    return true;
}

// ---------------------------------------------------------------- the host process's environment
static const char* host_locales[] = {"de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "de_DE.UTF-8", "tr_TR.UTF-8", "en_US.UTF-8", "fr_FR.UTF-8", "ru_RU.KOI8-R", "POSIX"};
namespace {
struct HNum : std::numpunct<char> {
    char sep, point; std::string g;
    HNum(char s, char p, std::string gg) : sep(s), point(p), g(std::move(gg)) {}
    char do_thousands_sep() const override { return sep; }
    char do_decimal_point() const override { return point; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct HCtype : std::ctype<char> {
    int k;
    static const mask* tab(int k) {
        static mask t[4][table_size];
        for (size_t c = 0; c < table_size; ++c) {
            t[k][c] = classic_table()[c];
            if (k & 1) { if (c >= 0xC0) t[k][c] = alpha | lower | print; }
            if ((k & 2) && (c == '-' || c == '%')) t[k][c] = alpha | lower | print;
        }
        return t[k];
    }
    explicit HCtype(int kk) : std::ctype<char>(tab(kk & 3)), k(kk & 3) {}
    char do_tolower(char c) const override { if ((k & 2) && c == 'I') return static_cast<char>(0xFD); return static_cast<unsigned char>(c) >= 0xC0 ? static_cast<char>(c | 0x20) : c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
    char do_toupper(char c) const override { return c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c; }
};
}  // namespace
__attribute__((noinline)) static void stain_stack(int v) { volatile char b[1 << 16]; for (size_t k = 0; k < sizeof b; ++k) b[k] = static_cast<char>(v); asm volatile("" ::: "memory"); }
// The settings of one of the process's own streams (not its width, which every output uses up; std::cerr's buffer is the simulator's).
static std::string stream_state(const char* name, std::ios& s) {
    std::string r = name;
    r += " flags=" + std::to_string(static_cast<long>(s.flags())) + " precision=" + std::to_string(s.precision()) + " fill=" + std::to_string(static_cast<int>(s.fill()));
    r += " locale=" + s.getloc().name() + " exceptions=" + std::to_string(static_cast<int>(s.exceptions())) + " tie=" + (s.tie() == &std::cout ? "cout" : s.tie() ? "other" : "none");
    static std::map<std::string, std::streambuf*> own;
    if (&s != static_cast<std::ios*>(&std::cerr)) { auto it = own.emplace(name, s.rdbuf()).first; if (it->second != s.rdbuf()) r += " another buffer"; }
    return r;
}
static std::string host_state() {
    NoSut n;
    std::string r = setlocale(LC_ALL, nullptr);
    r += "|" + std::locale().name();
    char b[4096]; r += "|"; r += getcwd(b, sizeof b) ? b : "?";
    uint64_t h = 1; for (char** e = environ; e && *e; ++e) h = mix(h, fnv(*e, strlen(*e)));
    r += "|" + std::to_string(h);
    locale_t l = uselocale(static_cast<locale_t>(nullptr));
    r += "|" + std::to_string(l == LC_GLOBAL_LOCALE ? 0 : reinterpret_cast<uintptr_t>(l) != 0);
    r += "|" + stream_state("cin", std::cin) + "|" + stream_state("cout", std::cout) + "|" + stream_state("cerr", std::cerr) + "|" + stream_state("clog", std::clog);
    return r;
}
static std::string op_host(Ctx& c, const Op& o) {
    NoSut ns;
    switch (M(o, 0, 9)) {
        case 0: {
            static const char seps[] = ",.' _"; static const char* gs[] = {"\3", "\1", "\2\3", "\3\2", ""};
            std::locale::global(std::locale(std::locale(), new HNum(seps[M(o, 1, 5)], M(o, 2, 2) ? ',' : '.', gs[M(o, 3, 5)]))); fired(F_LOCALE); break;
        }
        case 1: std::locale::global(std::locale(std::locale(), new HCtype(static_cast<int>(M(o, 1, 4))))); fired(F_LOCALE); break;
        case 2: if (setlocale(M(o, 2, 3) == 0 ? LC_CTYPE : M(o, 2, 3) == 1 ? LC_NUMERIC : LC_ALL, host_locales[M(o, 1, 8)])) fired(F_LOCALE); break;
        case 3: try { std::locale::global(std::locale(host_locales[M(o, 1, 8)])); fired(F_LOCALE); } catch (const std::runtime_error&) {} break;
        case 4: if (chdir(M(o, 1, 2) ? "/" : "/tmp") == 0) fired(F_ENV); break;
        case 5: {
            static const char* n[] = {"LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE", "TZ", "LANGUAGE", "COLUMNS", "HOME"};
            if (M(o, 2, 4) == 0) unsetenv(n[M(o, 1, 8)]); else setenv(n[M(o, 1, 8)], M(o, 2, 4) == 1 ? "" : host_locales[M(o, 3, 8)], 1);
            fired(F_ENV); break;
        }
        case 6: setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); break;
        case 8: {   // formatting of the process's own streams
            std::ostream& os = M(o, 1, 3) == 0 ? std::cout : M(o, 1, 3) == 1 ? std::cerr : std::clog;
            switch (M(o, 2, 5)) {
                case 0: os << std::hex << std::showbase << std::uppercase; break;
                case 1: os << std::boolalpha << std::setprecision(2) << std::setfill('*'); break;
                case 2: os << std::scientific << std::showpos << std::left; break;
                case 3: os.imbue(std::locale(std::locale::classic(), new HNum('.', ',', "\3"))); fired(F_LOCALE); break;
                default: os << std::unitbuf << std::internal << std::oct; break;
            }
            fired(F_ENV); break;
        }
        default: {   // a locale for this thread only
            locale_t l = newlocale(LC_ALL_MASK, host_locales[M(o, 1, 8)], nullptr);
            if (l) { uselocale(l); fired(F_LOCALE); }
        }
    }
    c.model = host_state();
    return "";
}
static Op g_host(Rng& r, Gen&) {
    Op o{"host", {}, {static_cast<int64_t>(r.below(9))}};
    for (int k = 0; k < 3; ++k) o.i.push_back(static_cast<int64_t>(r.below(64)));
    return o;
}
static Reg host_reg("host", op_host, g_host, 0);

// ---------------------------------------------------------------- generators shared by the checks
std::vector<const OpInfo*> ops_with(unsigned all, unsigned none) {
    std::vector<const OpInfo*> v;
    size_t pipes = 0;
    for (auto& o : registry()) if ((o.tags & all) == all && !(o.tags & none)) { v.push_back(&o); pipes += (o.tags & T_PIPE) != 0; }
    // the leg with the whole pipeline favours it: the other leg is about everything else
    if (full_leg() && pipes) for (size_t k = v.size(), n = 3 * (v.size() - pipes) / pipes + 1; k-- > 0;) if (v[k]->tags & T_PIPE) for (size_t q = 1; q < n; ++q) v.push_back(v[k]);
    return v;
}
std::vector<const OpInfo*> swarm(Rng& r, std::vector<const OpInfo*> v, size_t maxk) {
    while (v.size() > maxk) v.erase(v.begin() + static_cast<long>(r.below(v.size())));
    return v;
}
void vary_sched(Rng& r, Gen&, Plan& p, const RunResult& dry) {
    p.sched.clear();
    uint64_t E = std::max<uint64_t>(dry.events, 20);
    size_t n = p.threads.size();
    auto who = [&] { return static_cast<int>(r.below(n)); };
    switch (r.below(5)) {
        case 0: case 1: {   // a few preemptions anywhere
            std::vector<uint64_t> v;
            for (size_t k = 1 + r.below(5); k > 0; --k) v.push_back(1 + r.below(E));
            std::sort(v.begin(), v.end());
            for (auto e : v) p.sched.push_back({e, who()});
            break;
        }
        case 2: {           // a burst
            uint64_t e = 1 + r.below(E);
            for (size_t k = 4 + r.below(30); k > 0; --k) { p.sched.push_back({e, who()}); e += 1 + r.below(6); }
            break;
        }
        case 3: {           // from the very first access on
            uint64_t e = 1 + r.below(4), s = 1 + r.below(8);
            for (size_t k = 10 + r.below(60); k > 0; --k) { p.sched.push_back({e, who()}); e += s; }
            break;
        }
        default: {          // regular time slices
            uint64_t s = 1 + r.logu(E / 2 + 1), e = 1 + r.below(s);
            for (size_t k = 0; k < 200 && e < E * 2; ++k) { p.sched.push_back({e, who()}); e += 1 + s / 2 + r.below(s); }
        }
    }
}
void vary_alloc(Rng& r, Plan& p, const RunResult& dry, int maxf) {
    int n = static_cast<int>(r.below(static_cast<uint64_t>(maxf) + 1));
    while (n-- > 0) {
        int t = static_cast<int>(r.below(p.threads.size()));
        if (p.threads[static_cast<size_t>(t)].empty()) continue;
        int k = static_cast<int>(r.below(p.threads[static_cast<size_t>(t)].size()));
        uint64_t seen = t < 4 && k < 16 ? dry.alloc_seen[t * 16 + k] : 8;
        Fault f{"alloc", t, k, static_cast<int64_t>(r.below(std::max<uint64_t>(seen, 1))), 1};
        if (r.chance(0.2)) f.a = 1 + static_cast<int64_t>(r.below(4));
        if (r.chance(0.15)) f.a = -1;
        p.faults.push_back(f);
    }
}
void each_ref(const Plan& p, std::vector<Plan>& v) {
    for (auto& t : p.threads) for (auto& o : t) { auto* i = find_op(o.k); if (i && (i->tags & (T_PURE | T_READ))) v.push_back(ref_plan(p, o)); }
}
std::string caller(int t, int k, const Op& o) { return "caller " + std::to_string(t) + ", call " + std::to_string(k) + " " + show(o); }
void must_match(const Plan& p, const Op& o, const std::string& got, const std::string& who, const char* when) {
    std::string g = norm(got);
    const std::string& want = ref_get(p, o);
    if (g != want) fail("result", who + " gives " + clip(g, 500) + " " + when + ", and " + clip(want, 500) + " when it is the only call in the process");
}
Op gen_one(Rng& r, Gen& g, const std::vector<const OpInfo*>& v) { auto* i = v[r.below(v.size())]; return i->gen(r, g); }


// ---------------------------------------------------------------- C01
static Plan c01_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.05) ? 20000 : 2500);
    Plan p;
    auto pool = swarm(r, ops_with(T_PURE), 1 + r.below(5));
    size_t n = 2 + r.below(r.chance(0.2) ? 6 : 3);
    bool same = r.chance(0.3), alike = full_leg() && r.chance(0.4);
    for (size_t t = 0; t < n; ++t) {
        if (t && same) { p.threads.push_back(p.threads[0]); continue; }
        p.threads.emplace_back();
        size_t k = 1 + r.below(4);
        if (alike) p.threads.back() = g_family(r, g, k, false);
        else while (k-- > 0) p.threads.back().push_back(gen_one(r, g, pool));
    }
    if (r.chance(0.3)) p.env["layout"] = static_cast<int64_t>(1 + r.below(1000));
    return p;
}
static void c01_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) { must_match(p, o, got, caller(t, k, o), "among other callers"); });
}
static RegCheck C01({"C01", c01_gen, [](Rng& r, Gen& g, Plan& p, const RunResult& d) { vary_sched(r, g, p, d); }, each_ref, c01_exec, 6, true, BUDGET});

// ---------------------------------------------------------------- C02
static Plan c02_gen(Rng& r, Gen& g) {
    MaxLen m(g, 2000);
    Plan p;
    auto mk = ops_with(T_SETUP);
    size_t n = 1 + r.below(3);
    for (size_t k = 0; k < n; ++k) p.setup.push_back(gen_one(r, g, mk));
    auto rd = ops_with(T_READ);
    size_t th = 2 + r.below(r.chance(0.2) ? 6 : 3);
    int64_t focus = r.chance(0.6) ? static_cast<int64_t>(r.below(n)) : -1;
    for (size_t t = 0; t < th; ++t) {
        p.threads.emplace_back();
        for (size_t k = 1 + r.below(4); k > 0; --k) {
            Op o = gen_one(r, g, rd);
            if (focus >= 0) o.i[0] = focus;
            // lookups that have a chance of finding something
            auto& s = p.setup[static_cast<size_t>(o.i[0]) % n];
            if (s.k == "mk_ovl" && s.s.size() > 1 && r.chance(0.7)) { size_t q = r.below(s.s.size() / 2) * 2; o.s[0] = s.s[q]; if (r.chance(0.7)) o.s[1] = s.s[q + 1]; }
            p.threads.back().push_back(o);
        }
    }
    return p;
}
static void c02_exec(Plan& p) {
    World w; Ctx c{w, {}, {}};
    setup_objects(c, p);
    std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) { must_match(p, o, got, caller(t, k, o), "while others read the same object"); });
    // afterwards every object still reads the same
    Plan again = p; again.threads.assign(1, {}); again.sched.clear();
    for (auto& t : p.threads) for (auto& o : t) again.threads[0].push_back(o);
    run_callers(w, again, out, [&](Ctx&, int, int k, const Op& o, const std::string& got) { must_match(p, o, got, caller(0, k, o), "after others have read the same object"); });
}
static RegCheck C02({"C02", c02_gen, [](Rng& r, Gen& g, Plan& p, const RunResult& d) { vary_sched(r, g, p, d); }, each_ref, c02_exec, 6, true, BUDGET});

// ---------------------------------------------------------------- C03
static Plan c03_gen(Rng& r, Gen& g) {
    bool marathon = r.chance(0.1);
    MaxLen m(g, marathon ? 300 : r.chance(0.1) ? 20000 : 3000);
    Plan p;
    if (full_leg() && r.chance(0.015)) {   // endurance: a long life of small calls, some of which fail deep inside an expression
        MaxLen few(g, 120);
        auto v = g_family(r, g, 1 + r.below(3), true);
        for (auto& o : v) if (&o == &v[0] || r.chance(0.5)) {
            static const char* const leaf[] = {"x", "true", "1/0", "q", "1", "log(0,1)", "0.5%2", "~1.5"};
            static const char* const open[] = {"(", "-", "!", "1+(", "abs(", "2**("};
            const size_t depth = &o == &v[0] ? 20 + r.below(25) : r.below(40); const bool rx = r.chance(0.5);
            std::string a, b, w = open[r.below(6)];
            for (size_t k = 0; k < depth; ++k) { if (r.chance(0.2)) w = open[r.below(6)]; a += w; if (w.back() == '(') b += ")"; }
            o.s[0] = std::string("version 3.0;qubit[3] q;") + (rx ? "Rx(" : "X q[") + a + leaf[&o == &v[0] && r.chance(0.6) ? 0 : r.below(8)] + b + (rx ? ")q[0]" : "]");
        }
        p.threads.push_back(std::move(v));
        p.env["rep"] = static_cast<int64_t>(r.chance(0.2) ? 200 + r.below(500) : 40 + r.below(160));
        return p;
    }
    if (auto* cu = find_op("cust"); cu && r.chance(0.12)) {   // one question to analyzers that differ in what was registered
        p.threads.emplace_back();
        Op base = cu->gen(r, g);
        for (size_t k = 2 + r.below(8); k > 0; --k) {
            Op o = r.chance(0.85) ? base : cu->gen(r, g);
            for (size_t j = 7; j < o.i.size(); j += 3) if (r.chance(0.8)) o.i[j] = static_cast<int64_t>(r.below(1000));
            p.threads[0].push_back(o);
        }
        if (r.chance(0.6)) p.env["reuse"] = 1;
        return p;
    }
    if (full_leg() && r.chance(0.5)) { p.threads.push_back(g_family(r, g, 4 + r.below(17), true)); return p; }
    auto pool = swarm(r, ops_with(T_PURE), 1 + r.below(8));
    p.threads.emplace_back();
    bool reads = r.chance(0.35);
    auto mk = ops_with(T_SETUP), rd = ops_with(T_READ);
    if (reads) for (size_t k = 1 + r.below(2); k > 0; --k) p.setup.push_back(gen_one(r, g, mk));
    for (size_t k = 2 + r.below(14); k > 0; --k) {
        if (reads && r.chance(0.5)) { p.threads[0].push_back(gen_one(r, g, rd)); continue; }
        if (!p.threads[0].empty() && r.chance(0.35)) { Op o = p.threads[0][r.below(p.threads[0].size())]; p.threads[0].push_back(o); continue; }
        p.threads[0].push_back(gen_one(r, g, pool));
    }
    if (marathon) p.env["rep"] = static_cast<int64_t>(r.chance(0.2) && !full_leg() ? 300 + r.below(900) : 2 + r.below(full_leg() ? 40 : 60));
    return p;
}
static void c03_exec(Plan& p) {
    World w; Ctx c{w, {}, {}};
    if (!p.setup.empty()) { auto f = p.faults; p.faults.clear(); setup_objects(c, p); p.faults = f; }
    int64_t rep = p.env.count("rep") ? std::min<int64_t>(p.env["rep"], 2000) : 1;
    std::vector<std::vector<std::string>> out;
    Plan q = p; q.threads.assign(1, {});
    for (auto& t : p.threads) for (auto& o : t) q.threads[0].push_back(o);
    int64_t round = 0;
    auto faults = p.faults;
    for (auto& f : faults) if (f.th > 0) f.th = 0;
    p.faults = faults;
    while (round < rep) {
        // several rounds inside one caller: threads of the simulator are limited
        Plan big = q; big.threads.assign(1, {});
        int64_t n = std::min<int64_t>(rep - round, std::max<int64_t>(1, 4000 / static_cast<int64_t>(std::max<size_t>(q.threads[0].size(), 1))));
        for (int64_t k = 0; k < n; ++k) for (auto& o : q.threads[0]) big.threads[0].push_back(o);
        round = round + n;
        run_callers(w, big, out, [&](Ctx&, int, int k, const Op& o, const std::string& got) {
            if (got == "oom") for (auto& f : p.faults) if (f.k == "alloc" && f.op == k) return;
            must_match(p, o, got, caller(0, k, o), "after the calls before it");
        });
        if (out[0].size() < big.threads[0].size()) break;
    }
}
static RegCheck C03({"C03", c03_gen, [](Rng& r, Gen&, Plan& p, const RunResult& d) { vary_alloc(r, p, d, 3); if (r.chance(0.4)) p.env["reuse"] = 1; if (r.chance(0.3)) p.env["poison"] = static_cast<int64_t>(1 + r.below(255)); }, each_ref, c03_exec, 3, true, BUDGET});

// ---------------------------------------------------------------- C04
static Plan c04_gen(Rng& r, Gen& g) {
    MaxLen m(g, 900);
    Plan p;
    if (r.chance(0.35)) {
        auto h = ops_with(T_HIST);
        p.threads.push_back({gen_one(r, g, h)});
        return p;
    }
    p.env["sweep"] = 1; p.env["sweep_lo"] = 0; p.env["sweep_hi"] = 60;
    p.env["warm"] = r.chance(0.5); p.env["many"] = r.chance(0.3) ? (r.chance(0.5) ? -1 : static_cast<int64_t>(2 + r.below(3))) : 1;
    if (r.chance(0.35)) {
        auto mk = ops_with(T_SETUP), rd = ops_with(T_READ);
        p.setup.push_back(gen_one(r, g, mk));
        p.threads.push_back({gen_one(r, g, rd)});
    } else p.threads.push_back({gen_one(r, g, ops_with(T_PURE | T_ALLOC))});
    return p;
}
static void c04_vary(Rng& r, Gen&, Plan& p, const RunResult& d) {
    if (find_op(p.threads.at(0).at(0).k)->tags & T_HIST) { vary_alloc(r, p, d, 1); vary_alloc(r, p, d, 4); return; }
    uint64_t n = d.alloc_seen[0];
    if (n > 60) { p.env["sweep_lo"] = static_cast<int64_t>(r.chance(0.6) ? r.below(n) : n - r.logu(n)); p.env["sweep_hi"] = p.env["sweep_lo"] + 50; }
    if (p.env["many"] != 1) p.env["many"] = 1; else p.env["many"] = r.chance(0.6) ? -1 : static_cast<int64_t>(2 + r.below(4));
}
static void c04_exec(Plan& p) {
    World w; Ctx c{w, {}, {}};
    auto given = p.faults;
    p.faults.clear();
    setup_objects(c, p);
    Plan& live = *g_plan;
    const Op o = p.threads.at(0).at(0);
    bool sweep = !(find_op(o.k)->tags & T_HIST);
    std::vector<std::vector<std::string>> outs;
    uint64_t spent = 0;
    auto body = [&](Ctx& cx) {
        auto once = [&](std::vector<Fault> f) {
            live.faults = std::move(f);
            op_begin(0, 0);
            std::string r = norm(run_op(cx, o));
            uint64_t seen = tl.op_allocs;
            spent += tl.op_steps + 500 * tl.op_allocs;
            if (!sweep || live.faults.empty()) shm->alloc_seen[0] = std::max(shm->alloc_seen[0], seen);
            live.faults.clear();
            return r;
        };
        auto leak_check = [&](const std::vector<Fault>& f, uint64_t before, const std::string& how) {
            if (live_blocks() <= before) return;
            uint64_t b = live_blocks(), first = b - before, mark = alloc_seq();
            for (int k = 0; k < 3; ++k) { uint64_t x = live_blocks(); once(f); if (live_blocks() <= x) return; mark = mark ? mark : x; }
            fail("leak", show(o) + ": " + std::to_string(first) + " blocks stay allocated after every call in which " + how + ", for example" + describe_live(mark, 4));
        };
        if (!sweep) {
            uint64_t before = live_blocks();
            once(given);
            leak_check(given, before, "allocations fail as listed");
            return;
        }
        if (p.env["warm"]) once({});
        int64_t lo = p.env["sweep_lo"], hi = p.env["sweep_hi"], many = p.env.count("many") ? p.env["many"] : 1;
        for (int64_t n = lo; n <= hi && (n == lo || spent < 300'000'000); ++n) {   // long calls: fewer points of failure per run
            shm->aux[0] = 1; shm->aux[1] = n;
            std::vector<Fault> f{{"alloc", 0, 0, n, many}};
            uint64_t before = live_blocks(), fired0 = shm->run_fired[F_ALLOC];
            std::string r = once(f);
            std::string how = "allocation number " + std::to_string(n) + (many < 0 ? " and every later one fail" : many > 1 ? " and the " + std::to_string(many - 1) + " after it fail" : " fails");
            const std::string& want = ref_get(p, o);
            if (shm->run_fired[F_ALLOC] == fired0) break;
            if (r != "oom" && r != want) fail("result", show(o) + ": when " + how + " the outcome is " + clip(r, 400) + ", which is neither an out-of-memory report nor the correct " + clip(want, 400));
            leak_check(f, before, how);
            std::string why;
            if (!heap_ok(why)) fail("heap", show(o) + ": when " + how + " " + why);
            std::string r2 = once({});
            if (r2 != want) fail("after", show(o) + ": after a call in which " + how + ", the same call with memory available gives " + clip(r2, 400) + " instead of " + clip(want, 400));
        }
        shm->aux[0] = 0;
        if (shm->alloc_seen[0] == 0) once({});
    };
    spawn({[&] { try { body(c); } catch (const CheckFail& f) { violation(f.what.c_str(), f.text); } }});
}
static RegCheck C04({"C04", c04_gen, c04_vary, each_ref, c04_exec, 2, true, BUDGET});

// ---------------------------------------------------------------- C07
void check_diag(const std::string& text, const std::string& message, bool has, const LocSpec& l) {
    J j; std::string err;
    if (!json_parse(text, j, err)) fail("json", err + " in " + clip(text, 400));
    std::string msg = message.empty() ? "<unknown error message>" : message;
    const J* m = j.get("message");
    if (!m || m->t != J::STR || m->str != msg) fail("json", "the diagnostic does not carry the message \"" + clip(msg) + "\": " + clip(text, 400));
    uint32_t l2 = l.l2, c2 = l.c2;
    if (l2 < l.l1 || (l2 == l.l1 && c2 < l.c1)) { l2 = l.l1; c2 = l.c1; }
    const J* rg = j.get("range");
    auto num = [&](const char* a, const char* b) -> std::string { const J* x = rg ? rg->get(a) : nullptr; x = x ? x->get(b) : nullptr; return x && x->t == J::NUM ? x->num : "?"; };
    auto ws = [&](uint32_t v) { return std::to_string(has ? v : 0); };
    if (num("start", "line") != ws(l.l1) || num("start", "character") != ws(l.c1) || num("end", "line") != ws(l2) || num("end", "character") != ws(c2))
        fail("json", "the diagnostic does not carry the error's range: " + clip(text, 400));
    const J* sv = j.get("severity");
    if (!sv || sv->num != "1") fail("json", "the diagnostic's severity is not 1: " + clip(text, 400));
    const J* rel = j.get("relatedInformation");
    if (has && l.has && !l.name.empty()) {
        const J* uri = rel && rel->t == J::ARR && rel->arr.size() == 1 ? rel->arr[0].get("location") : nullptr;
        uri = uri ? uri->get("uri") : nullptr;
        std::string dec;
        if (!uri || uri->t != J::STR || uri->str.compare(0, 8, "file:///")) fail("json", "the diagnostic does not carry the file name as a file URI: " + clip(text, 400));
        if (!url_decode(uri->str.substr(8), dec, err)) fail("url", "the URI of the diagnostic contains " + err + ": " + clip(text, 400));
        if (dec != l.name) fail("json", "the file name in the diagnostic decodes to \"" + clip(dec) + "\" instead of \"" + clip(l.name) + "\"");
    } else if (rel) fail("json", "the diagnostic names a file although none is known: " + clip(text, 400));
}
static bool err_has(const Op& o, size_t i) { auto k = M(o, i, 6); return k == 1 || k == 3 || k == 4; }
static void c07_post(const Op& o, const std::string& outcome) {
    if (outcome.compare(0, 3, "ok:")) {
        if (outcome == "oom" || (o.k == "pipe" && M(o, 5, 8) == 7 && !outcome.compare(0, 25, "exc:std::invalid_argument"))) return;   // no such analyzer
        fail("raised", show(o) + " raised " + clip(outcome, 300));
    }
    std::string t = outcome.substr(3), err;
    if (o.k == "json") {
        J j;
        if (!json_parse("\"" + t + "\"", j, err)) fail("json", "the JSON encoding of \"" + clip(S(o, 0)) + "\" is not a JSON string: " + err + " in \"" + clip(t, 300) + "\"");
        if (j.t != J::STR || j.str != S(o, 0)) fail("json", "the JSON encoding of \"" + clip(S(o, 0)) + "\", which is \"" + clip(t, 300) + "\", decodes to \"" + clip(j.str, 300) + "\"");
    } else if (o.k == "url") {
        std::string d;
        if (!url_decode(t, d, err)) fail("url", "the URL encoding of \"" + clip(S(o, 0)) + "\" contains " + err + ": \"" + clip(t, 300) + "\"");
        if (d != S(o, 0)) fail("url", "the URL encoding of \"" + clip(S(o, 0)) + "\", which is \"" + clip(t, 300) + "\", decodes to \"" + clip(d, 300) + "\"");
    } else if (o.k == "err") {
        check_diag(t.substr(0, t.find('\n')), S(o, 0), err_has(o, 0), loc_spec(o, 1, 1));
    } else if (o.k == "errs") {
        J j;
        if (!json_parse(t, j, err)) fail("json", err + " in " + clip(t, 400));
        const J* e = j.get("errors");
        if (!e || e->t != J::ARR || e->arr.size() != o.i.size() / 6) fail("json", "the JSON form of " + std::to_string(o.i.size() / 6) + " errors does not list them: " + clip(t, 400));
        // each entry is checked like a single diagnostic: cut the text at the entries' boundaries
        size_t p = t.find('[') + 1;
        for (size_t k = 0; k < e->arr.size(); ++k) {
            JP q{t, p, {}}; J x; if (!q.val(x, 0)) fail("json", "entry " + std::to_string(k) + ": " + q.err);
            check_diag(t.substr(p, q.p - p), S(o, 2 * k), err_has(o, 6 * k), loc_spec(o, 2 * k + 1, 6 * k + 1));
            p = q.p + 1;
        }
    }
}
static Plan c07_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.05) ? 70000 : 6000);
    static const char* kinds[] = {"json", "url", "err", "errs"};
    Plan p; p.threads.emplace_back();
    if (full_leg()) g.max_len = std::min<size_t>(g.max_len, 9000);
    for (size_t k = 1 + r.below(6); k > 0; --k) p.threads[0].push_back(find_op(full_leg() && r.chance(0.9) ? "sound" : kinds[r.below(4)])->gen(r, g));
    return p;
}
static void c07_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int, int, const Op& o, const std::string& got) { c07_post(o, got); });
}
static void damage_vary(Rng& r, Gen& g, Plan& p, const RunResult& d) {   // damage reaches the text on its way to the call
    for (auto& t : p.threads) for (auto& o : t) for (auto& s : o.s) if (r.chance(0.5)) s = g.corrupt(r, s);
    if (r.chance(0.2)) vary_alloc(r, p, d, 2);
    if (r.chance(0.2)) p.env["poison"] = static_cast<int64_t>(1 + r.below(255));
}
static RegCheck C07({"C07", c07_gen, damage_vary, nullptr, c07_exec, 4, true, BUDGET});

// ---------------------------------------------------------------- C08
static Plan c08_gen(Rng& r, Gen& g) {
    MaxLen m(g, 300);
    Plan p; p.threads.emplace_back();
    for (size_t k = 1 + r.below(4); k > 0; --k) p.threads[0].push_back(find_op(r.chance(0.7) ? "lochist" : r.chance(0.6) ? "locgrow" : "loccmp")->gen(r, g));
    if (r.chance(0.2)) p.threads.push_back(p.threads[0]);
    return p;
}
static std::string model_fields(const LocSpec& l, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
    std::string r = l.has && !l.name.empty() ? "f" + std::to_string(l.name.size()) + ":" + l.name : "-";
    return r + "|" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d);
}
static void c08_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) {
        if (got == "oom") return;
        if (o.k == "locgrow") {
            LocSpec l = loc_spec(o, 0, 0);
            using P = std::pair<uint32_t, uint32_t>;
            P a{l.l1, l.c1}, b = std::max(a, P{l.l2, l.c2});
            std::string want = "ok:" + model_fields(l, a.first, a.second, b.first, b.second);
            for (size_t q = 5; q + 1 < o.i.size(); q += 2) { P x{U(o, q), U(o, q + 1)}; a = std::min(a, x); b = std::max(b, x); }
            want += " " + model_fields(l, a.first, a.second, b.first, b.second);
            if (got != want) fail("range", caller(t, k, o) + ": " + clip(got, 300) + " instead of " + clip(want, 300));
        } else if (o.k == "loccmp") {
            LocSpec l = loc_spec(o, 0, 0), m = loc_spec(o, 1, 5);
            using P = std::pair<uint32_t, uint32_t>; using R = std::pair<P, P>;
            auto rg = [](const LocSpec& s) { P a{s.l1, s.c1}; return R{a, std::max(a, P{s.l2, s.c2})}; };
            auto fn = [](const LocSpec& s) { return s.has && !s.name.empty() ? std::optional<std::string>(s.name) : std::nullopt; };
            R x = rg(l), y = rg(m);
            // the ranges and positions inside: equality and order are those of (line, column)
            bool same = fn(l) == fn(m) && x == y;
            std::string t1 = same ? "ok:==" : "ok:!=";
            if (got.compare(0, 5, t1)) fail("equality", caller(t, k, o) + ": equality of locations is not equality of file name and range: " + clip(got));
            auto ordc = [](bool lt, bool eq) { return std::string(lt ? "<" : eq ? "=" : ">"); };
            std::string tail = ordc(x.first < y.second, x.first == y.second);
            tail += x == y ? "e" : "n"; tail += x.first == y.first ? "e" : "n";
            if (got.size() < 11 || got.substr(7, 3) != tail) fail("order", caller(t, k, o) + ": positions or ranges do not compare by line, then by column: " + clip(got) + " expected " + tail);
        } else if (got.compare(0, 3, "ok:")) fail("raised", caller(t, k, o) + " raised " + clip(got, 300));
    });
}
static RegCheck C08({"C08", c08_gen, [](Rng& r, Gen& g, Plan& p, const RunResult& d) { if (p.threads.size() > 1) vary_sched(r, g, p, d); vary_alloc(r, p, d, 2); if (r.chance(0.2)) p.env["poison"] = static_cast<int64_t>(1 + r.below(255)); }, nullptr, c08_exec, 3, true, BUDGET});

// ---------------------------------------------------------------- C09
static Plan c09_gen(Rng& r, Gen& g) {
    MaxLen m(g, 2000);
    Plan p; p.threads.emplace_back();
    for (size_t k = 1 + r.below(4); k > 0; --k) p.threads[0].push_back(find_op(full_leg() && r.chance(0.85) ? "unwrap" : "rnd")->gen(r, g));
    return p;
}
static void c09_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) { if (got.compare(0, 3, "ok:")) fail("raised", caller(t, k, o) + " raised " + clip(got, 300)); });
}
static void c09_vary(Rng& r, Gen&, Plan& p, const RunResult&) {   // another point of failure for the same text
    for (auto& t : p.threads) for (auto& o : t) if (o.k == "rnd" && o.i.size() > 12) {
        o.i[9] = static_cast<int64_t>(r.below(4)); o.i[10] = static_cast<int64_t>(r.below(r.chance(0.7) ? 40 : 400));
        o.i[11] = static_cast<int64_t>(r.below(2)); o.i[12] = static_cast<int64_t>(r.below(2));
    } else if (o.k == "unwrap" && o.i.size() > 7) {
        o.i[5] = static_cast<int64_t>(r.below(4)); o.i[6] = static_cast<int64_t>(r.below(r.chance(0.7) ? 60 : 400)); o.i[7] = static_cast<int64_t>(r.below(2));
    }
}
static RegCheck C09({"C09", c09_gen, c09_vary, nullptr, c09_exec, 6, false, BUDGET});

// ---------------------------------------------------------------- C10
static Plan c10_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.1) ? 9000 : 1500);
    Plan p; p.threads.emplace_back();
    auto pool = swarm(r, ops_with(T_PURE), 2 + r.below(6));
    size_t n = 1 + r.below(6);
    if (full_leg() && r.chance(0.5)) { p.threads[0] = g_family(r, g, n + r.below(6), true); return p; }
    for (size_t k = 0; k < n; ++k) p.threads[0].push_back(gen_one(r, g, pool));
    return p;
}
static void c10_vary(Rng& r, Gen& g, Plan& p, const RunResult&) {
    std::vector<Op> v;
    if (r.chance(0.85)) v.push_back(g_host(r, g));
    for (auto& o : p.threads[0]) { while (r.chance(0.35)) v.push_back(g_host(r, g)); if (o.k != "host") v.push_back(o); }
    p.threads[0] = v;
    p.env.clear();
    for (const char* k : {"layout", "poison", "clock", "getenv", "stack", "reuse"}) if (r.chance(0.4)) p.env[k] = static_cast<int64_t>(1 + r.below(250));
    if (r.chance(0.3)) p.env["errno"] = static_cast<int64_t>(1 + r.below(40));
}
static void c10_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    int stack = static_cast<int>(p.env.count("stack") ? p.env["stack"] : 0), eno = static_cast<int>(p.env.count("errno") ? p.env["errno"] : 0);
    if (stack) fired(F_POISON);
    std::string hs = host_state();
    spawn({[&] {
        Ctx c{w, {}, {}};
        try {
            int k = 0;
            for (auto& o : p.threads.at(0)) {
                op_begin(0, k);
                if (stack) stain_stack(stack + k * 37);
                if (eno) errno = eno;
                std::string got = run_op(c, o);
                if (o.k == "host") { hs = c.model; ++k; continue; }
                must_match(p, o, got, caller(0, k, o), "in this environment");
                std::string now = host_state();
                if (now != hs) fail("host", caller(0, k, o) + " changed the host's locale, environment or directory from " + hs + " to " + now);
                ++k;
            }
        } catch (const CheckFail& f) { violation(f.what.c_str(), f.text); }
    }});
}
static RegCheck C10({"C10", c10_gen, c10_vary, each_ref, c10_exec, 5, false, BUDGET});

// ---------------------------------------------------------------- C11
static Plan c11_gen(Rng& r, Gen& g) {
    MaxLen m(g, 800);
    Plan p;
    size_t n = r.chance(0.6) ? 1 : 2 + r.below(2);
    if (r.chance(0.3)) {   // copies of one error, on several threads
        p.setup.push_back(find_op("mk_err")->gen(r, g));
        for (auto& s : p.setup[0].s) for (auto& c : s) if (!c) c = '0';
        if (n < 2) n = 2;
        for (size_t t = 0; t < n; ++t) { p.threads.emplace_back(); for (size_t k = 1 + r.below(4); k > 0; --k) { Op o = find_op("rd")->gen(r, g); o.i[0] = 0; p.threads.back().push_back(o); } }
        return p;
    }
    for (size_t t = 0; t < n; ++t) { p.threads.emplace_back(); for (size_t k = 1 + r.below(2); k > 0; --k) p.threads.back().push_back(find_op("errhist")->gen(r, g)); }
    return p;
}
static void c11_exec(Plan& p) {
    World w; Ctx c{w, {}, {}};
    setup_objects(c, p);
    std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) {
        if (got == "oom") return;
        if (o.k == "rd") must_match(p, o, got, caller(t, k, o), "after other operations on the error or its copies");
        else if (got.compare(0, 3, "ok:")) fail("raised", caller(t, k, o) + " raised " + clip(got, 300));
    });
}
static RegCheck C11({"C11", c11_gen, [](Rng& r, Gen& g, Plan& p, const RunResult& d) { if (p.threads.size() > 1) vary_sched(r, g, p, d); vary_alloc(r, p, d, 4); if (r.chance(0.3)) p.env["poison"] = static_cast<int64_t>(1 + r.below(255)); }, each_ref, c11_exec, 5, true, BUDGET});

// ---------------------------------------------------------------- C12
static Plan c12_gen(Rng& r, Gen& g) {
    MaxLen m(g, 300);
    Plan p;
    size_t n = r.chance(0.85) ? 1 : 2;
    auto v = ops_with(T_HIST | T_TABLE);
    for (size_t t = 0; t < n; ++t) { p.threads.emplace_back(); for (size_t k = 1 + r.below(3); k > 0; --k) p.threads.back().push_back(gen_one(r, g, v)); }
    return p;
}
static void c12_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) { if (got != "oom" && got.compare(0, 3, "ok:")) fail("raised", caller(t, k, o) + " raised " + clip(got, 300)); });
}
static RegCheck C12({"C12", c12_gen, [](Rng& r, Gen& g, Plan& p, const RunResult& d) { if (p.threads.size() > 1) vary_sched(r, g, p, d); vary_alloc(r, p, d, 4); if (r.chance(0.4)) p.env["reuse"] = 1; }, nullptr, c12_exec, 5, true, BUDGET});

// ---------------------------------------------------------------- C13
uint64_t (*g_spread)(const std::string&);
std::vector<Op> (*g_family)(Rng&, Gen&, size_t, bool one_caller);
struct Cost { const char* k; uint64_t a, b, ma, mb; };   // steps <= a + b*size, allocated bytes <= ma + mb*size
static const Cost costs[] = {   // about 20 times what was measured on this tree
    {"lower", 5000, 50, 4000, 40}, {"ieq", 5000, 50, 2000, 20}, {"url", 8000, 300, 4000, 220}, {"json", 8000, 300, 4000, 220}, {"untriple", 5000, 40, 4000, 40},
    {"loc", 15000, 60, 20000, 130}, {"loccmp", 10000, 40, 4000, 30}, {"locgrow", 10000, 40, 4000, 40}, {"ver", 20000, 450, 20000, 350}, {"vercmp", 20000, 300, 20000, 300},
    {"sb", 15000, 60, 20000, 100}, {"err", 40000, 400, 40000, 1000}, {"errs", 60000, 400, 80000, 1000}, {"ovl", 60000, 400, 60000, 500},
    {"pipe", 2500000, 7000, 3000000, 7000}, {"grow", 400000000, 0, 4000000000, 0},
};
static uint64_t size_of(const Op& o, const std::string& got) {
    uint64_t n = got.size() + 8 * o.i.size();
    for (auto& s : o.s) n += s.size() + 8;
    // every node of a tree holds the name of its file, and an index range stands for all its indices
    if (g_spread && o.k == "pipe") n += n * S(o, 1).size() / 40 + n * S(o, 2).size() / 40 + g_spread(S(o, 0));
    return n;
}
// a short text that names a huge amount: its size is what the work may follow
static void huge(Rng& r, Op& o) {
    static const char* const big[] = {"4000000000000", "9223372036854775807", "1", "2", "0", "(-1)", "1.0e18", "3000000000", "4.0e15", "0.5", "(-3)", "300", "1.0e300", "4611686018427387904"};
    static const char* const op[] = {" ** ", " ** ", " * ", " / ", " % ", " + ", " - ", " == ", " < ", " ** (-1) * "};
    static const char* const fn[] = {"abs", "sqrt", "sin", "exp", "asin", "cosh", "acosh", "log", "tan", ""};
    std::string e = big[r.below(14)]; for (size_t j = r.below(3); j > 0; --j) e += op[r.below(10)] + std::string(big[r.below(14)]);
    if (r.chance(0.3)) e = fn[r.below(10)] + ("(" + e + ")");
    if (!o.s.empty()) o.s[0] = "version 3.0;qubit[2] q;" + (r.chance(0.7) ? "Rx(" + e + ") q[0]" : "X q[" + e + "]");
}
static Plan c13_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.05) ? 400000 : r.chance(0.4) ? 70000 : 4000);
    Plan p;
    std::vector<const OpInfo*> pool;
    for (auto& c : costs) if (auto* i = find_op(c.k); i && (!full_leg() || (i->tags & T_PIPE))) pool.push_back(i);
    if (auto* pipe = find_op("pipe"); pipe && r.chance(0.2)) {
        MaxLen few(g, 200);
        p.threads.emplace_back();
        for (size_t k = 3 + r.below(8); k > 0; --k) { p.threads[0].push_back(pipe->gen(r, g)); huge(r, p.threads[0].back()); }
        return p;
    }
    pool = swarm(r, pool, 2 + r.below(4));
    size_t n = r.chance(0.7) ? 1 : 2 + r.below(2);
    for (size_t t = 0; t < n; ++t) {
        p.threads.emplace_back();
        for (size_t k = 1 + r.below(3); k > 0; --k) {
            Op o = gen_one(r, g, pool);
            if (o.k == "pipe" && r.chance(0.15)) huge(r, o);
            else if (r.chance(0.35)) for (auto& s : o.s) if (!s.empty() && s.size() < g.max_len / 2) { size_t want = r.logu(g.max_len); std::string u = s; while (s.size() + u.size() < want) { s += s.size() * 2 < want ? s : u; } }
            p.threads.back().push_back(o);
        }
    }
    return p;
}
static void c13_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) {
        uint64_t steps = std::max(tl.op_steps, tl.op_blocks), bytes = tl.op_bytes;
        for (auto& c : costs) if (o.k == c.k) {
            uint64_t n = size_of(o, got), bs = c.a + c.b * n, bm = c.ma + c.mb * n;
            if (steps > bs) fail("work", caller(t, k, o) + " took " + std::to_string(steps) + " steps for " + std::to_string(n) + " bytes of input and output; the bound is " + std::to_string(bs));
            if (bytes > bm) fail("memory", caller(t, k, o) + " requested " + std::to_string(bytes) + " bytes of memory for " + std::to_string(n) + " bytes of input and output; the bound is " + std::to_string(bm));
        }
    });
}
static RegCheck C13({"C13", c13_gen, [](Rng& r, Gen& g, Plan& p, const RunResult& d) { if (p.threads.size() > 1) vary_sched(r, g, p, d); vary_alloc(r, p, d, 2); }, nullptr, c13_exec, 2, true, BUDGET});

}  // namespace sim
