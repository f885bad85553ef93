// Operations on the whole pipeline: parser, analyzer, results, Python-facing class.
// Compiled like the code under test.
#include "ops.hpp"
#include <array>
#include <iostream>
#include <map>
#include <optional>
#include <sstream>
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#ifndef NO_EMSCRIPTEN
#include "emscripten_wrapper.hpp"
#else   // the binding does not build with the stand-in header: what it would call
struct EmscriptenWrapper {
    std::string parse_string_to_json(const std::string& d, const std::string& f) { return V3xAnalyzer::parse_string_to_json(d, f); }
    std::string analyze_string_to_json(const std::string& d, const std::string& f) { return V3xAnalyzer{}.analyze_string_to_json(d, f); }
};
#endif
#include "pipe.hpp"

namespace sim {
namespace v3 = cqasm::v3x;
using v3::analyzer::AnalysisResult;
using v3::analyzer::Analyzer;
using v3::parser::ParseResult;

// ---------------------------------------------------------------- std::cerr of the simulated process
namespace {
struct CapBuf : std::streambuf {     // keeps each caller's output apart
    std::string got[40];
    std::string& mine() { return got[tl.tid < 0 || tl.tid > 37 ? 38 : tl.tid]; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { NoSut ns; mine().append(s, static_cast<size_t>(n)); return n; }
    int_type overflow(int_type c) override { NoSut ns; if (c != traits_type::eof()) mine() += static_cast<char>(c); return traits_type::not_eof(c); }
};
CapBuf* capbuf() {
    NoSut ns;
    static CapBuf* b = [] { auto* x = new CapBuf; std::cerr.rdbuf(x); return x; }();
    return b;
}
struct Cap {
    std::string& g;
    Cap() : g(capbuf()->mine()) { g.clear(); }
    std::string text() { NoSut ns; std::string r = g; g.clear(); return r; }
};
std::string lp(const std::string& s) { return std::to_string(s.size()) + ":" + s + ";"; }
struct OptName {
    std::optional<std::string> v;
    OptName(const std::string& s, bool some) { ArenaScope a; if (some || !s.empty()) v.emplace(s.data(), s.size()); }
    ~OptName() { ArenaScope a; v.reset(); }
};
}  // namespace

// ---------------------------------------------------------------- results in their several forms
static std::string strs_out(std::vector<std::string>&& v) {
    NoSut n;
    std::string r = std::to_string(v.size()) + "|";
    for (auto& s : v) r += lp(std::string(s.data(), s.size()));
    { ArenaScope a; std::vector<std::string>().swap(v); }
    return r;
}
template <class R> static std::string dump_of(const R& root) {
    SimBuf b; std::ostream os(&b);
    SUTV(os << *root);
    if (!os.good()) throw std::bad_alloc();
    return b.got;
}
template <class E> static std::string errs_of(const E& errors) {
    std::string r;
    for (auto& e : errors) r += lp(render_err(e, 0, 0));
    return r;
}
template <class R> static std::string form_of(const R& r, int form) {
    switch (form) {
        case F_JSON: return out(SUT(r.to_json()));
        case F_STRS: return strs_out(SUT(r.to_strings()));
        default: return r.errors.empty() ? "tree:" + dump_of(r.root) : "errors:" + errs_of(r.errors);
    }
}
static std::string raised(const AnalysisResult& r) {
    SimBuf b; std::ostream os(&b);
    try {
        SutScope s;
        auto root = r.unwrap(os);
        NoSut n;
        return b.got + "tree:" + dump_of(root);
    } catch (const v3::analyzer::AnalysisFailed& e) { NoSut n; return "raised:" + b.got + "|" + e.what(); }
}
static std::string form_any(const AnalysisResult& r, int form) { return form == F_RAISE ? raised(r) : form_of(r, form); }
template <class T, class F> static Obj hold(const char* type, F&& f) {   // f: a library call returning T
    Obj o; o.type = type;
    { SutScope s; o.p = new T(f()); }
    o.del = [](void* q) { delete static_cast<T*>(q); };
    return o;
}
template <class F> static std::string raising(F&& f) {   // entry points that print to std::cerr and throw
    Cap c;
    std::string r;
    try {
        Obj root = hold<v3::analyzer::Root>("root", f);
        r = "tree:" + dump_of(root.as<v3::analyzer::Root>());
        return c.text() + r;
    } catch (const v3::analyzer::AnalysisFailed& e) { NoSut n; return "raised:" + c.text() + "|" + e.what(); }
}
// How an analyzer was set up by its owner. 0: as delivered; 1, 2: other ways to write the version; 3: no instructions; 4: more instructions;
// 5: also a variable and a function; 6: a scope within the global one, which hides a constant; 7: a version there is no analyzer for.
constexpr uint64_t CFGS = 8;
static const char* const cfg_version[CFGS] = {"3.0", "3", "3.0.0.0", "3.0", "3.0", "3.0", "3.0", "3.1"};
static int eff_cfg(const Op& o, int stage, int route) {
    int c = static_cast<int>(M(o, 5, CFGS));
    if (!stage || route == 9) return 0;
    if (route == 3 || route == 8) return c < 3 || c == 7 ? c : 0;
    if (route == 2 || route == 7) return c == 5 || c == 6 ? 4 : c;
    return c;
}
static Obj number(int64_t n) {
    ArenaScope s; Obj v; v.type = "val"; v.p = new v3::values::Value(cqasm::tree::make<v3::values::ConstInt>(n));
    v.del = [](void* q) { delete static_cast<v3::values::Value*>(q); };
    return v;
}
static void more_instructions(auto& A) {
    static const char* const more[][2] = {{"nope", "Q"}, {"X", "QQ"}, {"nope", "V"}, {"measure_", ""}};
    for (auto& m : more) { ArenaStr n(m[0]); OptName t(m[1], true); SUTV(A.register_instruction(*n, t.v)); }
}
static Obj make_analyzer(int cfg) {
    ArenaStr version(cfg_version[cfg]);
    if (cfg < 3 || cfg == 7) return hold<Analyzer>("an", [&] { return v3::default_analyzer(*version); });
    if (cfg == 3) return hold<Analyzer>("an", [&] { Analyzer a{v3::primitives::Version{*version}}; a.register_default_constants(); a.register_default_functions(); return a; });
    Obj o = hold<Analyzer>("an", [&] { return v3::default_analyzer(*version); });
    auto& A = o.as<Analyzer>();
    more_instructions(A);
    if (cfg == 4) return o;
    ArenaStr x("x"), f("unknown"), ty("i"), pi("pi"), y("y");
    Obj five = number(5), three = number(3);
    SUTV(A.register_variable(*x, five.as<v3::values::Value>()));
    SUTV(A.register_consteval_core_function(*f, *ty, [](const v3::values::Values& v) -> v3::values::Value { return cqasm::tree::make<v3::values::ConstInt>(static_cast<int64_t>(40 + v.size())); }));
    if (cfg == 6) { SUTV(A.push_scope()); SUTV(A.register_variable(*pi, three.as<v3::values::Value>())); SUTV(A.register_variable(*y, five.as<v3::values::Value>())); }
    return o;
}
static Obj make_py(int cfg) {
    ArenaStr version(cfg_version[cfg]);
    if (cfg == 3) return make_obj<V3xAnalyzer>("py", *version, true);
    Obj o = cfg ? make_obj<V3xAnalyzer>("py", *version) : make_obj<V3xAnalyzer>("py");
    if (cfg == 4) more_instructions(o.as<V3xAnalyzer>());
    return o;
}
static Obj fresh_analyzer() { return make_analyzer(0); }
static Obj& own(Ctx& c, const char* type, int cfg = 0) {
    for (auto& o : c.own) if (o.type == type && o.cfg == cfg) return o;
    Obj n = std::string(type) == "an" ? make_analyzer(cfg) : make_py(cfg);
    n.cfg = cfg;
    c.own.push_back(std::move(n));
    return c.own.back();
}
// What an owner can see of an analyzer: analyses must leave it alone.
static std::string seen_of(const Analyzer& A) {
    std::string r;
    for (const char* n : {"q", "b", "x", "pi"}) { ArenaStr nm(n); try { Obj v = hold<v3::values::Value>("val", [&] { return A.resolve_variable(*nm); }); r += std::string(n) + " "; } catch (const cqasm::error::Error&) { tl.in_sut = 0; } }
    return r;
}
// i[6]: the path says nothing about the contents, so that later calls of one history find other contents under it.
std::string pipe_path(const Op& o) {
    char b[40] = "";
    if (!M(o, 6, 2)) snprintf(b, sizeof b, "%016lx", static_cast<unsigned long>(fnv(S(o, 0).data(), S(o, 0).size())));
    std::string p = "/simfs/" + S(o, 2).substr(0, M(o, 6, 2) ? 2 : 120) + b + ".cq";
    for (auto& c : p) if (!c) c = '_';
    for (size_t k = 7; k < p.size(); ++k) if (p[k] == '/') p[k] = '_';
    return p;
}
bool pipe_version(const Op& o) { return eff_cfg(o, static_cast<int>(M(o, 0, 2)), static_cast<int>(M(o, 2, 10))) != 7; }
Op pipe_canonical(const Op& o) {
    Op c{"pipe", {S(o, 0), S(o, 1), ""}, {static_cast<int64_t>(M(o, 0, 2)), static_cast<int64_t>(M(o, 1, 4)), 0, 0, 0}};
    int route = static_cast<int>(M(o, 2, 10));
    c.i.push_back(eff_cfg(o, static_cast<int>(c.i[0]), route));
    if (!c.i[0]) { c.i[1] %= 3; route %= 5; if (route == 4) c.i[1] = F_JSON; if (route == 1 || route == 3) c.i[1] %= 2; if (route == 3) c.s[1].clear(); return c; }
    switch (route) {
        case 2: c.i[1] %= 2; break;
        case 3: c.i[1] = F_RAISE; break;
        case 6: c.s[1] = pipe_path(o); break;
        case 7: c.i[1] %= 2; c.s[1].clear(); break;
        case 8: c.i[1] = F_RAISE; c.s[1].clear(); break;
        case 9: c.i[1] = F_JSON; break;
        default: break;
    }
    return c;
}
static std::string op_pipe(Ctx& c, const Op& o) {
    int stage = static_cast<int>(M(o, 0, 2)), form = static_cast<int>(M(o, 1, 4)), route = static_cast<int>(M(o, 2, 10)), mode = static_cast<int>(M(o, 3, 3));
    const int cfg = eff_cfg(o, stage, route);
    capbuf();
    ArenaStr text(S(o, 0));
    std::string pth = pipe_path(o);
    ArenaStr name(S(o, 1)), path(pth);
    OptName opt(S(o, 1), M(o, 4, 2));
    auto file = [&] { fs_set({pth, S(o, 0), 0}); };
    std::string r;
    if (!stage) {
        form %= 3; route %= 5;
        switch (route) {
            case 4: { EmscriptenWrapper em; r = out(SUT(em.parse_string_to_json(*text, *name))); break; }
            case 1: form %= 2;
                r = form == F_JSON ? out(SUT(V3xAnalyzer::parse_string_to_json(*text, *name))) : strs_out(SUT(V3xAnalyzer::parse_string(*text, *name)));
                break;
            case 3: form %= 2; file();
                r = form == F_JSON ? out(SUT(V3xAnalyzer::parse_file_to_json(*path))) : strs_out(SUT(V3xAnalyzer::parse_file(*path)));
                break;
            case 2: { file(); Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_file(*path, opt.v); }); r = form_of(p.as<ParseResult>(), form); break; }
            default: { Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_string(*text, opt.v); }); r = form_of(p.as<ParseResult>(), form); }
        }
    } else if (route == 2 || route == 7) {
        form %= 2;
        Obj fresh; Obj* a;
        if (mode) a = &own(c, "py", cfg); else { fresh = make_py(cfg); a = &fresh; }
        auto& A = a->as<V3xAnalyzer>();
        if (route == 2) r = form == F_JSON ? out(SUT(A.analyze_string_to_json(*text, *name))) : strs_out(SUT(A.analyze_string(*text, *name)));
        else { file(); r = form == F_JSON ? out(SUT(A.analyze_file_to_json(*path))) : strs_out(SUT(A.analyze_file(*path))); }
    } else if (route == 3) {
        ArenaStr version(cfg_version[cfg]);
        r = cfg ? raising([&] { return v3::analyze_string(*text, opt.v, *version); }) : raising([&] { return v3::analyze_string(*text, opt.v); });
    } else if (route == 8) {
        file();
        ArenaStr version(cfg_version[cfg]);
        r = cfg ? raising([&] { return v3::analyze_file(*path, *version); }) : raising([&] { return v3::analyze_file(*path); });
    } else if (route == 9) {
        EmscriptenWrapper em;
        r = out(SUT(em.analyze_string_to_json(*text, *name)));
    } else {
        Obj fresh; Obj* a;
        if (mode == 0) { fresh = make_analyzer(cfg); a = &fresh; }
        else if (mode == 1) a = &own(c, "an", cfg);
        else { Obj& k = own(c, "an", cfg); fresh = make_obj<Analyzer>("an", static_cast<const Analyzer&>(k.as<Analyzer>())); a = &fresh; }
        auto& A = a->as<Analyzer>();
        const std::string before = seen_of(A);
        Obj res;
        switch (route) {
            case 1: res = hold<AnalysisResult>("ar", [&] { return A.analyze_string(*text, opt.v); }); break;
            case 6: file(); res = hold<AnalysisResult>("ar", [&] { return A.analyze_file(*path); }); break;
            case 4: {
                Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_string(*text, opt.v); });
                auto& P = p.as<ParseResult>();
                if (P.errors.empty()) res = hold<AnalysisResult>("ar", [&] { return A.analyze(*P.root->as_program()); });
                else res = hold<AnalysisResult>("ar", [&] { return A.analyze(static_cast<const ParseResult&>(P)); });
                break;
            }
            case 5: {
                file();
                Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_file(*path, opt.v); });
                res = hold<AnalysisResult>("ar", [&] { return A.analyze(static_cast<const ParseResult&>(p.as<ParseResult>())); });
                break;
            }
            default: {
                Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_string(*text, opt.v); });
                res = hold<AnalysisResult>("ar", [&] { return A.analyze(static_cast<const ParseResult&>(p.as<ParseResult>())); });
            }
        }
        if (seen_of(A) != before) fail("owner", "an analysis changed the names known to the analyzer it was made with from " + before + " to " + seen_of(A));
        r = form_any(res.as<AnalysisResult>(), form);
    }
    unchanged(text, S(o, 0)); unchanged(name, S(o, 1)); unchanged(path, pth);
    return r;
}
Op g_pipe(Rng& r, Gen& g) {
    Op o{"pipe", {gen_program(r, g), r.chance(0.3) ? std::string() : r.chance(0.7) ? "input.cq" : g.fname(r), r.chance(0.7) ? std::string() : g.name(r)}, {}};
    o.i = {r.chance(0.25) ? 0 : 1, static_cast<int64_t>(r.below(4)), static_cast<int64_t>(r.below(10)), static_cast<int64_t>(r.below(3)), static_cast<int64_t>(r.below(2)), r.chance(0.25) ? static_cast<int64_t>(r.below(CFGS)) : 0};
    return o;
}
static Reg p1("pipe", op_pipe, g_pipe, T_PURE | T_PIPE | T_ALLOC);

// ---------------------------------------------------------------- growth: the same program with n and with 4n of something
// i: n, entry and form, which. '%' in a unit is its number.
struct Growth { const char *head, *unit, *mid, *unit2, *tail; size_t most; };
static const Growth growths[] = {
    {"version 3.0;qubit[3] q;bit[3] b;", "X q;", "", "", "", 1500}, {"version 3.0;qubit[3] q;bit[3] b;", "b=measure q\n", "", "", "", 1500}, {"version 3.0;", "qubit a%;", "", "X a%;", "", 700},
    {"version 3.0;qubit q;", "bit b%;", "", "b%=measure q;", "", 500}, {"version 3.0;", "qubit[2] a%;", "", "CNOT a%[0],a%[1]\n", "", 400}, {"version 3.0;qubit q;", "nope q;", "", "", "", 1500},
    {"version 3.0;qubit q;", "X a%;", "", "", "", 1500}, {"version 3.0;", "qubit q;", "", "", "", 1500}, {"version 3.0;qubit[3] q;X q[", "0,", "1]", "", "", 4000}, {"version 3.0;qubit[3] q;X q[", "0,", "7]", "", "", 4000},
    {"version 3.0;qubit[3] q;barrier ", "q,", "q", "", "", 1500}, {"version 3.0;qubit[3] q;CNOT q[", "0,", "0],q[", "1,", "1]", 2500}, {"version 3.0;bit[900000] b;qubit[900000] q;b[", "%,", "0]=measure q[", "%,", "0]", 1000},
    {"version 3.", "0", "", "", ";qubit q", 15000}, {"version 3.0;qubit q;Rx(1.", "7", "", "", ") q", 15000}, {"version 3.0;qubit ", "a", ";X ", "a", "", 15000}, {"version 3.0;qubit ", "a", ";qubit ", "a", "", 15000},
    {"version 3.0;asm(B) '''", "x", "", "", "'''", 15000}, {"version 3.0;asm(B) '''", "''x\n", "", "", "'''", 4000}, {"version 3.0/*", "*", "*/", "", "", 15000}, {"version 3.0//", "x", "\n", "", "nope q", 15000}, {"version 3.0", "\n", "", "", "nope q", 15000},
    {"version 3.0;qubit q", "; /* c */ ", "", "//x\n", "X q", 3000}, {"version 3.0;qubit q;Rx(1", "+2", "", "", ") q", 50}, {"version 3.0;qubit q;Rx(", "(", "1", ")", ") q", 30}, {"version 3.0;qubit q;Rx(", "cos(", "1", ")", ") q", 30},
    {"version 3.0;qubit q;", "inv.", "X q;", "", "", 50}, {"version 3.0;qubit q;", "pow(2).", "X q;", "", "", 50}, {"version 3.0;qubit[9] q;Rx(1", ",2", ") q", "", "", 1500}, {"version 3.0;qubit q;", "Rx(pi/2+%) q\n", "", "", "", 500},
    {"version 3.0;qubit q;Rx(", "-", "1", "", ") q", 50}, {"version 3.0;qubit q;", "wait(%) q\n", "", "barrier q\n", "", 700}, {"version 3.0;qubit q;", "asm(B) '''x'''\n", "", "", "", 1500}, {"version 3.0;qubit q;", "q = %;", "", "", "", 1500},
    {"", "\xff", "", "", "", 15000}, {"version 3.0;qubit q;X q, ", "%, ", "q", "", "", 1500}, {"version 3.0;", "$", "", "", "", 15000}, {"version 3.0;qubit q;", "H q; H q, q; H b; H 1; CNOT q;", "", "", "", 400},
};
static std::string grown(const Growth& u, size_t n) {
    std::string t = u.head;
    auto rep = [&](const char* unit) { for (size_t k = 0; k < n; ++k) for (const char* c = unit; *c; ++c) { if (*c == '%') t += std::to_string(k + 100000); else t += *c; } };
    rep(u.unit); t += u.mid; rep(u.unit2);
    return t + u.tail;
}
static std::string op_grow(Ctx& c, const Op& o) {
    auto& u = growths[M(o, 2, std::size(growths))];
    size_t n = 1 + static_cast<size_t>(M(o, 0, u.most));
    uint64_t steps[2], bytes[2]; std::string r;
    for (int q = 0; q < 2; ++q) {
        Op p{"pipe", {grown(u, q ? 4 * n : n), "", ""}, {I(o, 1) % 9 ? 1 : 0, I(o, 1), I(o, 1) / 4, 0, 0}};
        uint64_t s0 = tl.op_steps, b0 = tl.op_bytes;
        std::string got = op_pipe(c, p);
        steps[q] = tl.op_steps - s0; bytes[q] = tl.op_bytes - b0;
        r += std::to_string(got.size()) + ";";
    }
    auto check = [&](const char* what, const char* unit, uint64_t a, uint64_t b) {
        if (b > 5 * a + 400000) fail(what, "four times as much input (" + std::string(u.head) + u.unit + "..., " + std::to_string(n) + " and " + std::to_string(4 * n) + " repetitions) takes " + std::to_string(b) + " " + unit + " instead of " + std::to_string(a) + ", which grows faster than the input");
    };
    check("work", "steps", steps[0], steps[1]);
    check("memory", "bytes of memory", bytes[0], bytes[1]);
    return r;
}
static Op g_grow(Rng& r, Gen&) {
    Op o{"grow", {}, {}};
    size_t w = r.below(std::size(growths)), most = growths[w].most;
    o.i = {static_cast<int64_t>(r.chance(0.6) ? most - 1 - r.below(most / 2) : most - std::min(most, r.logu(most))), static_cast<int64_t>(r.below(36)), static_cast<int64_t>(w)};
    return o;
}
static Reg p5("grow", op_grow, g_grow, T_PIPE);

// ---------------------------------------------------------------- agreement of all forms of one result, and soundness of its contents
static void check_errors(const cqasm::error::ParseErrors& es, const std::string& text, const std::string& name, const std::string& who) {
    for (auto& e : es) {
        std::string js = out(SUT(e.to_json())), what = render_err(e, 7, 0), sh = render_err(e, 0, 0);
        // what() is a C string: with a zero byte in the offending text it ends there
        auto cut = [](std::string x) { if (auto z = x.find('\0'); z != std::string::npos) x.resize(z); return x; };
        if (what != cut(sh)) fail("forms", who + ": an error prints as \"" + clip(sh) + "\" but says \"" + clip(what) + "\"");
        ErrView v = view_error(js, who);
        if (v.message.empty() || v.message == "<unknown error message>") fail("message", who + ": an error without a message: " + clip(js, 400));
        LocSpec l{!v.file.empty(), v.file, v.l1, v.c1, v.l2, v.c2};
        bool located = v.l1 || v.c1 || v.l2 || v.c2 || v.has_file;
        std::string want = (located ? "Error at " + model_loc(l) : std::string("Error")) + ": " + v.message;
        if (what != cut(want)) fail("forms", who + ": the text of an error is \"" + clip(what, 300) + "\", its JSON form says \"" + clip(want, 300) + "\"");
        if (located && v.file != name) fail("file", who + ": an error names the file \"" + clip(v.file) + "\" instead of \"" + clip(name) + "\"");
        if (located) {
            std::string bad = outside(text, v);
            if (!bad.empty()) fail("location", who + ": the error \"" + clip(what, 200) + "\" points outside the text: " + bad);
        }
    }
}
static std::string op_sound(Ctx& c, const Op& o) {
    capbuf();
    ArenaStr text(S(o, 0));
    OptName opt(S(o, 1), M(o, 4, 2));
    std::string nm = S(o, 1);
    Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_string(*text, opt.v); });
    auto& P = p.as<ParseResult>();
    const char* who = "parsing";
    const bool zero = S(o, 0).find('\0') != std::string::npos || nm.find('\0') != std::string::npos;
    auto forms = [&](auto& R, const std::string& w) {
        std::string js = out(SUT(R.to_json())), ss = strs_out(SUT(R.to_strings()));
        std::string want;
        if (R.errors.empty()) {
            if (R.root.empty() || !SUT(R.root.is_well_formed())) fail("result", w + " reports no errors, and the tree is not well-formed");
            if (ss.compare(0, 2, "1|")) fail("forms", w + " succeeds, and the list of strings has more than one entry: " + clip(ss));
            if (js.compare(0, 1, "{") || js.find("{\"errors\"") == 0) fail("forms", w + " succeeds, and the JSON form is " + clip(js));
            if (ss.size() < 5) fail("forms", w + " succeeds, and the serialised tree is empty");
        } else {
            want = std::to_string(R.errors.size() + 1) + "|" + lp("");
            std::string jw = "{\"errors\":[";
            bool first = true;
            for (auto& e : R.errors) { want += lp(render_err(e, 7, 0)); if (!first) jw += ","; first = false; jw += out(SUT(e.to_json())); }
            jw += "]}";
            if (!zero && ss != want) fail("forms", w + ": the list of strings is " + clip(ss, 300) + " instead of " + clip(want, 300));
            if (js != jw) fail("forms", w + ": the JSON form is " + clip(js, 300) + " instead of " + clip(jw, 300));
        }
    };
    forms(P, who);
    check_errors(P.errors, S(o, 0), nm, who);
    std::string before = form_of(P, F_DUMP);
    Obj fresh; Obj* a;
    int mode = static_cast<int>(M(o, 3, 3));
    int cfg = static_cast<int>(M(o, 5, CFGS - 1));
    if (mode == 0) { fresh = make_analyzer(cfg); a = &fresh; }
    else if (mode == 1) a = &own(c, "an", cfg);
    else { Obj& k = own(c, "an", cfg); fresh = make_obj<Analyzer>("an", static_cast<const Analyzer&>(k.as<Analyzer>())); a = &fresh; }
    Obj res = hold<AnalysisResult>("ar", [&] { return a->as<Analyzer>().analyze(static_cast<const ParseResult&>(P)); });
    auto& R = res.as<AnalysisResult>();
    who = "analysis";
    forms(R, who);
    check_errors(R.errors, S(o, 0), nm, who);
    if (form_of(P, F_DUMP) != before) fail("args", "analysing a parse result changed it");
    if (!P.errors.empty()) {
        if (errs_of(R.errors) != errs_of(P.errors)) fail("verdict", "the parse errors are " + clip(errs_of(P.errors), 300) + " and the analysis errors " + clip(errs_of(R.errors), 300));
        if (!R.root.empty()) fail("result", "an analysis with parse errors has a tree");
    }
    std::string rs = raised(R), want;
    if (R.errors.empty()) want = "tree:" + dump_of(R.root);
    else { want = "raised:"; bool first = true; for (auto& e : R.errors) { if (!first) want += "\n"; first = false; want += render_err(e, 7, 0); } want += "|cQASM analysis failed"; }
    if (!zero && rs != want) fail("forms", "unwrap gives " + clip(rs, 300) + " instead of " + clip(want, 300));
    std::string r = "p" + std::to_string(P.errors.size()) + "a" + std::to_string(R.errors.size());
    unchanged(text, S(o, 0));
    return r;
}
static Op g_sound(Rng& r, Gen& g) { Op o = g_pipe(r, g); o.k = "sound"; return o; }
static Reg p2("sound", op_sound, g_sound, T_PURE | T_PIPE | T_ALLOC);

// ---------------------------------------------------------------- failed analyses reported to sinks that fail
static std::string op_unwrap(Ctx&, const Op& o) {
    ArenaStr text(S(o, 0));
    OptName opt(S(o, 1), false);
    Obj an = fresh_analyzer();
    Obj res = hold<AnalysisResult>("ar", [&] { return an.as<Analyzer>().analyze_string(*text, opt.v); });
    auto& R = res.as<AnalysisResult>();
    std::string full;
    bool first = true;
    for (auto& e : R.errors) { if (!first) full += "\n"; first = false; full += render_err(e, 7, 0); }
    for (int round = 0; round < 2; ++round) {
        SimBuf b; std::ostream os(&b);
        if (!round) { b.mode = static_cast<SimBuf::Mode>(M(o, 5, 4)); b.cap = static_cast<size_t>(M(o, 6, 400)); if (M(o, 7, 2)) os.exceptions(std::ios::badbit | std::ios::failbit); apply_fmt_state(os, I(o, 8)); }
        StreamState st(os);
        bool failed = false, streamexc = false;
        try {
            SutScope s;
            auto root = R.unwrap(os);
            (void)root;
        } catch (const v3::analyzer::AnalysisFailed&) { failed = true;
        } catch (const std::ios_base::failure&) { streamexc = true;
        } catch (const SimBuf::Broken&) { streamexc = true; }
        if (R.errors.empty() ? failed || streamexc || !b.got.empty() : !failed && !(streamexc && !round && M(o, 7, 2)))
            fail("verdict", std::string(R.errors.empty() ? "a successful" : "a failed") + " analysis reported to a sink ends with " + (failed ? "failure" : streamexc ? "a stream exception" : "success"));
        if (full.compare(0, b.got.size(), b.got)) fail("sink", "the sink received \"" + clip(b.got) + "\", which is not the beginning of \"" + clip(full) + "\"");
        if (!R.errors.empty() && b.got != full && os.good()) fail("sink", "the sink received only " + std::to_string(b.got.size()) + " of " + std::to_string(full.size()) + " bytes, and the stream shows no failure");
        if (!st.same(StreamState(os))) fail("state", "unwrap changed the formatting state of the stream");
    }
    return "e" + std::to_string(R.errors.size());
}
static Op g_unwrap(Rng& r, Gen& g) {
    Op o = g_pipe(r, g); o.k = "unwrap"; o.i.resize(5);
    o.i.push_back(static_cast<int64_t>(r.below(4))); o.i.push_back(static_cast<int64_t>(r.below(r.chance(0.7) ? 60 : 400))); o.i.push_back(static_cast<int64_t>(r.below(2)));
    o.i.push_back(r.chance(0.3) ? static_cast<int64_t>(r.below(1 << 17)) : 0);
    return o;
}
static Reg p3("unwrap", op_unwrap, g_unwrap, T_PIPE);

// ---------------------------------------------------------------- programs read from faulty storage
// The outcome tells apart: the result, and a file error (raised or listed, without a location).
static std::string op_fpipe(Ctx& c, const Op& o) {
    capbuf();
    std::string pth = pipe_path(o);
    ArenaStr path(pth), name(S(o, 1));
    OptName opt(S(o, 1), M(o, 4, 2));
    int entry = static_cast<int>(M(o, 0, 8));
    std::string r;
    try {
        switch (entry) {
            case 0: { Obj p = hold<ParseResult>("pr", [&] { return v3::parser::parse_file(*path, opt.v); }); r = form_of(p.as<ParseResult>(), F_DUMP); break; }
            case 1: r = strs_out(SUT(V3xAnalyzer::parse_file(*path))); break;
            case 2: r = out(SUT(V3xAnalyzer::parse_file_to_json(*path))); break;
            case 3: { Obj a = fresh_analyzer(); Obj p = hold<AnalysisResult>("ar", [&] { return a.as<Analyzer>().analyze_file(*path); }); r = form_of(p.as<AnalysisResult>(), F_DUMP); break; }
            case 4: { Obj& a = own(c, "an"); Obj p = hold<AnalysisResult>("ar", [&] { return a.as<Analyzer>().analyze_file(*path); }); r = form_of(p.as<AnalysisResult>(), F_DUMP); break; }
            case 5: { Obj& a = own(c, "py"); r = strs_out(SUT(a.as<V3xAnalyzer>().analyze_file(*path))); break; }
            case 6: { Obj a = make_obj<V3xAnalyzer>("py"); r = out(SUT(a.as<V3xAnalyzer>().analyze_file_to_json(*path))); break; }
            default: r = raising([&] { return v3::analyze_file(*path); });
        }
    } catch (const cqasm::error::Error& e) { tl.in_sut = 0; r = "fileerror:" + render_err(e, 7, 0); }
    unchanged(path, pth);
    return r;
}
// The same entry, on the same bytes given as text: what a complete read has to give.
Op fpipe_canonical(const Op& o, const std::string& data) {
    int entry = static_cast<int>(M(o, 0, 8));
    Op c{"pipe", {data, "", ""}, {entry < 3 ? 0 : 1, F_DUMP, 0, 0, 0}};
    switch (entry) {
        case 0: c.s[1] = S(o, 1); break;
        case 1: case 5: c.i[1] = F_STRS; break;
        case 2: case 6: c.i[1] = F_JSON; break;
        case 3: case 4: c.s[1] = pipe_path(o); break;
        default: c.i[1] = F_RAISE;
    }
    return c;
}
static Op g_fpipe(Rng& r, Gen& g) {
    Op o = g_pipe(r, g); o.k = "fpipe"; o.i.resize(5);
    o.i[0] = static_cast<int64_t>(r.below(8));
    return o;
}
static Reg p4("fpipe", op_fpipe, g_fpipe, T_PIPE | T_FILE);

// ---------------------------------------------------------------- shared results and analyzers
static std::string op_mk_pr(Ctx& c, const Op& o) {
    capbuf();
    ArenaStr text(S(o, 0)); OptName opt(S(o, 1), false);
    c.w.shared.push_back(hold<ParseResult>("pr", [&] { return v3::parser::parse_string(*text, opt.v); }));
    return "";
}
static std::string op_mk_ar(Ctx& c, const Op& o) {
    capbuf();
    ArenaStr text(S(o, 0)); OptName opt(S(o, 1), false);
    Obj a = fresh_analyzer();
    c.w.shared.push_back(hold<AnalysisResult>("ar", [&] { return a.as<Analyzer>().analyze_string(*text, opt.v); }));
    return "";
}
static std::string op_mk_an(Ctx& c, const Op&) { c.w.shared.push_back(fresh_analyzer()); return ""; }
static Op g_mk_pr(Rng& r, Gen& g) { return {"mk_pr", {gen_program(r, g), r.chance(0.5) ? "input.cq" : ""}, {}}; }
static Op g_mk_ar(Rng& r, Gen& g) { return {"mk_ar", {gen_program(r, g), r.chance(0.5) ? "input.cq" : ""}, {}}; }
static Op g_mk_an(Rng&, Gen&) { return {"mk_an", {}, {}}; }
static Reg s1("mk_pr", op_mk_pr, g_mk_pr, T_SETUP | T_PIPE), s2("mk_ar", op_mk_ar, g_mk_ar, T_SETUP | T_PIPE), s3("mk_an", op_mk_an, g_mk_an, T_SETUP | T_PIPE);

static std::string show_value(const v3::values::Value& v) { return v.empty() ? "empty" : dump_of(v); }
struct Vals {
    v3::values::Values v;
    ~Vals() { ArenaScope a; v3::values::Values().get_vec().swap(v.get_vec()); }
};
static void add_const(Vals& vs, char ty, int64_t n) {
    ArenaScope a;
    switch (ty) {
        case 'b': vs.v.add(cqasm::tree::make<v3::values::ConstBool>(n % 2 != 0)); break;
        case 'i': vs.v.add(cqasm::tree::make<v3::values::ConstInt>(n)); break;
        default: vs.v.add(cqasm::tree::make<v3::values::ConstFloat>(static_cast<double>(n) / 4));
    }
}
static std::string call_fn(const Analyzer& A, const std::string& name, const std::string& types, int64_t n) {
    Vals vs; ArenaStr nm(name);
    for (char ty : types) add_const(vs, ty, n++);
    try {
        Obj v = hold<v3::values::Value>("val", [&] { return A.resolve_function(*nm, vs.v); });
        return show_value(v.as<v3::values::Value>());
    } catch (const cqasm::error::Error& e) { tl.in_sut = 0; return "refused:" + render_err(e, 7, 0); }
}
static std::string get_var(const Analyzer& A, const std::string& name) {
    ArenaStr nm(name);
    try {
        Obj v = hold<v3::values::Value>("val", [&] { return A.resolve_variable(*nm); });
        return show_value(v.as<v3::values::Value>());
    } catch (const cqasm::error::Error& e) { tl.in_sut = 0; return "refused:" + render_err(e, 7, 0); }
}
static const char* small_programs[] = {"version 3.0;qubit[3] q;bit[3] b;H q;b=measure q", "version 3.0\nqubit q\nX q\nRx(pi/2) q\nctrl.X q, q\n", "version 3.0;bit b;bit b", "version 3.0;qubit[2] q;CNOT q[0],q[5]",
                                       "version 3.0;qubit[4] q;CR(tau) q[0:1],q[2,3];barrier q", "version 4;X y"};
std::string read_more(Ctx&, Obj& x, const Op& o) {
    capbuf();
    if (x.type == "failed") return "failed";
    if (x.type == "pr") {
        auto& P = static_cast<const ParseResult&>(x.as<ParseResult>());
        switch (M(o, 1, 7)) {
            case 0: return form_of(P, F_JSON);
            case 1: return form_of(P, F_STRS);
            case 2: return form_of(P, F_DUMP);
            case 3: { Obj k = make_obj<ParseResult>("pr", P); return form_of(k.as<ParseResult>(), static_cast<int>(M(o, 2, 3))); }
            case 4: if (P.root.empty()) return "none"; else { Obj k = hold<v3::parser::Root>("root", [&] { return P.root.clone(); }); return dump_of(k.as<v3::parser::Root>()) + (SUT(P.root.equals(k.as<v3::parser::Root>())) ? "=" : "!"); }
            default: { Obj a = fresh_analyzer(); Obj k = hold<AnalysisResult>("ar", [&] { return a.as<Analyzer>().analyze(P); }); return form_any(k.as<AnalysisResult>(), static_cast<int>(M(o, 2, 4))); }
        }
    }
    if (x.type == "ar") {
        auto& R = static_cast<const AnalysisResult&>(x.as<AnalysisResult>());
        switch (M(o, 1, 4)) {
            case 0: { Obj k = make_obj<AnalysisResult>("ar", R); return form_any(k.as<AnalysisResult>(), static_cast<int>(M(o, 2, 4))); }
            case 1: if (R.root.empty()) return "none"; else { Obj k = hold<v3::analyzer::Root>("root", [&] { return R.root.clone(); }); return dump_of(k.as<v3::analyzer::Root>()) + (SUT(R.root.equals(k.as<v3::analyzer::Root>())) ? "=" : "!"); }
            default: return form_any(R, static_cast<int>(M(o, 2, 4)));
        }
    }
    if (x.type == "an") {
        auto& A = static_cast<const Analyzer&>(x.as<Analyzer>());
        static const char* vn[] = {"pi", "eu", "tau", "true", "false", "nope"};
        static const char* fn[] = {"operator+", "operator-", "sqrt", "operator?:", "cos", "operator**", "abs", "operator<<"};
        static const char* ty[] = {"ii", "ff", "i", "f", "if", "b", "bii", "bb", "", "iii"};
        switch (M(o, 1, 4)) {
            case 0: return get_var(A, vn[M(o, 2, 6)]);
            case 1: return call_fn(A, fn[M(o, 2, 8)], ty[M(o, 3, 10)], 1 + I(o, 3) % 7);
            default: {
                Obj k = make_obj<Analyzer>("an", A);
                ArenaStr t(small_programs[M(o, 2, 6)]); OptName n("", false);
                Obj res = hold<AnalysisResult>("ar", [&] { return k.as<Analyzer>().analyze_string(*t, n.v); });
                return form_any(res.as<AnalysisResult>(), static_cast<int>(M(o, 3, 4)));
            }
        }
    }
    return "?";
}

// ---------------------------------------------------------------- histories of one analyzer's scopes and tables, against a model
// Steps (o.i, three numbers each): what, a, b. Names and types come from small pools so that they collide.
namespace {
struct MScope { std::map<std::string, std::string> vars; std::vector<std::pair<std::string, std::string>> ins; };   // name -> shown value; (instruction, operand types)
struct MAn { std::vector<MScope> st; std::vector<std::array<std::string, 3>> fns; };                                 // front: innermost; functions: name, types, result
}
static bool m_promotes(char from, char to) { static const std::map<char, std::string> m{{'b', "bif"}, {'i', "if"}, {'f', "f"}}; auto it = m.find(from); return it != m.end() && it->second.find(to) != std::string::npos; }
static std::string op_scopes(Ctx&, const Op& o) {
    capbuf();
    static const char* names[] = {"a", "b", "pi", "A", "q", "ab"};
    static const char* fnn[] = {"f", "F", "operator+", "g"};
    static const char* specs[] = {"", "i", "f", "b", "ii", "if", "ff", "bi", "fi", "iii"};
    std::vector<Obj> an; std::vector<MAn> model;
    an.push_back(hold<Analyzer>("an", [] { return Analyzer{}; }));
    model.push_back({{MScope{}}, {}});
    size_t cur = 0;
    struct Kept { ~Kept() { release_kept(); } } kept;
    bool oom = false;                // the last call ran out of memory: nothing must have changed
    auto refused = [&](auto&& f) {   // true: refused with an error
        oom = false;
        try { f(); return false; } catch (const cqasm::error::Error&) { tl.in_sut = 0; return true; } catch (const std::bad_alloc&) { tl.in_sut = 0; return oom = true; }
    };
    auto verify = [&](size_t k, const std::string& after) {
        Calm calm;
        auto& A = static_cast<const Analyzer&>(an[k].as<Analyzer>());
        for (auto* n : names) {
            std::string want = "refused:";
            for (auto& s : model[k].st) if (auto it = s.vars.find(n); it != s.vars.end()) { want = it->second; break; }
            std::string got = get_var(A, n);
            if (want == "refused:" ? got.compare(0, 8, want) : got != want) fail("variable", after + ", variable " + n + " resolves to \"" + clip(got) + "\" instead of \"" + clip(want) + "\"");
        }
        for (auto* n : fnn) for (auto* ty : specs) {
            std::string want = "refused:", t = ty;
            for (auto it = model[k].fns.rbegin(); it != model[k].fns.rend(); ++it) {
                if ((*it)[0] != n || (*it)[1].size() != t.size()) continue;
                bool ok = true;
                for (size_t j = 0; j < t.size(); ++j) ok &= m_promotes(t[j], (*it)[1][j]);
                if (ok) { want = (*it)[2]; break; }
            }
            std::string got = call_fn(A, n, t, 3);
            if (want == "refused:" ? got.compare(0, 8, want) : got != want) fail("function", after + ", function " + n + "(" + t + ") resolves to \"" + clip(got) + "\" instead of \"" + clip(want) + "\"");
        }
        for (auto* n : names) for (auto* ty : {"Q", "V", "QQ", ""}) {
            bool want = false;
            for (auto& s : model[k].st) for (auto& i : s.ins) if (i.first == n && i.second == ty) want = true;
            Vals vs; ArenaStr nm(n);
            { ArenaScope a; for (const char* p = ty; *p; ++p) { auto var = cqasm::tree::make<v3::semantic::Variable>(); var->name = "x"; if (*p == 'Q') var->typ = cqasm::tree::make<v3::types::Qubit>(); else var->typ = cqasm::tree::make<v3::types::QubitArray>(3); vs.v.add(cqasm::tree::make<v3::values::VariableRef>(var)); keep_alive(var.get_ptr()); } }
            bool got = !refused([&] { Obj i = hold<cqasm::tree::One<v3::semantic::Instruction>>("ins", [&] { return A.resolve_instruction(*nm, vs.v); }); });
            if (got != want) fail("instruction", after + ", instruction " + n + " with operands (" + ty + ") " + (got ? "is found although nothing like it is registered" : "is not found"));
        }
        release_kept();
    };
    auto want_fn = [&](size_t k, const std::string& n, const std::string& t) -> std::string {
        for (auto it = model[k].fns.rbegin(); it != model[k].fns.rend(); ++it) {
            if ((*it)[0] != n || (*it)[1].size() != t.size()) continue;
            bool ok = true;
            for (size_t j = 0; j < t.size(); ++j) ok &= m_promotes(t[j], (*it)[1][j]);
            if (ok) return (*it)[2];
        }
        return "refused:";
    };
    // One and the same lookup after every step, with nothing else looked up in between
    const uint64_t fav = M(o, 2, 1000); const bool faithful = fav % 2;
    auto favourite = [&](size_t k, const std::string& after) {
        Calm calm;
        auto& A = static_cast<const Analyzer&>(an[k].as<Analyzer>());
        if (fav % 3 == 1) {
            std::string n = names[fav / 6 % 6], want = "refused:", got = get_var(A, n);
            for (auto& s : model[k].st) if (auto it = s.vars.find(n); it != s.vars.end()) { want = it->second; break; }
            if (want == "refused:" ? got.compare(0, 8, want) : got != want) fail("variable", after + ", variable " + n + ", looked up again, resolves to \"" + clip(got) + "\" instead of \"" + clip(want) + "\"");
        } else {
            std::string n = fnn[fav / 6 % 4], t = specs[fav / 24 % 10], want = want_fn(k, n, t), got = call_fn(A, n, t, 3);
            if (want == "refused:" ? got.compare(0, 8, want) : got != want) fail("function", after + ", function " + n + "(" + t + "), looked up again, resolves to \"" + clip(got) + "\" instead of \"" + clip(want) + "\"");
        }
    };
    for (size_t k = 0; k + 2 < o.i.size(); k += 3) {
        auto& A = an[cur].as<Analyzer>(); auto& m = model[cur];
        uint64_t a = M(o, k + 1, 1000), b = M(o, k + 2, 1000);
        std::string say = "after step " + std::to_string(k / 3);
        switch (M(o, k, 9)) {
            case 0: case 1: {   // register a variable
                std::string n = names[a % 6];
                ArenaStr nm(n);
                Obj v; { ArenaScope s; auto one = v3::values::Value{cqasm::tree::make<v3::values::ConstInt>(static_cast<int64_t>(b))}; v.type = "val"; v.p = new v3::values::Value(one); v.del = [](void* q) { delete static_cast<v3::values::Value*>(q); }; }
                std::string shown; { Calm calm; shown = show_value(v.as<v3::values::Value>()); }
                bool no = refused([&] { SUTV(A.register_variable(*nm, v.as<v3::values::Value>())); });
                bool dup = m.st.front().vars.count(n) != 0;
                if (!oom && no != dup) fail("redeclare", say + ": declaring " + n + (dup ? " a second time in its scope is accepted" : " for the first time in its scope is refused"));
                if (!no) m.st.front().vars[n] = shown;
                break;
            }
            case 2: if (!refused([&] { SUTV(A.push_scope()); })) m.st.insert(m.st.begin(), MScope{}); break;
            case 3: if (m.st.size() > 1) { SUTV(A.pop_scope()); m.st.erase(m.st.begin()); } break;
            case 4: {   // register a function: the last applicable registration counts
                std::string n = fnn[a % 4], t = specs[b % 10];
                ArenaStr nm(n), ty(t);
                int64_t id = static_cast<int64_t>(1000 + k);
                v3::resolver::ConstEvalCoreFunction f = [id](const v3::values::Values& vs) -> v3::values::Value { return cqasm::tree::make<v3::values::ConstInt>(id * 10 + static_cast<int64_t>(vs.size())); };
                if (refused([&] { SUTV(A.register_consteval_core_function(*nm, *ty, f)); })) { if (!oom) fail("refused", say + ": function " + n + "(" + t + ") is refused"); break; }
                Obj v; { ArenaScope s; v.type = "val"; v.p = new v3::values::Value(cqasm::tree::make<v3::values::ConstInt>(id * 10 + static_cast<int64_t>(t.size()))); v.del = [](void* q) { delete static_cast<v3::values::Value*>(q); }; }
                { Calm calm; m.fns.push_back({n, t, show_value(v.as<v3::values::Value>())}); }
                break;
            }
            case 5: {
                static const char* it[] = {"Q", "V", "QQ"};
                std::string n = names[a % 6], t = it[b % 3];
                ArenaStr nm(n); OptName ty(t, true);
                if (refused([&] { SUTV(A.register_instruction(*nm, ty.v)); })) { if (!oom) fail("refused", say + ": instruction " + n + " " + t + " is refused"); break; }
                m.st.front().ins.emplace_back(n, t);
                break;
            }
            case 6: if (an.size() < 4) { Obj x; if (refused([&] { x = make_obj<Analyzer>("an", static_cast<const Analyzer&>(A)); })) break; an.push_back(std::move(x)); MAn y = m; model.push_back(y); if (a % 2) cur = an.size() - 1; } break;
            case 7: cur = a % an.size(); break;
            default: if (an.size() > 1) { size_t q = a % an.size(); if (q != cur) {
                Obj& t = an[cur];
                if (!refused([&] { SUTV(t.as<Analyzer>() = static_cast<const Analyzer&>(an[q].as<Analyzer>())); })) { model[cur] = model[q]; break; }
                Calm calm; t.reset(); t = hold<Analyzer>("an", [] { return Analyzer{}; }); model[cur] = {{MScope{}}, {}};   // half of an assignment
            } } break;
        }
        if (faithful) favourite(cur, say);
        if (oom || (M(o, k + 2, 3) == 0 && !(faithful && M(o, k + 1, 4)))) verify(cur, say + (oom ? ", which ran out of memory" : ""));
        oom = false;
    }
    if (faithful) for (size_t k = 0; k < an.size(); ++k) favourite(k, "at the end, in analyzer " + std::to_string(k));
    for (size_t k = 0; k < an.size(); ++k) verify(k, "at the end, in analyzer " + std::to_string(k));
    return "";
}
static Op g_scopes(Rng& r, Gen&) {
    Op o{"scopes", {}, {}};
    if (r.chance(0.3)) {   // few names: registrations that concern the favourite lookup
        uint64_t fav = 2 * r.below(500) + 1, sp = fav / 24 % 10;
        for (size_t n = 3 + r.below(20); n > 0; --n) {
            uint64_t kind = r.chance(0.45) ? (fav % 3 == 1 ? 0 : 4) : r.below(9), a = r.below(1000), b = r.below(1000);
            if (kind == 4 && r.chance(0.8)) { a = fav / 6 % 4; b = r.chance(0.7) ? sp : r.below(10); b += 10 * r.below(90); }
            if (kind == 0 && r.chance(0.6)) a = fav / 6 % 6;
            if (o.i.empty()) b = fav;
            for (uint64_t v : {kind, a, b}) o.i.push_back(static_cast<int64_t>(v));
        }
        return o;
    }
    for (size_t n = 1 + r.below(r.chance(0.2) ? 40 : 10); n > 0; --n) { o.i.push_back(static_cast<int64_t>(r.below(9))); o.i.push_back(static_cast<int64_t>(r.below(1000))); o.i.push_back(static_cast<int64_t>(r.below(1000))); }
    return o;
}
static Reg h1("scopes", op_scopes, g_scopes, T_HIST | T_TABLE | T_PIPE);

// An analyzer with registrations of its own, and what it makes of one lookup or program.
// i: base, copied, lookup kind, a, b, then registrations (kind, a, b)
static const char* cust_prog[] = {"version 3.0;qubit q;Rx(a) q", "version 3.0;qubit q;Rx(f(1)) q", "version 3.0;qubit[2] q;Rx(f(1.5,2)+ab) q[1]", "version 3.0;qubit q;Rx(sin(1.5)) q;Rx(1+a) q", "version 3.0;qubit q;bit b;b=measure q;a q", "version 3.0;qubit[3] q;Rx(g(true)) q[f(1)]", "version 3.0;qubit q;X q;reset q"};
static std::string op_cust(Ctx&, const Op& o) {
    capbuf();
    static const char* names[] = {"a", "b", "pi", "ab"};
    static const char* fnn[] = {"f", "g", "sin", "operator+"};
    static const char* specs[] = {"i", "f", "b", "ii", "ff", ""};
    Obj an = M(o, 0, 2) ? fresh_analyzer() : hold<Analyzer>("an", [] { return Analyzer{}; });
    std::string log;
    for (size_t k = 5; k + 2 < o.i.size(); k += 3) {
        auto& A = an.as<Analyzer>();
        uint64_t a = M(o, k + 1, 1000); int64_t b = I(o, k + 2) % 1000;
        try {
            switch (M(o, k, 3)) {
                case 0: {
                    ArenaStr nm(names[a % 4]);
                    Obj v; { ArenaScope s; v.type = "val"; v.p = new v3::values::Value(cqasm::tree::make<v3::values::ConstFloat>(static_cast<double>(b) / 8)); v.del = [](void* q) { delete static_cast<v3::values::Value*>(q); }; }
                    SUTV(A.register_variable(*nm, v.as<v3::values::Value>()));
                    break;
                }
                case 1: {
                    ArenaStr nm(fnn[a % 4]), ty(specs[a / 4 % 6]);
                    v3::resolver::ConstEvalCoreFunction f = [b](const v3::values::Values& vs) -> v3::values::Value { return cqasm::tree::make<v3::values::ConstFloat>(static_cast<double>(b) + static_cast<double>(vs.size()) / 16); };
                    SUTV(A.register_consteval_core_function(*nm, *ty, f));
                    break;
                }
                default: { ArenaStr nm(names[a % 4]); OptName ty(a / 4 % 2 ? "Q" : "V", true); SUTV(A.register_instruction(*nm, ty.v)); break; }
            }
            log += '+';
        } catch (const cqasm::error::Error&) { tl.in_sut = 0; log += '-'; }
    }
    if (M(o, 1, 2)) { Obj c = make_obj<Analyzer>("an", static_cast<const Analyzer&>(an.as<Analyzer>())); an.reset(); an = std::move(c); }
    auto& A = an.as<Analyzer>();
    uint64_t a = M(o, 3, 1000), b = M(o, 4, 1000);
    switch (M(o, 2, 3)) {
        case 0: return log + get_var(A, names[a % 4]);
        case 1: return log + call_fn(A, fnn[a % 4], specs[b % 6], 1 + static_cast<int64_t>(b / 6 % 2));
        default: {
            ArenaStr t(cust_prog[a % 7]); OptName n("", false);
            Obj res = hold<AnalysisResult>("ar", [&] { return A.analyze_string(*t, n.v); });
            return log + form_any(res.as<AnalysisResult>(), static_cast<int>(b % 5));
        }
    }
}
static Op g_cust(Rng& r, Gen&) {
    Op o{"cust", {}, {static_cast<int64_t>(r.below(2)), r.chance(0.3), static_cast<int64_t>(r.below(3)), static_cast<int64_t>(r.below(1000)), static_cast<int64_t>(r.below(1000))}};
    if (o.i[2] == 2) o.i[0] = r.chance(0.8);
    if (o.i[2] == 1) o.i[3] = static_cast<int64_t>(r.below(4) / 2);
    for (size_t n = r.below(4) + 1; n > 0; --n) {
        int64_t kind = o.i[2] < 2 && r.chance(0.7) ? o.i[2] : static_cast<int64_t>(r.below(3)), a = static_cast<int64_t>(r.below(1000));
        if (kind == 1 && o.i[2] == 1 && r.chance(0.7)) a = o.i[3] % 4 + 4 * (o.i[4] % 6);
        for (int64_t v : {kind, a, static_cast<int64_t>(r.below(1000))}) o.i.push_back(v);
    }
    return o;
}
static Reg h6("cust", op_cust, g_cust, T_PURE | T_PIPE | T_TABLE | T_ALLOC);

}  // namespace sim
