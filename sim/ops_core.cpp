// Operations on text utilities, locations, versions, errors and overload tables.
// Compiled like the code under test, so that inline and template code of the library is instrumented.
#include "ops.hpp"
#include <cstring>
#include <iomanip>
#include <sstream>

namespace sim {
using namespace cqasm;

// ---------------------------------------------------------------- text utilities
static std::string op_lower(Ctx&, const Op& o) { ArenaStr a(S(o, 0)); auto r = out(SUT(utils::to_lowercase(*a))); unchanged(a, S(o, 0)); return r; }
static std::string op_ieq(Ctx&, const Op& o) {
    ArenaStr a(S(o, 0)), b(S(o, 1));
    bool r = SUT(utils::equal_case_insensitive(*a, *b));
    unchanged(a, S(o, 0)); unchanged(b, S(o, 1));
    return r ? "true" : "false";
}
static std::string op_url(Ctx&, const Op& o) { ArenaStr a(S(o, 0)); auto r = out(SUT(utils::url_encode(*a))); unchanged(a, S(o, 0)); return r; }
static std::string op_json(Ctx&, const Op& o) { ArenaStr a(S(o, 0)); auto r = out(SUT(utils::json_encode(*a))); unchanged(a, S(o, 0)); return r; }
static std::string op_untriple(Ctx&, const Op& o) {
    std::string t = "'''" + S(o, 0) + "'''";
    ArenaStr a(t); auto r = out(SUT(utils::remove_triple_quotes(*a))); unchanged(a, t); return r;
}
static Op g_text(const char* k, Rng& r, Gen& g) { return {k, {g.bytes(r)}, {}}; }
static Op g_lower(Rng& r, Gen& g) { return g_text("lower", r, g); }
static Op g_url(Rng& r, Gen& g) { return g_text("url", r, g); }
static Op g_json(Rng& r, Gen& g) { return g_text("json", r, g); }
static Op g_untriple(Rng& r, Gen& g) { return g_text("untriple", r, g); }
static Op g_ieq(Rng& r, Gen& g) {
    std::string a = g.bytes(r), b = r.chance(0.8) ? a : g.bytes(r);
    for (auto& c : b) if (r.chance(0.3)) c = static_cast<char>(isalpha(static_cast<unsigned char>(c)) && static_cast<unsigned char>(c) < 128 ? c ^ 0x20 : c);
    if (r.chance(0.4)) b = g.corrupt(r, b);
    return {"ieq", {a, b}, {}};
}
static Reg r1("lower", op_lower, g_lower, T_PURE | T_TEXT | T_ALLOC), r2("ieq", op_ieq, g_ieq, T_PURE | T_TEXT), r3("url", op_url, g_url, T_PURE | T_TEXT | T_ALLOC),
    r4("json", op_json, g_json, T_PURE | T_TEXT | T_ALLOC), r5("untriple", op_untriple, g_untriple, T_PURE | T_TEXT | T_ALLOC);

// ---------------------------------------------------------------- locations
Obj make_loc(const LocSpec& l) {
    std::optional<std::string> f;
    { ArenaScope a; if (l.has) f.emplace(l.name.data(), l.name.size()); }
    struct Drop { std::optional<std::string>& f; ~Drop() { ArenaScope a; f.reset(); } } d{f};
    Obj o; o.type = "loc";
    {
        SutScope s;
        o.p = new SourceLocation(f, SourceLocation::Range(SourceLocation::Index{l.l1, l.c1}, SourceLocation::Index{l.l2, l.c2}));
    }
    o.del = [](void* q) { delete static_cast<SourceLocation*>(q); };
    if (l.hand) {
        auto& L = *static_cast<SourceLocation*>(o.p);
        ArenaScope a;
        if (l.hand & 1) L.file_name = "";
        if (l.hand & 2) L.range.last = {0, 0};
        if (l.hand & 4) std::swap(L.range.first, L.range.last);
        if (l.hand & 8) L.range.last.column = 0;
    }
    return o;
}
static std::string fields(const SourceLocation& l) {
    NoSut n;
    std::string r;
    if (l.file_name.has_value()) { r += "f" + std::to_string(l.file_name->size()) + ":"; r.append(l.file_name->data(), l.file_name->size()); } else r += "-";
    auto& g = l.range;
    return r + "|" + std::to_string(g.first.line) + "," + std::to_string(g.first.column) + "," + std::to_string(g.last.line) + "," + std::to_string(g.last.column);
}
void apply_fmt_state(std::ostream& os, int64_t b) {
    if (!b) return;
    NoSut n;
    if (b & 1) os << std::hex;
    if (b & 2) os << std::oct;
    if (b & 4) os << std::showbase;
    if (b & 8) os << std::showpos;
    if (b & 16) os << std::uppercase;
    if (b & 32) os << std::boolalpha << std::scientific;
    if (b & 64) os << std::setfill('*');
    if (b & 128) os << std::setprecision(static_cast<int>(b >> 10 & 31));
    if (b & 256) os << std::unitbuf;
    if (b & 512) os << std::internal; else if (b & (1 << 16)) os << std::left;
}
template <class T> static std::string render(const T& v, int route, int64_t state) {
    switch (route) {
        case 1: return out(SUT(fmt::format("{}", v)));
        case 2: return out(SUT(fmt::to_string(v)));
        case 3: {
            std::string r; std::string tmp;
            { ArenaScope a; std::string().swap(tmp); }
            SUTV(fmt::format_to(std::back_inserter(tmp), "{}", v));
            return out(std::move(tmp));
        }
        case 4: {
            SimBuf b; std::ostream os(&b);
            apply_fmt_state(os, state);
            SUTV(fmt::print(os, "{}", v));
            if (!os.good()) throw std::bad_alloc();
            return b.got;
        }
        case 5: {
            std::ostringstream os;
            apply_fmt_state(os, state);
            SUTV(os << v);
            if (!os.good()) throw std::bad_alloc();   // streams report exhaustion through their state
            return os.str();
        }
        case 6: {  // embedded in a larger text
            auto r = out(SUT(fmt::format("<{}|{}>", v, v)));
            size_t h = (r.size() - 3) / 2;
            if (r.size() < 3 || r.substr(1, h) != r.substr(2 + h, h)) return "inconsistent:" + r;
            return r.substr(1, h);
        }
        default: {
            SimBuf b; std::ostream os(&b);
            apply_fmt_state(os, state);
            SUTV(os << v);
            if (!os.good()) throw std::bad_alloc();
            return b.got;
        }
    }
}
static constexpr int ROUTES = 7;
std::string render_loc(const SourceLocation& l, int route, int64_t state) { return render(l, route, state); }
std::string render_err(const Error& e, int route, int64_t state) {
    if (route == 7) { const char* w = SUT(e.what()); NoSut n; return std::string(w); }
    return render(e, route, state);
}
static std::string op_loc(Ctx&, const Op& o) {
    Obj l = make_loc(loc_spec(o, 0, 0));
    auto& L = l.as<SourceLocation>();
    std::string before = fields(L);
    std::string r = render_loc(L, static_cast<int>(M(o, 5, ROUTES)), I(o, 6));
    if (fields(L) != before) fail("args", "rendering changed the location: " + clip(before) + " became " + clip(fields(L)));
    return before + " " + r;
}
std::vector<int64_t> gen_loc(Rng& r, Gen& g) {
    int64_t l1 = g.u32(r), c1 = g.u32(r), l2, c2;
    switch (r.below(6)) {
        case 0: l2 = l1; c2 = g.u32(r); break;
        case 1: l2 = l1; c2 = c1; break;
        case 2: l2 = l1 + static_cast<int64_t>(r.below(3)); c2 = g.u32(r); break;
        case 3: l2 = g.u32(r); c2 = c1; break;
        default: l2 = g.u32(r); c2 = g.u32(r);
    }
    if (r.chance(0.1)) l1 = 0;
    if (r.chance(0.15)) c1 = 0;
    if (r.chance(0.1)) c2 = 0;
    return {r.chance(0.75) ? 1 : 0, l1 & 0xffffffff, c1 & 0xffffffff, l2 & 0xffffffff, c2 & 0xffffffff};
}
static Op g_loc(Rng& r, Gen& g) {
    Op o{"loc", {r.chance(0.06) ? std::string() : g.fname(r)}, gen_loc(r, g)};
    o.i.push_back(static_cast<int64_t>(r.below(ROUTES)));
    o.i.push_back(r.chance(0.3) ? static_cast<int64_t>(r.below(1 << 17)) : 0);
    return o;
}
static std::string ord(std::partial_ordering c) { return c < 0 ? "<" : c > 0 ? ">" : c == 0 ? "=" : "?"; }
static std::string op_loccmp(Ctx&, const Op& o) {
    Obj a = make_loc(loc_spec(o, 0, 0)), b = make_loc(loc_spec(o, 1, 5));
    auto &A = a.as<SourceLocation>(), &B = b.as<SourceLocation>();
    std::string r = SUT(A == B) ? "==" : "!=";
    r += ord(SUT(A <=> B)); r += ord(SUT(A.range <=> B.range)); r += ord(SUT(A.range.first <=> B.range.last));
    r += SUT(A.range == B.range) ? "e" : "n"; r += SUT(A.range.first == B.range.first) ? "e" : "n"; r += SUT(A < B) ? "l" : "g";
    return r;
}
static Op g_loccmp(Rng& r, Gen& g) {
    Op o{"loccmp", {g.fname(r), ""}, gen_loc(r, g)};
    o.s[1] = r.chance(0.6) ? o.s[0] : r.chance(0.5) ? g.corrupt(r, o.s[0]) : g.fname(r);
    auto b = r.chance(0.6) ? o.i : gen_loc(r, g);
    if (r.chance(0.6)) b[1 + r.below(4)] = g.u32(r);
    o.i.insert(o.i.end(), b.begin(), b.end());
    return o;
}
static std::string op_locgrow(Ctx&, const Op& o) {
    Obj l = make_loc(loc_spec(o, 0, 0));
    auto& L = l.as<SourceLocation>();
    std::string r = fields(L);
    for (size_t k = 5; k + 1 < o.i.size(); k += 2) SUTV((L.expand_to_include(SourceLocation::Index{U(o, k), U(o, k + 1)})));
    Obj c = make_obj<SourceLocation>("loc", static_cast<const SourceLocation&>(L));
    if (fields(c.as<SourceLocation>()) != fields(L)) fail("copy", "a copy of a location differs from it");
    return r + " " + fields(L);
}
static Op g_locgrow(Rng& r, Gen& g) {
    Op o{"locgrow", {g.fname(r)}, gen_loc(r, g)};
    for (size_t n = r.below(6); n > 0; --n) { o.i.push_back(g.u32(r)); o.i.push_back(g.u32(r)); }
    return o;
}
static Reg r6("loc", op_loc, g_loc, T_PURE | T_LOC | T_ALLOC | T_ENV), r7("loccmp", op_loccmp, g_loccmp, T_PURE | T_LOC), r8("locgrow", op_locgrow, g_locgrow, T_PURE | T_LOC);

std::string model_loc(const LocSpec& s) {   // independent statement of the rendering
    uint32_t l2 = s.l2, c2 = s.c2;
    if (l2 < s.l1 || (l2 == s.l1 && c2 < s.c1)) { l2 = s.l1; c2 = s.c1; }
    std::string r = s.has && !s.name.empty() ? s.name : "<unknown file name>";
    if (s.l1 == 0) return r;
    r += ":" + std::to_string(s.l1);
    if (s.c1 == 0) return l2 > s.l1 ? r + ".." + std::to_string(l2) : r;
    r += ":" + std::to_string(s.c1);
    if (l2 == s.l1) return c2 > s.c1 ? r + ".." + std::to_string(c2) : r;
    return r + ".." + std::to_string(l2) + ":" + std::to_string(c2);
}

// ---------------------------------------------------------------- versions
static std::string vshow(const Version& v) { NoSut n; std::string r = "["; for (auto x : v) r += std::to_string(x) + ","; return r + "]"; }
static std::string op_ver(Ctx&, const Op& o) {
    ArenaStr a(S(o, 0));
    Obj v = M(o, 0, 2) ? make_obj<Version>("ver", (*a).c_str()) : make_obj<Version>("ver", *a);
    unchanged(a, S(o, 0));
    auto& V = v.as<Version>();
    return vshow(V) + render(V, static_cast<int>(M(o, 1, ROUTES)), I(o, 2));
}
static std::string gen_ver(Rng& r, Gen& g) {
    std::string s;
    for (size_t n = 1 + r.below(5), k = 0; k < n; ++k) { if (k) s += "."; s += r.chance(0.8) ? std::to_string(r.below(r.chance(0.8) ? 12 : 3000000)) : std::to_string(g.u32(r)); }
    if (r.chance(0.2)) s = g.corrupt(r, s);
    if (s.size() > 300) s.resize(300);
    return s;
}
static Op g_ver(Rng& r, Gen& g) { return {"ver", {gen_ver(r, g)}, {static_cast<int64_t>(r.below(2)), static_cast<int64_t>(r.below(ROUTES)), r.chance(0.3) ? static_cast<int64_t>(r.below(1 << 17)) : 0}}; }
static std::string op_vercmp(Ctx&, const Op& o) {
    ArenaStr a(S(o, 0)), b(S(o, 1));
    Obj x = make_obj<Version>("ver", *a), y = make_obj<Version>("ver", *b);
    auto &X = x.as<Version>(), &Y = y.as<Version>();
    return std::string(SUT(X == Y) ? "==" : "!=") + ord(SUT(X <=> Y)) + ord(SUT(Y <=> X));
}
static Op g_vercmp(Rng& r, Gen& g) {
    std::string a = gen_ver(r, g), b = r.chance(0.4) ? a + (r.chance(0.5) ? ".0" : "." + std::to_string(r.below(3))) : gen_ver(r, g);
    return {"vercmp", {a, b}, {}};
}
static Reg r9("ver", op_ver, g_ver, T_PURE | T_ALLOC | T_ENV), r10("vercmp", op_vercmp, g_vercmp, T_PURE | T_ALLOC);

// ---------------------------------------------------------------- string builder
static std::string op_sb(Ctx&, const Op& o) {
    Obj b = make_obj<syntactic::StringBuilder>("sb");
    auto& B = b.as<syntactic::StringBuilder>();
    for (size_t k = 0; k < o.s.size(); ++k) {
        ArenaStr a(o.s[k]);
        if (I(o, k) & 1) SUTV(B.push_escape(*a)); else SUTV(B.push_string(*a));
        unchanged(a, o.s[k]);
    }
    if (!SUT(B.stream.good())) { SutScope s; throw std::bad_alloc(); }   // standard streams report exhaustion through their state
    return out(SUT(B.stream.str()));
}
static Op g_sb(Rng& r, Gen& g) {
    static const char* esc[] = {"\\t", "\\n", "\\r", "\\'", "\\\"", "\\\\", "\\x", "\\0", "", "t"};
    Op o{"sb", {}, {}};
    for (size_t n = r.below(7); n > 0; --n) { bool e = r.chance(0.5); o.s.push_back(e ? (r.chance(0.9) ? esc[r.below(10)] : g.bytes(r, 4)) : g.bytes(r, 200)); o.i.push_back(e); }
    return o;
}
static Reg r11("sb", op_sb, g_sb, T_PURE | T_TEXT | T_ALLOC);

// ---------------------------------------------------------------- errors
Obj make_annotated(bool with, const LocSpec& l) {
    Obj n; n.type = "node";
    Obj loc; if (with) loc = make_loc(l);
    {
        ArenaScope a;
        auto* p = new tr::Annotatable();
        n.p = p; n.del = [](void* q) { delete static_cast<tr::Annotatable*>(q); };
        if (with) p->set_annotation(static_cast<const SourceLocation&>(loc.as<SourceLocation>()));
    }
    return n;
}
// i: kind, has_file, l1, c1, l2, c2
Obj make_err(const Op& o, size_t s, size_t i, int64_t hand) {
    ArenaStr msg(S(o, s));
    LocSpec l = loc_spec(o, s + 1, i + 1, hand);
    Obj e; e.type = "err"; e.del = [](void* q) { delete static_cast<Error*>(q); };
    switch (M(o, i, 6)) {
        case 0: SUTV(e.p = new Error(*msg)); break;
        case 1: case 2: {
            Obj n = make_annotated(M(o, i, 6) == 1, l);
            SUTV(e.p = new Error(*msg, &n.as<tr::Annotatable>()));
            break;
        }
        case 3: {
            std::shared_ptr<SourceLocation> p;
            struct Drop { std::shared_ptr<SourceLocation>& p; ~Drop() { ArenaScope a; p.reset(); } } d{p};
            { Obj t = make_loc(l); ArenaScope a; p = std::make_shared<SourceLocation>(t.as<SourceLocation>()); }
            SUTV(e.p = new Error(*msg, p));
            {   // what the caller does with the location afterwards is no concern of the error
                ArenaScope a;
                p->file_name = "another file";
                p->range.first.column += 7;
                p->expand_to_include({p->range.last.line + 3, 1});
            }
            break;
        }
        case 4: {
            std::optional<std::string> f;
            { ArenaScope a; if (l.has) f.emplace(l.name.data(), l.name.size()); }
            struct Drop { std::optional<std::string>& f; ~Drop() { ArenaScope a; f.reset(); } } d{f};
            SUTV(e.p = new Error(*msg, f, SourceLocation::Range(SourceLocation::Index{l.l1, l.c1}, SourceLocation::Index{l.l2, l.c2})));
            break;
        }
        default: SUTV(e.p = new Error(*msg, std::shared_ptr<SourceLocation>())); break;
    }
    unchanged(msg, S(o, s));
    return e;
}
std::string model_err(const std::string& msg, bool has, const LocSpec& l) {
    return "Error" + (has ? " at " + model_loc(l) : std::string()) + ": " + (msg.empty() ? "<unknown error message>" : msg);
}
static std::string op_err(Ctx&, const Op& o) {
    Obj e = make_err(o, 0, 0);
    auto& E = e.as<Error>();
    std::string r = out(SUT(E.to_json())) + "\n";
    r += render_err(E, static_cast<int>(M(o, 6, 8)), I(o, 7)) + "\n";
    const char* w = SUT(E.what());
    r += w;
    return r;
}
static Op gen_err(const char* k, Rng& r, Gen& g, bool small = false) {
    Op o{k, {r.chance(0.1) ? std::string() : g.bytes(r, small ? 60 : 5000), r.chance(0.08) ? std::string() : g.fname(r)}, {static_cast<int64_t>(r.below(6))}};
    // error messages are text of the library's own making around program text: no embedded zero bytes in what()
    auto l = gen_loc(r, g);
    o.i.insert(o.i.end(), l.begin(), l.end());
    o.i.push_back(static_cast<int64_t>(r.below(8)));
    o.i.push_back(r.chance(0.3) ? static_cast<int64_t>(r.below(1 << 17)) : 0);
    return o;
}
static Op g_err(Rng& r, Gen& g) { return gen_err("err", r, g); }
static std::string op_errs(Ctx&, const Op& o) {   // a failed analysis with several errors, as JSON
    std::vector<Obj> keep;
    size_t n = o.i.size() / 6;
    for (size_t k = 0; k < n; ++k) keep.push_back(make_err(o, 2 * k, 6 * k));
    error::ParseErrors v;
    struct Drop { error::ParseErrors& v; ~Drop() { ArenaScope a; error::ParseErrors().swap(v); } } d{v};
    for (auto& e : keep) SUTV(v.push_back(e.as<Error>()));
    return out(SUT(result::errors_to_json(v)));
}
static Op g_errs(Rng& r, Gen& g) {
    Op o{"errs", {}, {}};
    for (size_t n = r.below(5); n > 0; --n) {
        Op e = gen_err("", r, g, true);
        o.s.push_back(e.s[0]); o.s.push_back(e.s[1]);
        o.i.insert(o.i.end(), e.i.begin(), e.i.begin() + 6);
    }
    return o;
}
static Reg r12("err", op_err, g_err, T_PURE | T_ERR | T_DIAG | T_ALLOC | T_ENV), r13("errs", op_errs, g_errs, T_PURE | T_ERR | T_DIAG | T_ALLOC);

// ---------------------------------------------------------------- overload tables
static const unsigned promo[8] = {0b00000111, 0b00000010, 0b00000110, 0b00001000, 0b00110000, 0b00100000, 0b01000000, 0b11111111};  // row: from, bit: to
bool can_promote(int from, int to) { return from == to || (promo[from & 7] >> (to & 7) & 1); }
tr::One<Val> promote(const tr::One<Val>& v, const tr::One<Ty>& t) {
    if (v->ty == t->id) return v;
    if (!can_promote(v->ty, t->id)) return {};
    return tr::One<Val>(std::make_shared<Val>(Val{t->id, v->payload}));
}
tr::Any<Ty> ov_types(const std::string& spec) {
    tr::Any<Ty> r;
    for (char c : spec) r.add(tr::One<Ty>(std::make_shared<Ty>(Ty{c & 7})));
    return r;
}
std::string ov_show(const std::pair<OvTag, tr::Any<Val>>& p) {
    NoSut n;
    std::string r(p.first.s.data(), p.first.s.size());
    r += "(";
    for (auto& a : p.second) r += std::to_string(a->ty) + "=" + std::to_string(a->payload) + ",";
    return r + ")";
}
std::string ov_lookup(OvTable& t, const std::string& name, const std::string& args) {
    ArenaStr nm(name);
    tr::Any<Val> vals;
    struct Drop { tr::Any<Val>& v; ~Drop() { ArenaScope a; v.reset(); tr::Any<Val>().get_vec().swap(v.get_vec()); } } d{vals};
    { ArenaScope a; int k = 0; for (char c : args) vals.add(tr::One<Val>(std::make_shared<Val>(Val{c & 7, ++k}))); }
    std::string r;
    try {
        SutScope s;
        auto p = t.resolve(*nm, vals);
        r = ov_show(p);
        tl.in_sut = 1;
    } catch (const overload::NameResolutionFailure&) { return "no name";
    } catch (const overload::OverloadResolutionFailure&) { return "no overload"; }
    unchanged(nm, name);
    return r;
}
std::string ov_name(Rng& r, Gen& g) {
    static const char* n[] = {"H", "h", "CNOT", "cnot", "Rx", "", "a", "A", "measure", "b", "barrier", "wait"};
    return r.chance(0.85) ? n[r.below(12)] : g.name(r);
}
std::string ov_spec(Rng& r, size_t maxn) { std::string s; for (size_t n = r.below(maxn + 1); n > 0; --n) s += static_cast<char>('0' + (r.chance(0.6) ? r.below(3) : r.below(8))); return s; }
static void ov_add(OvTable& t, const std::string& name, const std::string& spec, int k) {
    ArenaStr nm(name);
    OvTag tag; tr::Any<Ty> ty;
    struct Drop { OvTag& t; tr::Any<Ty>& v; ~Drop() { ArenaScope a; std::string().swap(t.s); tr::Any<Ty>().get_vec().swap(v.get_vec()); } } d{tag, ty};
    { ArenaScope a; tag.s = "registration number " + std::to_string(k); ty = ov_types(spec); }
    SUTV(t.add_overload(*nm, tag, ty));
    unchanged(nm, name);
}
// s: name, spec, name, spec, ... ; last pair is the lookup
static std::string op_ovl(Ctx&, const Op& o) {
    Obj t = make_obj<OvTable>("ovl");
    auto& T = t.as<OvTable>();
    size_t n = o.s.size() / 2;
    for (size_t k = 0; k + 1 < n; ++k) ov_add(T, o.s[2 * k], o.s[2 * k + 1], static_cast<int>(k));
    return n ? ov_lookup(T, o.s[2 * n - 2], o.s[2 * n - 1]) : "";
}
static Op g_ovl(Rng& r, Gen& g) {
    Op o{"ovl", {}, {}};
    for (size_t n = 1 + r.below(7); n > 0; --n) { o.s.push_back(ov_name(r, g)); o.s.push_back(ov_spec(r)); }
    return o;
}
static Reg r14("ovl", op_ovl, g_ovl, T_PURE | T_TABLE | T_ALLOC);

// ---------------------------------------------------------------- shared objects
static std::string op_mk_str(Ctx& c, const Op& o) {
    Obj x; x.type = "str"; { ArenaScope a; x.p = new std::string(S(o, 0).data(), S(o, 0).size()); }
    x.del = [](void* q) { delete static_cast<std::string*>(q); };
    c.w.shared.push_back(std::move(x)); return "";
}
static std::string op_mk_loc(Ctx& c, const Op& o) { c.w.shared.push_back(make_loc(loc_spec(o, 0, 0, I(o, 7)))); return ""; }
static std::string op_mk_err(Ctx& c, const Op& o) { c.w.shared.push_back(make_err(o, 0, 0, I(o, 8))); return ""; }
static std::string op_mk_ver(Ctx& c, const Op& o) { ArenaStr a(S(o, 0)); c.w.shared.push_back(make_obj<Version>("ver", *a)); return ""; }
static std::string op_mk_ovl(Ctx& c, const Op& o) {
    Obj t = make_obj<OvTable>("ovl");
    for (size_t k = 0; k + 1 < o.s.size(); k += 2) ov_add(t.as<OvTable>(), o.s[k], o.s[k + 1], static_cast<int>(k / 2));
    c.w.shared.push_back(std::move(t)); return "";
}
static Op g_mk_str(Rng& r, Gen& g) { return {"mk_str", {g.bytes(r, 3000)}, {}}; }
static Op g_mk_loc(Rng& r, Gen& g) { Op o = g_loc(r, g); o.k = "mk_loc"; o.i.push_back(r.chance(0.25) ? static_cast<int64_t>(r.below(16)) : 0); return o; }
static Op g_mk_err(Rng& r, Gen& g) { Op o = gen_err("mk_err", r, g, r.chance(0.7)); o.i.push_back(r.chance(0.25) ? static_cast<int64_t>(r.below(16)) : 0); if (o.i.back()) o.i[0] = 3; return o; }
static Op g_mk_ver(Rng& r, Gen&) { std::string s; for (size_t n = 1 + r.below(4); n > 0; --n) s += std::to_string(r.below(40)) + (n > 1 ? "." : ""); return {"mk_ver", {s}, {}}; }
static Op g_mk_ovl(Rng& r, Gen& g) { Op o = g_ovl(r, g); o.k = "mk_ovl"; return o; }
static Reg s1("mk_str", op_mk_str, g_mk_str, T_SETUP), s2("mk_loc", op_mk_loc, g_mk_loc, T_SETUP), s3("mk_err", op_mk_err, g_mk_err, T_SETUP),
    s4("mk_ver", op_mk_ver, g_mk_ver, T_SETUP), s5("mk_ovl", op_mk_ovl, g_mk_ovl, T_SETUP);

static std::string read_err(const Error& E, const Op& o) {
    switch (M(o, 1, 7)) {
        case 0: { const char* w = SUT(E.what()); yield_point(0x4EAD1); SutScope s; std::string t(w); return out(std::move(t)); }
        case 1: return out(SUT(E.to_json()));
        case 2: return render_err(E, static_cast<int>(M(o, 2, 7)), 0);
        case 3: { Obj c = make_obj<Error>("err", E); return render_err(c.as<Error>(), 7, 0); }
        case 4: {
            std::string r;
            try { SutScope s; throw Error(E); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& x) { SutScope s; std::string t(x.what()); r = out(std::move(t)); }
            return r;
        }
        case 5: {
            Obj c = make_obj<Error>("err", E);
            Obj n = make_annotated(true, {true, "late.cq", 7, 7, 7, 9});
            SUTV(c.as<Error>().context(n.as<tr::Annotatable>()));
            return render_err(c.as<Error>(), 0, 0) + out(SUT(E.to_json()));
        }
        default: {
            error::ParseErrors v;
            struct Drop { error::ParseErrors& v; ~Drop() { ArenaScope a; error::ParseErrors().swap(v); } } d{v};
            SUTV(v.push_back(E)); SUTV(v.push_back(E));
            return out(SUT(result::errors_to_json(v)));
        }
    }
}
std::string read_more(Ctx&, Obj&, const Op&) __attribute__((weak));
static std::string op_rd(Ctx& c, const Op& o) {
    if (c.w.shared.empty()) return "none";
    Obj& x = c.w.shared[M(o, 0, c.w.shared.size())];
    if (x.type == "str") {
        auto& v = x.as<std::string>();
        switch (M(o, 1, 5)) {
            case 0: return out(SUT(utils::to_lowercase(v)));
            case 1: return SUT(utils::equal_case_insensitive(v, v)) ? "t" : "f";
            case 2: return out(SUT(utils::url_encode(v)));
            case 3: return out(SUT(utils::json_encode(v)));
            default: return out(SUT(std::string(v)));
        }
    }
    if (x.type == "loc") {
        auto& v = x.as<SourceLocation>();
        switch (M(o, 1, 4)) {
            case 0: case 1: return render_loc(v, static_cast<int>(M(o, 2, ROUTES)), I(o, 3));
            case 2: { Obj k = make_obj<SourceLocation>("loc", static_cast<const SourceLocation&>(v)); return fields(k.as<SourceLocation>()) + (SUT(k.as<SourceLocation>() == v) ? "=" : "!"); }
            default: { Obj k = make_obj<SourceLocation>("loc", static_cast<const SourceLocation&>(v)); SUTV((k.as<SourceLocation>().expand_to_include({9, 9}))); return fields(k.as<SourceLocation>()) + ord(SUT(v <=> k.as<SourceLocation>())); }
        }
    }
    if (x.type == "err") return read_err(x.as<Error>(), o);
    if (x.type == "ver") { auto& v = x.as<Version>(); return M(o, 1, 2) ? render(v, static_cast<int>(M(o, 2, ROUTES)), 0) : std::string(SUT(v == v) ? "=" : "!") + vshow(v); }
    if (x.type == "ovl") return ov_lookup(x.as<OvTable>(), S(o, 0), S(o, 1));
    return read_more ? read_more(c, x, o) : "?";
}
static Op g_rd(Rng& r, Gen& g) {
    return {"rd", {ov_name(r, g), ov_spec(r)}, {static_cast<int64_t>(r.below(8)), static_cast<int64_t>(r.below(64)), static_cast<int64_t>(r.below(ROUTES)), r.chance(0.2) ? static_cast<int64_t>(r.below(1 << 17)) : 0}};
}
static Reg s6("rd", op_rd, g_rd, T_READ | T_ALLOC);

}  // namespace sim
