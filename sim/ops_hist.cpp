// Histories: long-lived objects driven through a sequence of operations beside a small reference model.
// Compiled like the code under test.
#include "ops.hpp"
#include <cstring>
#include <sstream>

namespace sim {
using namespace cqasm;

namespace {
bool is_prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }
struct Cmd { int64_t c, a, b, x, y; };
Cmd cmd(const Op& o, size_t k) { return {I(o, 5 * k), I(o, 5 * k + 1), I(o, 5 * k + 2), I(o, 5 * k + 3), I(o, 5 * k + 4)}; }
size_t ncmd(const Op& o) { return o.i.size() / 5; }
std::string where(size_t k, const char* what) { return "step " + std::to_string(k) + " (" + what + "): "; }
std::string no_zero(std::string s) { for (auto& c : s) if (!c) c = '0'; return s; }   // what() is a C string
// Runs one library call that may run out of memory. Returns false if it did.
template <class F> bool attempt(F&& f) {
    int saved = tl.in_sut; int wh = shm ? shm->where : 0;
    try { SutScope s; f(); return true; } catch (const std::bad_alloc&) { tl.in_sut = saved; if (shm) shm->where = wh; return false; }
    catch (const std::ios_base::failure&) { tl.in_sut = saved; if (shm) shm->where = wh; if (!tl.op_oom) throw; return false; }
}
}  // namespace

// ---------------------------------------------------------------- errors over their life
namespace {
struct EModel { std::string msg; bool has = false; LocSpec loc; };
std::string arena_free_text(const char* p) { NoSut n; return std::string(p); }
void same_text(size_t k, const char* what, const std::string& got, const EModel& m) {
    std::string want = model_err(m.msg, m.has, m.loc);
    if (got != want) fail("text", where(k, what) + "the error says \"" + clip(got) + "\" instead of \"" + clip(want) + "\"");
}
void same_json(size_t k, const std::string& text, const EModel& m) {
    J j; std::string err, msg = m.msg.empty() ? "<unknown error message>" : m.msg;
    if (!json_parse(text, j, err)) fail("json", where(k, "to_json") + err + " in " + clip(text, 300));
    const J* mm = j.get("message");
    if (!mm || mm->t != J::STR || mm->str != msg) fail("json", where(k, "to_json") + "the message in the JSON form is not \"" + clip(msg) + "\": " + clip(text, 300));
    const J* rg = j.get("range");
    auto num = [&](const char* a, const char* b) -> std::string { const J* x = rg ? rg->get(a) : nullptr; x = x ? x->get(b) : nullptr; return x && x->t == J::NUM ? x->num : "?"; };
    uint32_t l2 = m.loc.l2, c2 = m.loc.c2;
    if (l2 < m.loc.l1 || (l2 == m.loc.l1 && c2 < m.loc.c1)) { l2 = m.loc.l1; c2 = m.loc.c1; }
    auto w = [&](uint32_t v) { return std::to_string(m.has ? v : 0); };
    if (num("start", "line") != w(m.loc.l1) || num("start", "character") != w(m.loc.c1) || num("end", "line") != w(l2) || num("end", "character") != w(c2))
        fail("json", where(k, "to_json") + "the range in the JSON form is not that of the error: " + clip(text, 300));
}
}  // namespace
// commands: 0 make, 1 copy construct, 2 copy assign, 3 move, 4 throw and catch, 5 context, 6 what, 7 stream, 8 to_json, 9 drop, 10 hold text, 11 slice via std::exception, 12 fmt
static std::string op_errhist(Ctx&, const Op& o) {
    constexpr size_t N = 4;
    Obj obj[N]; EModel mod[N];
    std::vector<std::string> texts;
    for (auto& s : o.s) texts.push_back(no_zero(s));
    auto msg = [&](int64_t v) -> const std::string& { static const std::string e; return texts.empty() ? e : texts[static_cast<uint64_t>(v) % texts.size()]; };
    size_t done = 0, oom = 0;
    for (size_t k = 0; k < ncmd(o); ++k) {
        Cmd c = cmd(o, k);
        size_t a = static_cast<uint64_t>(c.a) % N, b = static_cast<uint64_t>(c.b) % N;
        switch (static_cast<uint64_t>(c.c) % 13) {
            case 0: {
                EModel m; m.msg = msg(c.x);
                m.loc = {true, msg(c.y), static_cast<uint32_t>(c.b), static_cast<uint32_t>(c.x & 255), static_cast<uint32_t>(c.b + c.y % 3), static_cast<uint32_t>(c.y & 127)};
                if (c.y % 5 == 0) m.loc.has = false;
                int64_t kind = static_cast<int64_t>(static_cast<uint64_t>(c.x) % 6);
                m.has = kind == 1 || kind == 3 || kind == 4;
                Op e{"", {m.msg, m.loc.name}, {kind, m.loc.has, m.loc.l1, m.loc.c1, m.loc.l2, m.loc.c2}};
                Obj n;
                try { n = make_err(e, 0, 0); } catch (const std::bad_alloc&) { tl.in_sut = 0; ++oom; break; }
                obj[a] = std::move(n); mod[a] = m; ++done;
                break;
            }
            case 1: if (obj[b].p && a != b) {
                Obj n; n.type = "err"; n.del = [](void* q) { delete static_cast<Error*>(q); };
                if (attempt([&] { n.p = new Error(static_cast<const Error&>(obj[b].as<Error>())); })) { obj[a] = std::move(n); mod[a] = mod[b]; ++done; } else ++oom;
                break;
            } break;
            case 2: if (obj[a].p && obj[b].p) {
                EModel old = mod[a];
                if (attempt([&] { obj[a].as<Error>() = static_cast<const Error&>(obj[b].as<Error>()); })) { mod[a] = mod[b]; ++done; }
                else { ++oom; mod[a] = old; }
                break;
            } break;
            case 3: if (obj[b].p && a != b) {
                Obj n; n.type = "err"; n.del = [](void* q) { delete static_cast<Error*>(q); };
                if (attempt([&] { n.p = new Error(std::move(obj[b].as<Error>())); })) { obj[a] = std::move(n); mod[a] = mod[b]; obj[b].reset(); ++done; } else { ++oom; }
                break;
            } break;
            case 4: if (obj[a].p) {
                std::string t; bool ok = true;
                try { SutScope s; throw Error(static_cast<const Error&>(obj[a].as<Error>())); }
                catch (const Error& e) { const char* w; { SutScope s; w = e.what(); } t = arena_free_text(w); }
                catch (const std::bad_alloc&) { tl.in_sut = 0; ok = false; ++oom; }
                tl.in_sut = 0;
                if (ok) { same_text(k, "rethrown copy", t, mod[a]); ++done; }
                break;
            } break;
            case 5: if (obj[a].p) {
                LocSpec l{c.y % 4 != 0, msg(c.y), static_cast<uint32_t>(c.x), static_cast<uint32_t>(c.y & 63), static_cast<uint32_t>(c.x), static_cast<uint32_t>(c.y & 255)};
                bool with = c.b % 3 != 0;
                Obj n;
                try { n = make_annotated(with, l); } catch (const std::bad_alloc&) { tl.in_sut = 0; break; }
                if (attempt([&] { obj[a].as<Error>().context(n.as<tr::Annotatable>()); })) { if (!mod[a].has && with) { mod[a].has = true; mod[a].loc = l; } ++done; }
                else {
                    ++oom;   // a context that ran out of memory either happened or did not
                    const char* w; { SutScope s; w = obj[a].as<Error>().what(); }
                    std::string t = arena_free_text(w);
                    EModel n2 = mod[a]; if (!n2.has && with) { n2.has = true; n2.loc = l; }
                    if (t != model_err(mod[a].msg, mod[a].has, mod[a].loc)) { if (t == model_err(n2.msg, n2.has, n2.loc)) mod[a] = n2; else same_text(k, "failed context", t, mod[a]); }
                }
                break;
            } break;
            case 6: case 11: if (obj[a].p) {
                const char* w; { SutScope s; w = static_cast<uint64_t>(c.c) % 13 == 6 ? obj[a].as<Error>().what() : static_cast<const std::exception&>(obj[a].as<Error>()).what(); }
                same_text(k, "what", arena_free_text(w), mod[a]); ++done;
            } break;
            case 7: if (obj[a].p) {
                SimBuf sb; std::ostream os(&sb);
                if (attempt([&] { os << static_cast<const Error&>(obj[a].as<Error>()); }) && os.good()) { same_text(k, "stream", sb.got, mod[a]); ++done; } else ++oom;
                break;
            } break;
            case 12: if (obj[a].p) {
                std::string t; bool ok = attempt([&] { std::string r = fmt::format("{}", static_cast<const Error&>(obj[a].as<Error>())); NoSut n; t.assign(r.data(), r.size()); });
                if (ok) { same_text(k, "fmt", t, mod[a]); ++done; } else ++oom;
                break;
            } break;
            case 8: if (obj[a].p) {
                std::string t; bool ok = attempt([&] { std::string r = obj[a].as<Error>().to_json(); NoSut n; t.assign(r.data(), r.size()); });
                if (ok) { same_json(k, t, mod[a]); ++done; } else ++oom;
                break;
            } break;
            case 9: obj[a].reset(); break;
            case 10: if (obj[a].p) {   // the text stays readable and the same while others read the error
                const char* w; std::string t;
                { SutScope s; w = obj[a].as<Error>().what(); }
                yield_point(0x77);
                attempt([&] { SutScope s; (void)obj[a].as<Error>().what(); (void)obj[a].as<Error>().to_json(); });
                Obj tmp; attempt([&] { tmp.p = new Error(static_cast<const Error&>(obj[a].as<Error>())); });
                tmp.del = [](void* q) { delete static_cast<Error*>(q); };
                { SutScope s; size_t n = strlen(w); std::string u; { ArenaScope ar; u.assign(w, n); } NoSut ns; t.assign(u.data(), u.size()); ArenaScope ar; std::string().swap(u); }
                same_text(k, "text held by a reader", t, mod[a]); ++done;
            } break;
        }
    }
    for (size_t a = 0; a < N; ++a) if (obj[a].p) {
        const char* w; { SutScope s; w = obj[a].as<Error>().what(); }
        same_text(ncmd(o), "at the end", arena_free_text(w), mod[a]);
        Calm calm;
        std::string j; attempt([&] { std::string r = obj[a].as<Error>().to_json(); NoSut n; j.assign(r.data(), r.size()); });
        same_json(ncmd(o), j, mod[a]);
    }
    return std::to_string(done) + " done";
}
static Op g_errhist(Rng& r, Gen& g) {
    Op o{"errhist", {}, {}};
    auto clean = [](std::string s) { for (auto& c : s) if (!c) c = '0'; return s; };   // what() is a C string
    for (size_t n = 1 + r.below(4); n > 0; --n) o.s.push_back(r.chance(0.15) ? std::string() : clean(r.chance(0.3) ? g.name(r) : g.bytes(r, r.chance(0.1) ? 3000 : 80)));
    size_t n = 2 + r.below(14);
    for (size_t k = 0; k < n; ++k) {
        int64_t c = k == 0 ? 0 : r.chance(0.2) ? 0 : static_cast<int64_t>(r.below(13));
        int64_t v[5] = {c, static_cast<int64_t>(r.below(4)), c == 0 ? g.u32(r) : static_cast<int64_t>(r.below(4)), static_cast<int64_t>(r.below(1000)), static_cast<int64_t>(r.below(1000))};
        o.i.insert(o.i.end(), v, v + 5);
    }
    return o;
}
static Reg h1("errhist", op_errhist, g_errhist, T_HIST | T_ERR);

// ---------------------------------------------------------------- locations growing
namespace {
struct P { uint32_t l, c; bool operator<(const P& o) const { return l < o.l || (l == o.l && c < o.c); } bool operator==(const P& o) const { return l == o.l && c == o.c; } };
struct LModel { bool has = false; std::string name; P f{0, 0}, t{0, 0}; };
}
static void same_loc(size_t k, const char* what, const SourceLocation& l, const LModel& m) {
    NoSut n;
    std::string got = l.file_name ? std::string(l.file_name->data(), l.file_name->size()) : "";
    auto s = [](P p) { return std::to_string(p.l) + ":" + std::to_string(p.c); };
    P f{l.range.first.line, l.range.first.column}, t{l.range.last.line, l.range.last.column};
    if (l.file_name.has_value() != m.has || (m.has && got != m.name)) fail("file", where(k, what) + "the file name is " + (l.file_name ? "\"" + clip(got) + "\"" : "absent") + ", not " + (m.has ? "\"" + clip(m.name) + "\"" : "absent"));
    if (t < f) fail("inverted", where(k, what) + "the range ends before it starts: " + s(f) + ".." + s(t));
    if (!(f == m.f) || !(t == m.t)) fail("range", where(k, what) + "the range is " + s(f) + ".." + s(t) + " instead of " + s(m.f) + ".." + s(m.t));
}
// commands: 0 make, 1 grow, 2 copy, 3 move, 4 assign, 5 compare positions, 6 grow by another's ends, 7 range from two positions, 8 render
static std::string op_lochist(Ctx&, const Op& o) {
    constexpr size_t N = 4;
    Obj obj[N]; LModel mod[N];
    auto nm = [&](int64_t v) -> const std::string& { static const std::string e; return o.s.empty() ? e : o.s[static_cast<uint64_t>(v) % o.s.size()]; };
    std::string log;
    for (size_t k = 0; k < ncmd(o); ++k) {
        Cmd c = cmd(o, k);
        size_t a = static_cast<uint64_t>(c.a) % N, b = static_cast<uint64_t>(c.b) % N;
        uint32_t x = static_cast<uint32_t>(c.x), y = static_cast<uint32_t>(c.y);
        const char* what = "";
        switch (static_cast<uint64_t>(c.c) % 9) {
            case 0: {
                what = "construction";
                LocSpec l{c.b % 5 != 0, nm(c.b), x, y, static_cast<uint32_t>(c.x + c.b % 3 - 1), static_cast<uint32_t>(c.y ^ (c.b & 255))};
                Obj n;
                try { n = make_loc(l); } catch (const std::bad_alloc&) { tl.in_sut = 0; break; }
                LModel m; m.has = l.has && !l.name.empty(); m.name = l.name; m.f = {l.l1, l.c1}; m.t = std::max(m.f, P{l.l2, l.c2});
                obj[a] = std::move(n); mod[a] = m;
                break;
            }
            case 1: if (obj[a].p) {
                what = "growth";
                SUTV((obj[a].as<SourceLocation>().expand_to_include(SourceLocation::Index{x, y})));
                mod[a].f = std::min(mod[a].f, P{x, y}); mod[a].t = std::max(mod[a].t, P{x, y});
            } break;
            case 2: if (obj[b].p && a != b) {
                what = "copy";
                Obj n; n.type = "loc"; n.del = [](void* q) { delete static_cast<SourceLocation*>(q); };
                if (attempt([&] { n.p = new SourceLocation(static_cast<const SourceLocation&>(obj[b].as<SourceLocation>())); })) { obj[a] = std::move(n); mod[a] = mod[b]; }
            } break;
            case 3: if (obj[b].p && a != b) {
                what = "move";
                Obj n; n.type = "loc"; n.del = [](void* q) { delete static_cast<SourceLocation*>(q); };
                if (attempt([&] { n.p = new SourceLocation(std::move(obj[b].as<SourceLocation>())); })) { obj[a] = std::move(n); mod[a] = mod[b]; obj[b].reset(); }
            } break;
            case 4: if (obj[a].p && obj[b].p) {
                what = "assignment";
                if (attempt([&] { obj[a].as<SourceLocation>() = static_cast<const SourceLocation&>(obj[b].as<SourceLocation>()); })) mod[a] = mod[b]; else obj[a].reset();
            } break;
            case 5: {
                what = "comparison";
                SourceLocation::Index p{x, y}, q{static_cast<uint32_t>(c.b), static_cast<uint32_t>(c.a)};
                if (c.a & 1) q.line = x;
                P mp{p.line, p.column}, mq{q.line, q.column};
                bool lt = SUT(p < q), eq = SUT(p == q), gt = SUT(p > q), le = SUT(p <= q), ge = SUT(p >= q), ne = SUT(p != q);
                if (lt != (mp < mq) || gt != (mq < mp) || eq != (mp == mq) || le == (mq < mp) || ge == (mp < mq) || ne == (mp == mq))
                    fail("order", where(k, what) + "positions " + std::to_string(p.line) + ":" + std::to_string(p.column) + " and " + std::to_string(q.line) + ":" + std::to_string(q.column) + " do not compare by line, then by column");
                break;
            }
            case 6: if (obj[a].p && obj[b].p) {
                what = "growth by another location";
                auto r = obj[b].as<SourceLocation>().range;
                SUTV(obj[a].as<SourceLocation>().expand_to_include(r.last));
                SUTV(obj[a].as<SourceLocation>().expand_to_include(r.first));
                auto f = mod[b].f, t = mod[b].t;
                mod[a].f = std::min(mod[a].f, f); mod[a].t = std::max(mod[a].t, t);
            } break;
            case 7: {
                what = "range";
                SourceLocation::Index p{x, y}, q{static_cast<uint32_t>(c.b), static_cast<uint32_t>(c.a)};
                if (c.a & 1) q.line = x;
                auto r = SUT(SourceLocation::Range(p, q));
                P f{r.first.line, r.first.column}, t{r.last.line, r.last.column}, mp{p.line, p.column}, mq{q.line, q.column};
                if (!(f == mp) || !(t == std::max(mp, mq))) fail("range", where(k, what) + "a range built from two positions is inverted or does not start and end at them");
                if (obj[a].p) { SUTV(obj[a].as<SourceLocation>().range = r); mod[a].f = f; mod[a].t = t; }
                break;
            }
            default: if (obj[a].p) {
                what = "rendering";
                SimBuf sb; std::ostream os(&sb);
                attempt([&] { os << static_cast<const SourceLocation&>(obj[a].as<SourceLocation>()); });
            } break;
        }
        for (size_t z = 0; z < N; ++z) if (obj[z].p) same_loc(k, what, obj[z].as<SourceLocation>(), mod[z]);
    }
    for (size_t z = 0; z < N; ++z) if (obj[z].p) log += std::to_string(mod[z].f.l) + "." + std::to_string(mod[z].t.l) + ";";
    return log;
}
static Op g_lochist(Rng& r, Gen& g) {
    Op o{"lochist", {}, {}};
    for (size_t n = 1 + r.below(3); n > 0; --n) o.s.push_back(r.chance(0.2) ? std::string() : g.fname(r));
    size_t n = 2 + r.below(12);
    std::vector<std::pair<int64_t, int64_t>> seen;
    for (size_t k = 0; k < n; ++k) {
        int64_t c = k == 0 ? 0 : r.chance(0.15) ? 0 : r.chance(0.4) ? 1 : static_cast<int64_t>(r.below(9));
        int64_t x = g.u32(r), y = g.u32(r);
        if (!seen.empty() && r.chance(0.5)) { auto& p = seen[r.below(seen.size())]; switch (r.below(4)) { case 0: x = p.first; break; case 1: y = p.second; break; case 2: x = p.first; y = p.second; ++g.faults[F_DUP]; break; default: x = p.first + r.range(-1, 1); y = p.second; } }
        seen.push_back({x, y});
        int64_t v[5] = {c, static_cast<int64_t>(r.below(4)), c == 5 || c == 7 ? g.u32(r) : static_cast<int64_t>(r.below(40)), x & 0xffffffff, y & 0xffffffff};
        if (c == 5 || c == 7) v[1] = r.chance(0.5) ? g.u32(r) : (y | 1);
        o.i.insert(o.i.end(), v, v + 5);
    }
    return o;
}
static Reg h2("lochist", op_lochist, g_lochist, T_HIST | T_LOC);

// ---------------------------------------------------------------- overload tables under histories
namespace {
struct Registration { std::string name, spec, tag; };
struct TModel { std::vector<Registration> v; };
std::string model_lookup(const TModel& m, const std::string& name, const std::string& args) {
    bool any = false;
    for (auto it = m.v.rbegin(); it != m.v.rend(); ++it) {
        if (it->name != name) continue;
        any = true;
        if (it->spec.size() != args.size()) continue;
        bool ok = true; std::string r = it->tag + "(";
        for (size_t i = 0; i < args.size(); ++i) {
            int from = args[i] & 7, to = it->spec[i] & 7;
            if (!can_promote(from, to)) { ok = false; break; }
            r += std::to_string(to) + "=" + std::to_string(i + 1) + ",";
        }
        if (ok) return r + ")";
    }
    return any ? "no overload" : "no name";
}
}
// commands: 0 register, 1 look up, 2 copy, 3 move, 4 assign, 5 fresh
static std::string op_tblhist(Ctx&, const Op& o) {
    constexpr size_t N = 3;
    Obj obj[N]; TModel mod[N];
    for (auto& t : obj) { try { t = make_obj<OvTable>("ovl"); } catch (const std::bad_alloc&) { tl.in_sut = 0; } }
    auto nm = [&](int64_t v) -> const std::string& { static const std::string e; return o.s.empty() ? e : o.s[static_cast<uint64_t>(v) % o.s.size()]; };
    size_t done = 0, oom = 0;
    auto probe = [&](size_t k, const char* what, size_t a, const std::string& name, const std::string& args) {
        std::string got;
        try { got = ov_lookup(obj[a].as<OvTable>(), name, args); } catch (const std::bad_alloc&) { tl.in_sut = 0; ++oom; return; }
        std::string want = model_lookup(mod[a], name, args);
        if (got != want) fail("lookup", where(k, what) + "looking up \"" + clip(name) + "\" with argument types \"" + args + "\" in table " + std::to_string(a) + " gives " + clip(got) + " instead of " + clip(want));
        ++done;
    };
    for (size_t k = 0; k < ncmd(o); ++k) {
        Cmd c = cmd(o, k);
        size_t a = static_cast<uint64_t>(c.a) % N, b = static_cast<uint64_t>(c.b) % N;
        if (!obj[a].p) { try { obj[a] = make_obj<OvTable>("ovl"); mod[a] = {}; } catch (const std::bad_alloc&) { tl.in_sut = 0; continue; } }
        switch (static_cast<uint64_t>(c.c) % 6) {
            case 0: {
                std::string name = nm(c.x), spec = nm(c.y), tagtext = "registration number " + std::to_string(k);
                for (auto& ch : spec) ch = static_cast<char>('0' + (ch & 7));
                if (spec.size() > 6) spec.resize(6);
                ArenaStr an(name);
                OvTag tag; tr::Any<Ty> ty;
                struct Drop { OvTag& t; tr::Any<Ty>& v; ~Drop() { ArenaScope a; std::string().swap(t.s); tr::Any<Ty>().get_vec().swap(v.get_vec()); } } d{tag, ty};
                { ArenaScope ar; tag.s.assign(tagtext.data(), tagtext.size()); ty = ov_types(spec); }
                if (attempt([&] { obj[a].as<OvTable>().add_overload(*an, tag, ty); })) { mod[a].v.push_back({name, spec, tagtext}); ++done; probe(k, "registration", a, name, spec); }
                else { ++oom; probe(k, "registration that ran out of memory", a, name, spec); }
                break;
            }
            case 1: { std::string args = nm(c.y); if (args.size() > 6) args.resize(6); for (auto& ch : args) ch = static_cast<char>('0' + (ch & 7)); probe(k, "lookup", a, nm(c.x), args); break; }
            case 2: if (a != b && obj[b].p) {
                Obj n; n.type = "ovl"; n.del = [](void* q) { delete static_cast<OvTable*>(q); };
                if (attempt([&] { n.p = new OvTable(static_cast<const OvTable&>(obj[b].as<OvTable>())); })) { obj[a] = std::move(n); mod[a] = mod[b]; ++done; } else ++oom;
            } break;
            case 3: if (a != b && obj[b].p) {
                Obj n; n.type = "ovl"; n.del = [](void* q) { delete static_cast<OvTable*>(q); };
                if (attempt([&] { n.p = new OvTable(std::move(obj[b].as<OvTable>())); })) { obj[a] = std::move(n); mod[a] = mod[b]; obj[b].reset(); mod[b] = {}; ++done; } else { ++oom; obj[b].reset(); mod[b] = {}; }
            } break;
            case 4: if (a != b && obj[b].p) {
                if (attempt([&] { obj[a].as<OvTable>() = static_cast<const OvTable&>(obj[b].as<OvTable>()); })) { mod[a] = mod[b]; ++done; } else { ++oom; obj[a].reset(); mod[a] = {}; }
            } break;
            default: obj[a].reset(); mod[a] = {}; break;
        }
    }
    for (size_t a = 0; a < N; ++a) if (obj[a].p) for (size_t k = 0; k < mod[a].v.size() && k < 12; ++k) { auto e = mod[a].v[k]; probe(ncmd(o), "at the end", a, e.name, e.spec); }
    return std::to_string(done) + " done";
}
static Op g_tblhist(Rng& r, Gen& g) {
    Op o{"tblhist", {}, {}};
    size_t n = 2 + r.below(5);
    for (size_t k = 0; k < n; ++k) o.s.push_back(r.chance(0.5) ? ov_name(r, g) : ov_spec(r));
    size_t m = 3 + r.below(r.chance(0.1) ? 60 : 16);
    bool one = r.chance(0.5);
    for (size_t k = 0; k < m; ++k) {
        int64_t c = r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : static_cast<int64_t>(r.below(6));
        int64_t v[5] = {c, one ? 0 : static_cast<int64_t>(r.below(3)), static_cast<int64_t>(r.below(3)), static_cast<int64_t>(r.below(n)), static_cast<int64_t>(r.below(n))};
        o.i.insert(o.i.end(), v, v + 5);
    }
    return o;
}
static Reg h3("tblhist", op_tblhist, g_tblhist, T_HIST | T_TABLE);

// ---------------------------------------------------------------- rendering into failing sinks
// s: file, message or version; i: what, loc(5), error kind, fmt state, width, sink mode, capacity, exceptions, again, align
static std::string op_rnd(Ctx&, const Op& o) {
    LocSpec l = loc_spec(o, 0, 1);
    l.name = no_zero(l.name);
    const std::string message = no_zero(S(o, 1));
    Obj obj; std::string want;
    switch (M(o, 0, 3)) {
        case 0: obj = make_loc(l); want = model_loc(l); break;
        case 1: {
            Op e{"", {message, l.name}, {I(o, 6), l.has, l.l1, l.c1, l.l2, l.c2}};
            uint64_t kind = M(o, 6, 6);
            want = model_err(message, kind == 1 || kind == 3 || kind == 4, l);
            obj = make_err(e, 0, 0);
            break;
        }
        default: {
            std::string v; uint32_t part[4] = {l.l1, l.c1, l.l2, l.c2};
            for (size_t k = 0; k <= M(o, 6, 4); ++k) v += (k ? "." : "") + std::to_string(part[k] & 0x7fffffff);
            ArenaStr a(v); obj = make_obj<Version>("ver", *a); want = v;
        }
    }
    auto put = [&](std::ostream& os) {
        SutScope s;
        if (obj.type == "loc") os << static_cast<const SourceLocation&>(obj.as<SourceLocation>());
        else if (obj.type == "err") os << static_cast<const Error&>(obj.as<Error>());
        else os << static_cast<const Version&>(obj.as<Version>());
    };
    size_t width = static_cast<size_t>(M(o, 8, 64));
    int64_t state = I(o, 7);
    auto padded = [&](bool left, char fill) { std::string p(want.size() < width ? width - want.size() : 0, fill); return left ? want + p : p + want; };
    struct Num : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };
    std::locale odd(std::locale::classic(), new Num);
    auto prepare = [&](std::ostream& os) {
        apply_fmt_state(os, state);
        if (M(o, 13, 4) == 1) { os.imbue(odd); fired(F_LOCALE); }
        if (width) os.width(static_cast<std::streamsize>(width));
    };
    // 1. the failing sink
    SimBuf sb; sb.mode = static_cast<SimBuf::Mode>(M(o, 9, 4)); sb.cap = M(o, 10, 4096);
    bool exc = I(o, 11) & 1;
    std::string expect1, expect2;
    {
        std::ostream os(&sb);
        prepare(os);
        if (exc) os.exceptions(std::ios::badbit | std::ios::failbit);
        StreamState before(os);
        bool left = (os.flags() & std::ios::adjustfield) == std::ios::left;
        // a width may pad the whole text, as for any streamable, or be ignored
        expect1 = want; expect2 = padded(left, os.fill());
        int n = 1 + static_cast<int>(I(o, 12) & 1);
        bool threw = false;
        for (int k = 0; k < n; ++k) {
            try { put(os); } catch (const std::ios_base::failure&) { tl.in_sut = 0; threw = true; } catch (const SimBuf::Broken&) { tl.in_sut = 0; threw = true; }
            if (k == 0 && n == 2) { expect1 += want; expect2 += want; }
        }
        std::string bad;
        if (StreamState now(os); !before.same(now)) {
            if (now.flags != before.flags) bad = "format flags"; else if (now.prec != before.prec) bad = "precision"; else if (now.fill != before.fill) bad = "fill character"; else if (now.loc != before.loc) bad = "locale"; else if (now.exc != before.exc) bad = "exception mask"; else bad = "width";
            fail("state", "rendering a " + obj.type + " changed the " + bad + " of the host's stream");
        }
        bool complete = sb.got == expect1 || sb.got == expect2 || (n == 2 && sb.got == expect2.substr(0, expect2.size()));
        if (sb.mode == SimBuf::HEALTHY || !sb.dead) {
            if (!complete) fail("text", "a " + obj.type + " is rendered as \"" + clip(sb.got, 300) + "\" instead of \"" + clip(expect1, 300) + "\"");
            if (!os.good()) fail("state", "the stream reports a failure although its sink took everything");
        } else {
            if (!is_prefix(sb.got, expect1) && !is_prefix(sb.got, expect2)) fail("prefix", "a failing sink received \"" + clip(sb.got, 300) + "\", which is not a prefix of \"" + clip(expect1, 300) + "\"");
            if (!os.bad() && !os.fail()) fail("hidden", "the sink failed after " + std::to_string(sb.got.size()) + " of " + std::to_string(expect1.size()) + " bytes and the stream shows no failure");
            if (exc && !threw) fail("hidden", "the stream is set to raise failures, the sink failed, and nothing was raised");
        }
    }
    // 2. a healthy sink afterwards
    SimBuf s2;
    { std::ostream os(&s2); put(os); if (!os.good()) fail("state", "a healthy stream shows a failure"); }
    if (s2.got != want) fail("text", "after a failing sink, a healthy one received \"" + clip(s2.got, 300) + "\" instead of \"" + clip(want, 300) + "\"");
    for (int route = 1; route < 7; ++route) {
        if (obj.type == "ver") break;
        std::string t = obj.type == "loc" ? render_loc(obj.as<SourceLocation>(), route, state) : render_err(obj.as<Error>(), route, state);
        if (t != want) fail("route", "a " + obj.type + " rendered by route " + std::to_string(route) + " gives \"" + clip(t, 300) + "\" instead of \"" + clip(want, 300) + "\"");
    }
    return want;
}
static Op g_rnd(Rng& r, Gen& g) {
    auto clean = [](std::string s) { for (auto& c : s) if (!c) c = '0'; return s; };
    Op o{"rnd", {clean(r.chance(0.1) ? std::string() : g.fname(r)), clean(r.chance(0.1) ? std::string() : g.bytes(r, 300))}, {r.chance(0.6) ? 0 : static_cast<int64_t>(r.below(3))}};
    auto l = gen_loc(r, g);
    o.i.insert(o.i.end(), l.begin(), l.end());
    o.i.push_back(static_cast<int64_t>(r.below(6)));
    o.i.push_back(r.chance(0.6) ? static_cast<int64_t>(r.below(1 << 17)) : 0);
    o.i.push_back(r.chance(0.2) ? static_cast<int64_t>(r.below(64)) : 0);
    o.i.push_back(static_cast<int64_t>(r.below(4)));
    o.i.push_back(static_cast<int64_t>(r.chance(0.6) ? r.below(40) : r.logu(400)));
    o.i.push_back(static_cast<int64_t>(r.below(2)));
    o.i.push_back(static_cast<int64_t>(r.below(2)));
    o.i.push_back(static_cast<int64_t>(r.below(4)));
    return o;
}
static Reg h4("rnd", op_rnd, g_rnd, T_HIST | T_LOC | T_ENV);

}  // namespace sim
