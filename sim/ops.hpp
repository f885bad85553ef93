// Shared by the operation files: thin typed wrappers around library calls.
#pragma once
#include <locale>
#include <ostream>
#include <streambuf>
#include "harness.hpp"
#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/overload.hpp"
#include "libqasm/result.hpp"
#include "libqasm/string_builder.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/version.hpp"

namespace sim {
using cqasm::annotations::SourceLocation;
using cqasm::error::Error;
using cqasm::version::Version;
namespace tr = cqasm::tree;

#define SUT(expr) ([&]() { ::sim::SutScope s__; return (expr); }())
#define SUTV(stmt) do { ::sim::SutScope s__; stmt; } while (0)

inline const std::string& S(const Op& o, size_t k) { static const std::string e; return k < o.s.size() ? o.s[k] : e; }
inline int64_t I(const Op& o, size_t k) { return k < o.i.size() ? o.i[k] : 0; }
inline uint32_t U(const Op& o, size_t k) { return static_cast<uint32_t>(I(o, k)); }
inline uint64_t M(const Op& o, size_t k, uint64_t m) { return static_cast<uint64_t>(I(o, k)) % m; }

inline void unchanged(const ArenaStr& a, const std::string& v) {
    if (a.s->size() != v.size() || std::string(a.s->data(), a.s->size()) != v) fail("args", "a call changed the text it was given: \"" + clip(v) + "\" became \"" + clip(*a.s) + "\"");
}

// A sink owned by the simulator: keeps what reached it, fails as planned.
struct SimBuf : std::streambuf {
    enum Mode { HEALTHY, FAIL, SHORT, THROW };
    std::string got;
    Mode mode = HEALTHY;
    size_t cap = ~size_t{0};
    bool dead = false;
    int writes = 0;
    struct Broken {};
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        NoSut ns; yield_point(0x51A1);
        ++writes;
        if (n <= 0) return 0;
        if (mode != HEALTHY && dead) return hit(0);
        size_t room = mode == HEALTHY ? static_cast<size_t>(n) : cap > got.size() ? cap - got.size() : 0;
        if (room >= static_cast<size_t>(n)) { got.append(s, static_cast<size_t>(n)); return n; }
        if (mode == SHORT) { got.append(s, room); dead = true; fired(F_SINK_SHORT); return static_cast<std::streamsize>(room); }
        return hit(0);
    }
    int_type overflow(int_type c) override {
        NoSut ns; yield_point(0x51A2);
        ++writes;
        if (c == traits_type::eof()) return traits_type::not_eof(c);
        if (mode == HEALTHY || (!dead && got.size() < cap)) { got += static_cast<char>(c); return c; }
        hit(0);
        return traits_type::eof();
    }
    int sync() override { return mode != HEALTHY && dead ? -1 : 0; }
    std::streamsize hit(std::streamsize r) {
        dead = true;
        if (mode == THROW) { fired(F_SINK_THROW); throw Broken{}; }
        fired(F_SINK_FAIL);
        return r;
    }
};
struct StreamState {               // what a host program would see changed on its stream
    std::ios_base::fmtflags flags; std::streamsize prec; char fill; std::string loc; std::ios_base::iostate exc;
    std::streamsize width;
    explicit StreamState(std::ostream& os) : flags(os.flags()), prec(os.precision()), fill(os.fill()), loc(os.getloc().name()), exc(os.exceptions()), width(os.width()) {}
    bool same(const StreamState& o) const { return flags == o.flags && prec == o.prec && fill == o.fill && loc == o.loc && exc == o.exc && (o.width == width || o.width == 0); }   // o: later; a width may have been used up
};
void apply_fmt_state(std::ostream&, int64_t bits);   // sets flags, fill and precision from a number (never width)

// Harness-own nodes for overload tables
struct Ty { int id; };
struct Val { int ty; int payload; };
tr::One<Val> promote(const tr::One<Val>& v, const tr::One<Ty>& t);
bool can_promote(int from, int to);
struct OvTag { std::string s; };
struct OvTable final : cqasm::overload::OverloadedNameResolver<OvTag, Ty, Val> {};

struct LocSpec { bool has = false; std::string name; uint32_t l1 = 0, c1 = 0, l2 = 0, c2 = 0; int64_t hand = 0; };   // hand: fields the owner assigned directly
inline LocSpec loc_spec(const Op& o, size_t s, size_t i, int64_t hand = 0) { return {(I(o, i) & 1) != 0, S(o, s), U(o, i + 1), U(o, i + 2), U(o, i + 3), U(o, i + 4), hand}; }
Obj make_loc(const LocSpec&);
Obj make_err(const Op&, size_t s, size_t i, int64_t hand = 0);          // kinds of construction: see ops_core.cpp
Obj make_annotated(bool with_loc, const LocSpec&);
std::string model_loc(const LocSpec&);                 // independent rendering
std::string model_err(const std::string& msg, bool has_loc, const LocSpec&);
std::string render_loc(const SourceLocation&, int route, int64_t state);
std::string render_err(const Error&, int route, int64_t state);
std::string ov_show(const std::pair<OvTag, tr::Any<Val>>&);
std::string ov_lookup(OvTable&, const std::string& name, const std::string& args);
tr::Any<Ty> ov_types(const std::string& spec);
std::string ov_name(Rng&, Gen&);
std::string ov_spec(Rng&, size_t maxn = 4);
std::vector<int64_t> gen_loc(Rng&, Gen&);

// JSON decoding that keeps every byte
struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false; std::string num, str;
    std::vector<J> arr; std::vector<std::pair<std::string, J>> obj;
    const J* get(const std::string& k) const { const J* r = nullptr; for (auto& p : obj) if (p.first == k) r = &p.second; return r; }
};
bool json_parse(const std::string& text, J& out, std::string& err);
bool url_decode(const std::string&, std::string& out, std::string& err);

}  // namespace sim
