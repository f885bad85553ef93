#include "harness.hpp"
#include <cxxabi.h>
#include <cstring>
#include <ios>
#include <new>
#include <typeinfo>
#include <exception>
#include <algorithm>
#include <cstdlib>

namespace sim {
std::vector<OpInfo>& registry() { static std::vector<OpInfo> r; return r; }
std::vector<Check>& checks() { static std::vector<Check> r; return r; }
const OpInfo* find_op(const std::string& k) { for (auto& o : registry()) if (k == o.kind) return &o; return nullptr; }

const Check* find_check(const std::string& k) { for (auto& c : checks()) if (k == c.id) return &c; return nullptr; }
std::string clip(const std::string& s, size_t n) {
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > n) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += static_cast<char>(c);
    }
    return r;
}
std::string show(const Op& o) {
    std::string r = o.k + "(";
    bool f = true;
    for (auto& s : o.s) { if (!f) r += ", "; f = false; r += "\"" + clip(s, 60) + "\""; }
    for (auto i : o.i) { if (!f) r += ", "; f = false; r += std::to_string(i); }
    return r + ")";
}
static std::string tname(const std::type_info* t) {
    if (!t) return "?";
    int st; char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
    std::string r = d ? d : t->name(); free(d); return r;
}
std::string run_op(Ctx& c, const Op& op) {
    auto* info = find_op(op.k);
    if (!info) harness_error("unknown operation '" + op.k + "'");
    int saved = tl.in_sut; int wh = shm ? shm->where : 0;
    std::string r;
    try {
        r = "ok:" + info->fn(c, op);
    } catch (const CheckFail&) {
        tl.in_sut = saved; if (shm) shm->where = wh;
        throw;
    } catch (const std::bad_alloc& e) {
        tl.in_sut = saved;
        r = "oom";
    } catch (const std::ios_base::failure& e) {   // how streams report exhaustion of memory to those who format through them
        tl.in_sut = saved;
        r = tl.op_oom ? "oom" : std::string("exc:stream failure:") + e.what();
    } catch (const std::exception& e) {
        tl.in_sut = 0;
        r = "exc:" + tname(abi::__cxa_current_exception_type()) + ":" + e.what();
        tl.in_sut = saved;
    } catch (...) {
        tl.in_sut = saved;
        r = "exc:?:" + tname(abi::__cxa_current_exception_type());
    }
    tl.in_sut = saved; if (shm) shm->where = wh;
    return r;
}

size_t Gen::len(Rng& r, size_t maxlen) {
    if (!maxlen) maxlen = max_len;
    size_t n;
    switch (r.below(10)) {
        case 0: case 1: case 2: n = r.below(9); break;
        case 3: case 4: n = r.below(40); break;
        case 5: case 6: n = r.logu(700); break;
        case 7: n = r.logu(6000); break;
        case 8: n = ints.empty() ? r.below(300) : static_cast<size_t>(r.pick(ints) + r.below(3) - 1); break;
        default: n = r.chance(0.15) ? r.logu(maxlen) : (size_t{1} << r.below(13)) + r.below(3) - 1; break;
    }
    return n > maxlen ? (n % (maxlen + 1)) : n;
}
static const char* utf8_samples[] = {"\xc3\xa9", "\xce\xb1", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xc2\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xff", "\x80", "\xe2\x82"};
std::string Gen::bytes(Rng& r, size_t maxlen) {
    std::string s;
    if (!pool.empty() && r.chance(0.25)) {
        s = r.pick(pool);
        if (maxlen && s.size() > maxlen) s.resize(maxlen);
        if (r.chance(0.7)) s = corrupt(r, s);
    } else {
        size_t n = len(r, maxlen);
        int mode = static_cast<int>(r.below(10));
        static const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
        static const char special[] = "\"\\/\x01\x1f\x20\x7f\x80\xff-_.~%\n\t\r' {}<>:;,+=&?#@[]^`|";
        if (r.chance(0.12) && n) {   // a run of one character, with at most a few others
            s.assign(n, r.chance(0.5) ? special[r.below(sizeof special - 1)] : static_cast<char>(r.below(256)));
            for (int k = static_cast<int>(r.below(3)); k > 0; --k) s[r.below(n)] = static_cast<char>(r.below(256));
        } else while (s.size() < n) {
            switch (mode) {
                case 0: s += static_cast<char>(r.below(256)); break;
                case 1: case 2: s += letters[r.below(52)]; break;
                case 3: s += special[r.below(sizeof special - 1)]; break;
                case 4: s += static_cast<char>(r.below(32)); break;
                case 5: s += static_cast<char>(128 + r.below(128)); break;
                case 6: s += utf8_samples[r.below(sizeof utf8_samples / sizeof *utf8_samples)]; break;
                case 7: if (!strs.empty() && r.chance(0.3)) s += r.pick(strs); else s += static_cast<char>(0x20 + r.below(95)); break;
                default: s += r.chance(0.8) ? letters[r.below(52)] : r.chance(0.5) ? special[r.below(sizeof special - 1)] : static_cast<char>(r.below(256));
            }
        }
        if (s.size() > n && mode != 6) s.resize(n);
    }
    if (pool.size() < 24) pool.push_back(s); else if (s.size() < 3000) pool[r.below(pool.size())] = s;
    return s;
}
std::string Gen::name(Rng& r) {
    if (!strs.empty() && r.chance(0.2)) return r.pick(strs);
    static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    std::string s; size_t n = 1 + r.logu(40);
    for (size_t i = 0; i < n; ++i) s += a[r.below(i ? 63 : 53)];
    return s;
}
std::string Gen::fname(Rng& r) {
    switch (r.below(6)) {
        case 0: return "input.cq";
        case 1: return name(r) + ".cq";
        case 2: return "/home/user/my dir/" + name(r) + "/" + name(r) + ".cq";
        case 3: return "C:\\my dir\\" + name(r) + ".cq";
        default: return bytes(r, 400);
    }
}
int64_t Gen::u32(Rng& r) {
    switch (r.below(8)) {
        case 0: return static_cast<int64_t>(r.below(4));
        case 1: return static_cast<int64_t>(r.below(20));
        case 2: { static const uint32_t b[] = {0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 999999, 1000000, 2147483647u, 2147483648u, 4294967294u, 4294967295u}; return b[r.below(20)]; }
        case 3: if (!ints.empty()) return static_cast<int64_t>((r.pick(ints) + r.below(3) - 1) & 0xffffffffu); [[fallthrough]];
        case 4: return static_cast<int64_t>((uint64_t{1} << r.below(33)) + r.below(3) - 1) & 0xffffffff;
        default: return static_cast<int64_t>(r.logu(0xffffffffull));
    }
}
std::string Gen::corrupt(Rng& r, std::string s) {
    int n = 1 + static_cast<int>(r.below(3));
    while (n-- > 0) {
        switch (r.below(7)) {
            case 0: if (!s.empty()) { s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8)); ++faults[F_FLIP]; } break;
            case 1: if (!s.empty()) { s.resize(r.below(s.size())); ++faults[F_CUT]; } break;
            case 2: if (!s.empty()) { size_t a = r.below(s.size()), l = 1 + r.logu(s.size() - a); s.insert(r.below(s.size()), s.substr(a, l)); ++faults[F_DUP]; } break;
            case 3: if (!pool.empty()) { auto& o = r.pick(pool); size_t a = r.below(s.size() + 1), b = r.below(o.size() + 1); s = s.substr(0, a) + o.substr(b); ++faults[F_SPLICE]; } break;
            case 4: if (s.size() > 1) { size_t a = r.below(s.size()), l = 1 + r.logu(s.size() - a); std::fill(s.begin() + static_cast<long>(a), s.begin() + static_cast<long>(std::min(s.size(), a + l)), static_cast<char>(r.chance(0.5) ? 0 : r.below(256))); ++faults[F_TORN]; } break;
            case 5: if (!s.empty()) { s[r.below(s.size())] = static_cast<char>(r.below(256)); ++faults[F_FLIP]; } break;
            default: if (s.size() > 2) { size_t a = r.below(s.size()), b = r.below(s.size()); std::swap(s[a], s[b]); ++faults[F_REORDER]; } break;
        }
        if (s.size() > max_len) s.resize(max_len);
    }
    return s;
}
}  // namespace sim
