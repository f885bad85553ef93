#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
namespace sim {
std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static std::string unhex(const std::string& s) {
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
// Printable ASCII strings are written as "t:<text>" (no quote or backslash), others as "x:<hex>".
static std::string enc(const std::string& s) {
    for (unsigned char c : s) if (c < 0x20 || c > 0x7e || c == '"' || c == '\\') return "\"x:" + hex(s) + "\"";
    return "\"t:" + s + "\"";
}
static std::string opj(const Op& o) {
    std::string r = "{\"k\":\"" + o.k + "\",\"s\":[";
    for (size_t j = 0; j < o.s.size(); ++j) { if (j) r += ','; r += enc(o.s[j]); }
    r += "],\"i\":[";
    for (size_t j = 0; j < o.i.size(); ++j) { if (j) r += ','; r += std::to_string(o.i[j]); }
    return r + "]}";
}
std::string plan_to_json(const Plan& p) {
    std::string r = "{\"check\":\"" + p.check + "\",\n\"seed\":\"" + std::to_string(p.seed) + "\",\n\"setup\":[";
    for (size_t j = 0; j < p.setup.size(); ++j) { if (j) r += ",\n  "; r += opj(p.setup[j]); }
    r += "],\n\"threads\":[";
    for (size_t t = 0; t < p.threads.size(); ++t) {
        if (t) r += ",\n ";
        r += "[";
        for (size_t j = 0; j < p.threads[t].size(); ++j) { if (j) r += ",\n  "; r += opj(p.threads[t][j]); }
        r += "]";
    }
    r += "],\n\"faults\":[";
    for (size_t j = 0; j < p.faults.size(); ++j) {
        auto& f = p.faults[j];
        if (j) r += ",\n  ";
        r += "{\"k\":\"" + f.k + "\",\"th\":" + std::to_string(f.th) + ",\"op\":" + std::to_string(f.op) + ",\"n\":" +
             std::to_string(f.n) + ",\"a\":" + std::to_string(f.a) + "}";
    }
    r += "],\n\"sched\":[";
    for (size_t j = 0; j < p.sched.size(); ++j) {
        if (j) r += ",";
        r += "[" + std::to_string(p.sched[j].ev) + "," + std::to_string(p.sched[j].to) + "]";
    }
    r += "],\n\"env\":{";
    bool first = true;
    for (auto& [k, v] : p.env) { if (!first) r += ","; first = false; r += "\"" + k + "\":" + std::to_string(v); }
    return r + "}}\n";
}

namespace {
struct J {
    char t = 0;  // o a s n
    std::string s;
    int64_t n = 0;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J* get(const char* k) const { for (auto& [kk, v] : o) if (kk == k) return &v; return nullptr; }
};
struct Ps {
    const std::string& d; size_t p = 0; bool bad = false;
    void ws() { while (p < d.size() && (d[p] == ' ' || d[p] == '\n' || d[p] == '\t' || d[p] == '\r')) ++p; }
    J val() {
        ws(); J j;
        if (p >= d.size()) { bad = true; return j; }
        if (d[p] == '{') {
            j.t = 'o'; ++p; ws();
            if (p < d.size() && d[p] == '}') { ++p; return j; }
            while (!bad) {
                J k = val(); ws(); if (k.t != 's' || p >= d.size() || d[p] != ':') { bad = true; break; }
                ++p; j.o.emplace_back(k.s, val()); ws();
                if (p < d.size() && d[p] == ',') { ++p; continue; }
                if (p < d.size() && d[p] == '}') { ++p; break; }
                bad = true;
            }
        } else if (d[p] == '[') {
            j.t = 'a'; ++p; ws();
            if (p < d.size() && d[p] == ']') { ++p; return j; }
            while (!bad) {
                j.a.push_back(val()); ws();
                if (p < d.size() && d[p] == ',') { ++p; continue; }
                if (p < d.size() && d[p] == ']') { ++p; break; }
                bad = true;
            }
        } else if (d[p] == '"') {
            j.t = 's'; ++p;
            while (p < d.size() && d[p] != '"') { if (d[p] == '\\') ++p; j.s += d[p++]; }
            ++p;
        } else {
            j.t = 'n'; char* e; j.n = strtoll(d.c_str() + p, &e, 10);
            size_t np = static_cast<size_t>(e - d.c_str());
            if (np == p) { bad = true; ++p; } else p = np;
        }
        return j;
    }
};
Op op_of(const J& j) {
    Op o;
    if (auto k = j.get("k")) o.k = k->s;
    if (auto s = j.get("s")) for (auto& e : s->a) o.s.push_back(e.s.substr(0, 2) == "x:" ? unhex(e.s.substr(2)) : e.s.substr(2));
    if (auto s = j.get("i")) for (auto& e : s->a) o.i.push_back(e.n);
    return o;
}
}  // namespace
bool plan_from_json(const std::string& text, Plan& p, std::string& err) {
    Ps ps{text};
    J j = ps.val();
    if (ps.bad || j.t != 'o') { err = "malformed plan near offset " + std::to_string(ps.p); return false; }
    if (auto x = j.get("check")) p.check = x->s;
    if (auto x = j.get("seed")) p.seed = strtoull(x->s.c_str(), nullptr, 10);
    if (auto x = j.get("setup")) for (auto& e : x->a) p.setup.push_back(op_of(e));
    if (auto x = j.get("threads")) for (auto& t : x->a) { p.threads.emplace_back(); for (auto& e : t.a) p.threads.back().push_back(op_of(e)); }
    if (auto x = j.get("faults")) for (auto& e : x->a) {
        Fault f; f.k = e.get("k")->s; f.th = static_cast<int>(e.get("th")->n); f.op = static_cast<int>(e.get("op")->n);
        f.n = e.get("n")->n; f.a = e.get("a")->n; p.faults.push_back(f);
    }
    if (auto x = j.get("sched")) for (auto& e : x->a) p.sched.push_back({static_cast<uint64_t>(e.a.at(0).n), static_cast<int>(e.a.at(1).n)});
    if (auto x = j.get("env")) for (auto& [k, v] : x->o) p.env[k] = v.n;
    return true;
}
}  // namespace sim
