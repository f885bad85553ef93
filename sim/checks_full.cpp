// Programs for the whole pipeline, and the checks decided on it.
#include "checks.hpp"
#include "pipe.hpp"
#include <algorithm>
#include <cstring>

namespace sim {
bool g_full_linked = true;

// ---------------------------------------------------------------- programs
namespace {
template <size_t N> const char* of(Rng& r, const char* const (&a)[N]) { return a[r.below(N)]; }
const char* const ints[] = {"0", "1", "2", "3", "4", "5", "7", "10", "16", "31", "32", "62", "63", "64", "65", "100", "255", "256", "4095", "65536", "2147483647", "2147483648", "4294967296", "1000000000000", "500000000000000000", "9007199254740993",
                            "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "00", "007", "000000000000000000000000001"};
const char* const floats[] = {"0.0", "1.", ".5", "3.14", "1.5", "2.5e3", "1e5", "1e12", "4.0e15", "1.e18", "1.e-3", ".5e+7", "1.0e308", "1.0e309", "9.9e999", "1.0e-400", "4.9e-324", "0.1", "123456.789", "1.e", "1..2", "0.0000000000000000000000000000000001"};
const char* const consts[] = {"pi", "tau", "eu", "true", "false", "im", "Pi", "nope"};
const char* const bins[] = {"+", "-", "*", "/", "%", "**", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "^^", "||"};
const char* const uns[] = {"-", "+", "~", "!"};
const char* const fns[] = {"sin", "cos", "tan", "sqrt", "exp", "log", "abs", "acos", "asin", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "unknown", "max", "min"};
const char* const g1[] = {"X", "Y", "Z", "H", "I", "S", "T", "Sdag", "Tdag", "X90", "mX90", "Y90", "mY90", "Z90", "mZ90"};
const char* const g2[] = {"CNOT", "CZ", "SWAP"};
const char* const gp1[] = {"Rx", "Ry", "Rz"};
const char* const names[] = {"q", "b", "qq", "bb", "q0", "b_1", "x", "y", "_", "alpha", "measure_", "Q", "a_name_of_twenty_four_ch", "sixteen_letters_"};
const char* const odd[] = {"version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl", "qubit", "bit", "asm", "true", "'''", "(", ")", "[", "]", ";", "\n", ":", ",", ".", "=", "?", "~", "!", "**", "*", "/", "//", "/*", "*/", "\"", "#", "$", "@", "\\",
                           "\r\n", "\t", " ", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "{", "}", "X", "CNOT", "3.0", "q", "q[0]", "0", "1.5", "pi", "\xef\xbb\xbf", "e", "E5", "``", "'", "''", "\xe2\x80\xa8"};
struct Prog {
    Rng& r; Gen& g; std::string s;
    std::vector<std::pair<std::string, int>> q, b;    // declared: name, size (0: single)
    bool sane;
    std::string sep() { return r.chance(0.55) ? "\n" : r.chance(0.5) ? ";" : r.chance(0.4) ? " ; " : r.chance(0.4) ? "\r\n" : r.chance(0.4) ? ";\n\n" : " // note\n"; }
    std::string sp() { return r.chance(0.85) ? " " : r.chance(0.5) ? "" : r.chance(0.5) ? "\t " : " /* c */ "; }
    std::string expr(int d) {
        static const char* const extreme[] = {"1000000000000", "4.0e15", "2", "0.5", "(-3)", "1", "9223372036854775807", "1.0e308", "0", "1.e18", "300000000000", "(-1.0e300)"};
        if (r.chance(0.04)) return std::string(of(r, extreme)) + sp() + (r.chance(0.3) ? "**" : of(r, bins)) + sp() + of(r, extreme);
        if (d <= 0 || r.chance(0.35)) {
            switch (r.below(10)) {
                case 0: case 1: case 2: return sane && r.chance(0.7) ? std::to_string(r.below(12)) : of(r, ints);
                case 3: case 4: return sane && r.chance(0.7) ? std::to_string(r.below(9)) + "." + std::to_string(r.below(99)) : of(r, floats);
                case 5: case 6: return consts[r.below(sane ? 5 : 8)];
                case 7: return "-" + std::string(of(r, ints));
                case 8: return sane ? "pi" : ref(r.chance(0.5));
                default: return "(" + expr(d - 1) + ")";
            }
        }
        switch (r.below(8)) {
            case 0: return std::string(of(r, uns)) + expr(d - 1);
            case 1: return "(" + expr(d - 1) + ")";
            case 2: return std::string(of(r, fns)) + "(" + (r.chance(0.9) ? expr(d - 1) : "") + (r.chance(0.07) ? ", " + expr(d - 1) : "") + ")";
            case 3: return expr(d - 1) + sp() + "?" + sp() + expr(d - 1) + sp() + ":" + sp() + expr(d - 1);
            default: return expr(d - 1) + sp() + of(r, bins) + sp() + expr(d - 1);
        }
    }
    std::string index(int size) {
        auto in = [&]() -> std::string { return std::to_string(size > 0 && r.chance(sane ? 0.95 : 0.7) ? r.below(static_cast<uint64_t>(size)) : r.below(9)); };
        std::string o;
        for (size_t k = 1 + (r.chance(0.3) ? r.below(4) : 0); k > 0; --k) {
            if (!o.empty()) o += ",";
            if (r.chance(0.25)) { auto a = r.below(static_cast<uint64_t>(std::max(size, 1))), b = a + r.below(3); if (size > 0 && b >= static_cast<uint64_t>(size) && sane) b = static_cast<uint64_t>(size) - 1; o += std::to_string(a) + sp() + ":" + sp() + std::to_string(b); }
            else if (!sane && r.chance(0.15)) o += r.chance(0.5) ? expr(2) : expr(1) + ":" + expr(1);
            else if (!sane && r.chance(0.1)) o += r.chance(0.5) ? std::string("0:") + of(r, ints) : std::string(of(r, ints)) + ":" + of(r, ints);
            else o += in();
        }
        return "[" + o + "]";
    }
    std::string ref(bool qubit) {
        auto& v = qubit ? q : b;
        if (v.empty() || (!sane && r.chance(0.1))) return r.chance(0.6) || sane ? std::string(of(r, names)) : std::string(of(r, consts)) + (r.chance(0.5) ? "[0]" : "");
        auto& x = r.pick(v);
        if (x.second && r.chance(0.7)) return x.first + index(x.second);
        if (!x.second && !sane && r.chance(0.2)) return x.first + "[0]";
        return x.first;
    }
    std::string gate(int d) {
        if (d > 0 && r.chance(0.3)) switch (r.below(3)) {
            case 0: return "inv." + gate(d - 1);
            case 1: return "pow(" + expr(r.chance(0.3) ? 2 : 0) + ")." + gate(d - 1);
            default: return "ctrl." + gate(d - 1);
        }
        if (r.chance(0.35)) return std::string(of(r, gp1)) + "(" + expr(2) + ")";
        if (r.chance(0.1)) return "Rn(" + expr(0) + "," + expr(0) + "," + expr(0) + "," + expr(1) + "," + expr(0) + ")";
        if (r.chance(0.08)) return "U(" + expr(0) + "," + expr(1) + "," + expr(0) + ")";
        if (!sane && r.chance(0.22)) { std::string n = r.chance(0.4) ? std::string(names[12 + r.below(2)]) : g.name(r); return r.chance(0.5) ? n : n + "(" + expr(1) + ")"; }
        return of(r, g1);
    }
    std::string arg() { return r.chance(0.6) ? ref(true) : r.chance(0.5) ? ref(false) : r.chance(0.5) ? expr(1) : std::string(of(r, ints)); }
    // any instruction name with any number of parameters and operands
    void any_inst() {
        static const char* const ng[] = {"measure", "reset", "init", "barrier", "wait"};
        size_t k = r.below(10);
        std::string n = k < 2 ? of(r, g1) : k < 3 ? of(r, g2) : k < 4 ? of(r, gp1) : k < 5 ? (r.chance(0.5) ? "CR" : r.chance(0.5) ? "CRk" : r.chance(0.5) ? "Rn" : "U") : k < 9 ? of(r, ng) : of(r, names);
        if (k < 5 && r.chance(0.3)) n = (r.chance(0.3) ? "inv." : r.chance(0.5) ? "pow(2)." : "ctrl.") + n;
        size_t np = r.chance(0.45) ? 0 : r.chance(0.5) ? 1 : r.chance(0.5) ? 3 : r.below(7), na = r.chance(0.6) ? 1 : r.below(4);
        if (n == "measure" ? r.chance(0.8) : r.chance(0.05)) s += ref(false) + " = ";
        s += n;
        if (np || r.chance(0.05)) { s += "("; for (size_t j = 0; j < np; ++j) s += (j ? "," : "") + (r.chance(0.6) ? std::to_string(r.below(4)) : expr(1)); s += ")"; }
        for (size_t j = 0; j < na; ++j) s += (j ? ", " : " ") + (n == "barrier" || r.chance(0.8) ? ref(true) : arg());
    }
    // an instruction, whether or not it has that many parameters
    void counted(size_t np) {
        static const char* const ng[] = {"measure", "reset", "init", "barrier", "wait"};
        static const char* const gp[] = {"Rx", "CR", "CRk", "Rn", "U", "X", "CNOT"};
        std::string n = r.chance(0.8) ? of(r, ng) : of(r, gp), a = r.chance(0.7) ? "(" : "( ";
        if (n == "measure" && r.chance(0.9)) s += ref(false) + " = ";
        s += n;
        for (size_t j = 0; j < np; ++j) { s += j ? "," : a; s += r.chance(0.6) ? std::to_string(r.below(4)) : r.chance(0.5) ? "0.5" : expr(1); }
        if (np) s += ")";
        s += " " + ref(true);
        if (n == "CNOT" || n == "CR" || n == "CRk") s += ", " + ref(true);
    }
    // indices of all sizes, of qubits and of bits
    std::string ranges() {
        if (g.max_len >= 300 && r.chance(0.12)) {   // a few bytes that stand for very many indices
            uint64_t n = 20000 + r.below(160000), from = r.below(4), to = n - 1 - r.below(3); std::string N = std::to_string(n), x = "[" + std::to_string(from) + ":" + std::to_string(to) + "]";
            return "version 3.0;qubit[" + N + "] q;" + (r.chance(0.7) ? (r.chance(0.7) ? "X q" : "barrier q") + x : "bit[" + N + "] b;b" + (r.chance(0.3) ? x + " = measure q" : " = measure q" + x));
        }
        s = "version 3.0;"; decl(true); s += ";"; decl(false);
        auto& v = r.chance(0.5) ? q[0] : b[0];
        auto end = [&] { return r.chance(0.5) ? std::string(of(r, ints)) : r.chance(0.2) ? "-" + std::string(of(r, ints)) : std::to_string(r.below(v.second ? static_cast<uint64_t>(v.second) + 2 : 3)); };
        std::string x;
        for (size_t k = 1 + (r.chance(0.3) ? r.below(3) : 0); k > 0; --k) { if (!x.empty()) x += ","; x += end(); if (r.chance(0.8)) x += ":" + end(); }
        s += r.chance(0.3) ? ";X q;" : ";";
        if (&v == &q[0]) s += (r.chance(0.5) ? "X " : r.chance(0.5) ? "barrier " : b[0].first + " = measure ") + v.first + "[" + x + "]";
        else s += v.first + "[" + x + "] = measure " + q[0].first;
        return s;
    }
    void stmt() {
        if (r.chance(sane ? 0.04 : 0.25)) return any_inst();
        switch (r.below(12)) {
            case 0: case 1: decl(r.chance(0.5)); break;
            case 2: case 3: case 4: s += gate(3) + " " + ref(true) + (r.chance(0.1) ? sp() + "," + sp() + ref(true) : ""); break;
            case 5: s += std::string(of(r, g2)) + " " + ref(true) + sp() + "," + sp() + ref(true); break;
            case 6: s += (r.chance(0.5) ? "CR(" + expr(2) : "CRk(" + expr(1)) + ") " + ref(true) + ", " + ref(true); break;
            case 7: case 8: s += ref(r.chance(sane ? 0.02 : 0.15)) + sp() + "=" + sp() + "measure" + (r.chance(0.2) ? "(" + expr(0) + "," + expr(0) + "," + expr(0) + ")" : "") + " " + ref(true); break;
            case 9: s += std::string(r.chance(0.5) ? "reset " : r.chance(0.5) ? "init " : "barrier ") + ref(true); break;
            case 10: s += "wait(" + expr(1) + ") " + ref(true); break;
            default: s += "asm(" + std::string(r.chance(0.5) ? "TestBackend" : of(r, names)) + ") '''" + (r.chance(0.4) ? std::string(" raw text ") : r.chance(0.5) ? std::string("\n a b\n'' { }\n") : g.bytes(r, 120)) + "'''";
        }
    }
    void decl(bool qubit) {
        static const char* const sz[] = {"1", "2", "3", "4", "5", "7", "17"};
        std::string n = r.chance(0.7) ? (qubit ? "q" : "b") + (r.chance(0.5) ? "" : std::to_string(r.below(4))) : r.chance(0.8) ? std::string(of(r, names)) : g.name(r);
        bool arr = r.chance(0.6);
        std::string z = sane || r.chance(0.8) ? of(r, sz) : of(r, ints);
        s += std::string(qubit ? "qubit" : "bit") + (arr ? (r.chance(0.9) ? "[" : " [ ") + z + "]" : "") + " " + n;
        (qubit ? q : b).emplace_back(n, arr ? std::max(1, static_cast<int>(std::strtol(z.substr(0, 4).c_str(), nullptr, 10))) : 0);
    }
    std::string make() {
        if (r.chance(0.1)) s += sep();
        s += r.chance(sane ? 0.97 : 0.85) ? (r.chance(0.9) ? "version 3.0" : "version 3") : "version " + std::string(r.chance(0.5) ? of(r, ints) : of(r, floats));
        size_t n = r.chance(0.1) ? r.below(60) : r.below(9);
        if (n) { s += sep(); decl(true); }
        if (n && r.chance(0.6)) { s += sep(); decl(false); }
        for (size_t k = 0; k < n && s.size() < g.max_len; ++k) { s += sep(); if (sane || r.chance(0.95)) stmt(); else wild(1 + r.below(4)); }
        if (r.chance(0.6)) s += sep();
        return s;
    }
    std::string raw() {   // a raw string of characters of all widths
        static const char* const u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a", " ", "\n", "''", "\r\n"};
        std::string x = "\'\'\'";
        for (size_t k = r.below(9); k > 0; --k) x += u[r.below(r.chance(0.7) ? 5 : 8)];
        return x + "\'\'\'";
    }
    void wild(size_t n) { while (n-- > 0) { if (r.chance(0.08)) s += raw(); else s += r.chance(0.75) ? std::string(of(r, odd)) : r.chance(0.5) ? std::string(of(r, ints)) : g.name(r); if (r.chance(0.5)) s += " "; } }
    std::string big() {   // one thing that is very long
        size_t d = 1 + r.logu(g.max_len);
        auto rep = [](const std::string& u, size_t n) { std::string x; while (x.size() < n) x += u; return x; };
        const std::string h = "version 3.0;qubit[3] q;bit[3] b;";
        switch (r.below(12)) {
            case 0: return "version 3." + rep("0", d) + (r.chance(0.5) ? "" : "1");
            case 1: return "version " + rep(r.chance(0.5) ? "0" : "3", d) + ".0";
            case 2: return h + "Rx(" + rep(r.chance(0.5) ? "0" : "7", d) + (r.chance(0.5) ? "." : "") + ") q[0]";
            case 3: return h + "Rx(0." + rep(r.chance(0.5) ? "0" : "35", d) + ") q[0]";
            case 4: return h + "X " + rep("a", d);
            case 5: return h + "asm(B) \'\'\'" + rep(r.chance(0.5) ? "x" : r.chance(0.5) ? "\n" : "\xc3\xa9", d) + (r.chance(0.8) ? "\'\'\'" : "");
            case 6: return h + "//" + rep("x", d) + "\nX q";
            case 7: return h + "/*" + rep("*\n", d) + (r.chance(0.8) ? "*/" : "");
            case 8: return h + "X q[" + rep("0,", d) + "1]";
            case 9: return h + "barrier " + rep(r.chance(0.5) ? "q," : "q[0,2],", std::min<size_t>(d, 6000)) + "q";
            case 10: return h + rep(of(r, g1) + std::string(" q;"), std::min<size_t>(d, 6000));
            default: return h + "qubit " + rep("_", d) + ";" + rep("\n", d) + "nope q";
        }
    }
    std::string deep() {   // nesting
        size_t d = 1 + r.below(r.chance(0.2) ? 120 : 30);
        s = "version 3.0;qubit q;";
        std::string e;
        switch (r.below(6)) {
            case 0: e = std::string(d, '(') + "1" + (r.chance(0.9) ? std::string(d, ')') : ")"); break;
            case 1: for (size_t k = 0; k < d; ++k) e += r.chance(0.5) ? "-" : "~"; e += "1"; break;
            case 2: e = "2"; for (size_t k = 0; k < d; ++k) e += r.chance(0.5) ? "**1" : "+3"; break;
            case 3: for (size_t k = 0; k < d; ++k) e += "true?1:"; e += "0"; break;
            case 4: for (size_t k = 0; k < d; ++k) e += "cos("; e += "1"; e += std::string(d, ')'); break;
            default: for (size_t k = 0; k < d; ++k) s += r.chance(0.5) ? "inv." : r.chance(0.5) ? "pow(2)." : "ctrl."; s += "X q"; return s;
        }
        return s += "Rx(" + e + ") q";
    }
};
const char* const snippets[] = {
    "", "version", "version 3", "version 3.0", "version 3.0;", "version 3.1", "version 3.0.0", "version 9223372036854775808", "version 3.99999999999999999999", "\xef\xbb\xbfversion 3.0",
    "version 3.0;qubit q;Rx(pi[0]) q", "version 3.0;qubit[3] q;X q[pi]", "version 3.0;qubit q;Rx(1/0) q", "version 3.0;qubit q;CRk(1%0) q,q", "version 3.0;qubit q;wait(9223372036854775807+1) q",
    "version 3.0;qubit q;wait((-9223372036854775807-1)/-1) q", "version 3.0;qubit q;wait((-9223372036854775807-1)%-1) q", "version 3.0;qubit q;wait(1<<64) q", "version 3.0;qubit q;wait(1<<-1) q", "version 3.0;qubit q;wait(-1>>70) q",
    "version 3.0;qubit q;nope q", "version 3.0;qubit q;nope(1) q", "version 3.0;qubit q;inv.nope q", "version 3.0;qubit q;inv.measure q", "version 3.0;qubit q;measure q", "version 3.0;qubit q;pow(2).CNOT q,q", "version 3.0;qubit[2] q;ctrl.ctrl.X q[0],q[1]",
    "version 3.0;qubit[2] q;X q[0:1000000000000]", "version 3.0;qubit[2] q;X q[0:9223372036854775807]", "version 3.0;qubit[2] q;X q[1:0]", "version 3.0;qubit[2] q;bit[2] b;b[0:9223372036854775807] = measure q", "version 3.0;qubit[2] q;bit[2] b;b[0:3000000000]=measure q", "version 3.0;qubit[0] q;X q", "version 3.0;qubit[9223372036854775807] q;X q", "version 3.0;bit[9223372036854775808] b",
    "version 3.0;qubit q;qubit q", "version 3.0;qubit pi", "version 3.0;bit b;qubit q;b=measure q;b=measure b", "version 3.0;X X", "version 3.0;1=measure 2", "version 3.0;qubit q;X 1", "version 3.0;qubit q;X true", "version 3.0;qubit q;X q[0]",
    "version 3.0;asm(A) '''raw''';asm(B) ''' '' '''", "version 3.0;asm(A) '''", "version 3.0 /* never closed", "version 3.0 // to the end", "version 3.0;qubit q;Rx(1.5,2) q", "version 3.0;qubit q;Rx() q", "version 3.0;qubit q;Rx q", "version 3.0;qubit q;Rn(1,0,0,pi,0) q",
    "version 3.0;qubit q;X(1) q", "version 3.0;qubit q;CRk(1.5) q,q", "version 3.0;qubit q;wait(1.5) q", "version 3.0;qubit q;wait(true) q", "version 3.0;qubit q;Rx(true) q", "version 3.0;qubit q;Rx(1?2:3) q", "version 3.0;qubit q;Rx(0**-1) q", "version 3.0;qubit q;wait(0**-1) q",
    "version 3.0;qubit q;wait(2**63) q", "version 3.0;qubit q;wait(2**64) q", "version 3.0;qubit q;Rx(sqrt(-1)) q", "version 3.0;qubit q;Rx(q) q", "version 3.0;qubit q;Rx(-q) q", "version 3.0;qubit q;b=measure q", "version 3.0;qubit q;Rx(abs(-9223372036854775807-1)) q",
    "version 3.0;qubit q;X q,", "version 3.0;qubit q;\xc3\xa9 q", "version 3.0;qubit \xc3\xa9;X q", "version 3.0;qubit[2] q;bit[3] b;b=measure q", "version 3.0;qubit[2] q;bit[2] b;b[0,1]=measure q[0:1]", "version 3.0;qubit[2] q;bit[2] b;b[1]=measure q[0:1]",
    "version 3.0;qubit q;operator+ q", "version 3.0;qubit q;wait(-(-9223372036854775807-1)) q", "version 3.0;qubit q;Rx(1e400) q", "version 3.0;qubit q;Rx(1.0e-5000) q", "version 3.0;qubit q;single_qubit_X q", "version 3.0;qubit q;pow(2).X q;pow(2.5).X q;pow(true).X q;pow(q).X q",
    "version 3.0\nqubit[5] q\nH q[0]\nCNOT q[0], q[1]\nbit[5] b\nb = measure q\n", "version 3.0;qubit q;measure(1,0,0) q", "version 3.0;bit b;qubit q;b=measure(1,0,0) q;b=measure(1,0) q;b=measure(true,0,1.5) q;b=measure(q,0,0) q", "version 3.0;qubit q;init q;reset q;barrier q;wait(3) q",
};
// A program with one word, number or sign of another one replaced, removed, repeated or added.
std::string neighbour(Rng& r, const std::string& t) {
    std::vector<std::string> w;
    auto cls = [](char c) { auto u = static_cast<unsigned char>(c); return std::isalnum(u) || c == '_' || c == '.' ? 1 : 0; };
    for (char c : t) { if (w.empty() || !cls(c) || !cls(w.back()[0])) w.emplace_back(1, c); else w.back() += c; }
    if (w.size() < 4 || w.size() > 3000) return t;
    size_t k = 3 + r.below(w.size() - 3), q = 3 + r.below(w.size() - 3);
    switch (r.below(6)) {
        case 0: w[k] = w[q]; break;
        case 1: std::swap(w[k], w[q]); break;
        case 2: w.erase(w.begin() + static_cast<long>(k)); break;
        case 3: w.insert(w.begin() + static_cast<long>(k), w[k]); break;
        case 4: w[k] = r.chance(0.5) ? of(r, odd) : of(r, ints); break;
        default: w.insert(w.begin() + static_cast<long>(k), r.chance(0.5) ? ",1" : r.chance(0.5) ? "(1)" : r.chance(0.5) ? "[1]" : "-"); break;
    }
    std::string o;
    for (auto& x : w) o += x;
    return o;
}
}  // namespace
std::string gen_program(Rng& r, Gen& g) {
    Prog p{r, g, {}, {}, {}, r.chance(0.5)};
    std::string s;
    double x = r.below(100) / 100.0;
    if (x < 0.15) s = of(r, snippets);
    else if (x < 0.17) s = p.ranges();
    else if (x < 0.22) { p.wild(1 + r.below(30)); s = p.s; }
    else if (x < 0.27) s = "version 3.0;" + g.bytes(r, 400);
    else if (x < 0.29) s = g.bytes(r, 400);
    else if (x < 0.34) s = p.deep();
    else if (x < 0.37 || (g.max_len > 10000 && x < 0.7)) s = p.big();
    else if (x < 0.42 && !g.pool.empty()) s = r.pick(g.pool);
    else if (x < 0.52 && !g.pool.empty()) s = neighbour(r, r.pick(g.pool));
    else if (x < 0.60) {   // a few statements, any instruction with any parameters
        s = "version 3.0;"; p.s = s; p.sane = false;
        p.decl(true); p.s += ";"; p.decl(false);
        for (size_t k = 1 + r.below(3); k > 0; --k) { p.s += ";"; p.any_inst(); }
        s = p.s;
    }
    else s = p.make();
    if (r.chance(0.18)) s = g.corrupt(r, s);
    if (s.size() > g.max_len + 60) s.resize(g.max_len);
    if (g.pool.size() < 24) g.pool.push_back(s); else if (s.size() < 3000) g.pool[r.below(g.pool.size())] = s;
    return s;
}

// Short programs that differ in one statement or one word, as an editor or a generator would submit them one after the other.
static std::vector<std::string> family(Rng& r, Gen& g, size_t n) {
    std::vector<std::string> v;
    Prog p{r, g, {}, {}, {}, r.chance(0.5)};
    p.s = r.chance(0.9) ? "version 3.0;" : "version 3;";
    p.decl(true); p.s += ";"; if (r.chance(0.8)) { p.decl(false); p.s += ";"; }
    const std::string head = p.s;
    auto q = p.q, b = p.b;
    const bool counts = r.chance(0.2);
    const size_t np = r.chance(0.4) ? 1 : r.chance(0.5) ? 3 : r.below(6);
    for (size_t k = 0; k < n; ++k) {
        if (!v.empty() && r.chance(0.25)) { v.push_back(neighbour(r, r.pick(v))); continue; }
        p.s = head; p.q = q; p.b = b;
        for (size_t m = 1 + (r.chance(0.25) ? 1 : 0); m > 0; --m) { if (counts && r.chance(0.9)) p.counted(np); else if (r.chance(0.6)) p.any_inst(); else p.stmt(); if (m > 1) p.s += ";"; }
        v.push_back(p.s.size() < g.max_len ? p.s : head);
    }
    return v;
}
static void same_paths(Rng& r, Op& o, bool pool) {   // in a history of one caller, files with other contents under the same path
    if (!pool || o.i.size() != 6) return;
    static const char* const names[] = {"", "a", "b"};
    o.i.push_back(1); o.s[2] = names[r.below(3)];
    if (r.chance(0.5)) { static const int64_t file_routes[] = {2, 3, 5, 6, 7, 8}; o.i[2] = file_routes[r.below(6)]; }
}
std::vector<Op> family_ops(Rng& r, Gen& g, size_t n, bool one_caller) {
    std::vector<Op> v;
    auto texts = family(r, g, 1 + n * 2 / 3);
    Op same = g_pipe(r, g);
    bool alike = r.chance(0.6), pool = one_caller && r.chance(0.4);
    for (size_t k = 0; k < n; ++k) {
        Op o = alike ? same : g_pipe(r, g);
        same_paths(r, o, pool);
        o.s[0] = texts[r.below(texts.size())];
        if (k < texts.size() && r.chance(0.7)) o.s[0] = texts[k];
        if (r.chance(0.1)) o.k = "sound";
        v.push_back(o);
    }
    return v;
}
static bool set_family = (g_family = family_ops, true);

// An index range stands for all its indices, and a register may be declared with any size: "qubit[9000000000] q; X q[0:8999999999]"
// is a short program for a very long result. Such programs are kept within what a run can hold, by turning ':' into ';'.
static uint64_t largest_size(const std::string& s) {
    uint64_t most = 0;
    for (size_t k = s.find('['); k != std::string::npos; k = s.find('[', k + 1)) {
        size_t q = k + 1;
        auto skip = [&] {
            for (;;) {
                if (q < s.size() && std::strchr(" \t\r\n", s[q]) && s[q]) ++q;
                else if (!s.compare(q, 2, "/*")) { q = s.find("*/", q + 2); if (q == std::string::npos) { q = s.size(); return; } q += 2; }
                else if (!s.compare(q, 2, "//")) { while (q < s.size() && s[q] != '\n') ++q; }
                else return;
            }
        };
        skip();
        uint64_t v = 0; size_t d = q;
        for (; q < s.size() && s[q] >= '0' && s[q] <= '9'; ++q) v = std::min<uint64_t>(v * 10 + static_cast<uint64_t>(s[q] - '0'), 1ull << 40);
        if (q == d) continue;
        skip();
        if (q < s.size() && s[q] == ']') most = std::max(most, v);
    }
    return most;
}
uint64_t spread(const std::string& text) { return largest_size(text) * static_cast<uint64_t>(std::count(text.begin(), text.end(), ':')); }
static bool set_spread = (g_spread = spread, true);
static void tame_ops(std::vector<Op>& v) {
    for (auto& o : v) if (auto* i = find_op(o.k); i && (i->tags & T_PIPE))
        for (size_t k : {size_t(0), size_t(3)}) if (k < o.s.size() && spread(o.s[k]) > 200000) std::replace(o.s[k].begin(), o.s[k].end(), ':', ';');
}
static bool set_tame = (g_tame = [](Plan& p) { tame_ops(p.setup); for (auto& t : p.threads) tame_ops(t); }, true);

// ---------------------------------------------------------------- diagnostics
ErrView view_error(const std::string& text, const std::string& who) {
    J j; std::string err; ErrView v;
    if (!json_parse(text, j, err)) fail("json", who + ": " + err + " in " + clip(text, 400));
    const J* m = j.get("message");
    if (!m || m->t != J::STR) fail("json", who + ": a diagnostic without a message: " + clip(text, 400));
    v.message = m->str;
    const J* rg = j.get("range");
    auto num = [&](const char* a, const char* b) -> uint32_t {
        const J* x = rg ? rg->get(a) : nullptr; x = x ? x->get(b) : nullptr;
        if (!x || x->t != J::NUM) fail("json", who + ": a diagnostic without a range: " + clip(text, 400));
        return static_cast<uint32_t>(std::strtoull(x->num.c_str(), nullptr, 10));
    };
    v.l1 = num("start", "line"); v.c1 = num("start", "character"); v.l2 = num("end", "line"); v.c2 = num("end", "character");
    if (const J* rel = j.get("relatedInformation")) {
        const J* uri = rel->t == J::ARR && rel->arr.size() == 1 ? rel->arr[0].get("location") : nullptr;
        uri = uri ? uri->get("uri") : nullptr;
        if (!uri || uri->t != J::STR || uri->str.compare(0, 8, "file:///")) fail("json", who + ": the file of a diagnostic is not a file URI: " + clip(text, 400));
        if (!url_decode(uri->str.substr(8), v.file, err)) fail("url", who + ": the URI of a diagnostic contains " + err + ": " + clip(text, 400));
        v.has_file = true;
    }
    return v;
}
std::string outside(const std::string& text, const ErrView& v) {
    std::vector<uint64_t> len(1, 0);     // code points of each line, without its '\n'
    for (unsigned char c : text) { if (c == '\n') len.push_back(0); else if ((c & 0xC0) != 0x80) ++len.back(); }
    auto at = [&](uint32_t l, uint32_t c) { return std::to_string(l) + ":" + std::to_string(c); };
    auto bad = [&](uint32_t l, uint32_t c, bool end) -> bool {
        if (l < 1 || l > len.size() || c < 1) return true;
        return c > len[l - 1] + 1 + (end && l < len.size() ? 1 : 0);   // an end may lie just behind the line's newline
    };
    std::string has = "the text has " + std::to_string(len.size()) + " lines";
    auto line = [&](uint32_t l) { return l >= 1 && l <= len.size() ? ", line " + std::to_string(l) + " has " + std::to_string(len[l - 1]) + " characters" : std::string(); };
    if (bad(v.l1, v.c1, false)) return "it starts at " + at(v.l1, v.c1) + "; " + has + line(v.l1);
    if (bad(v.l2, v.c2, true)) return "it ends at " + at(v.l2, v.c2) + "; " + has + line(v.l2);
    if (std::pair(v.l2, v.c2) < std::pair(v.l1, v.c1)) return "it ends at " + at(v.l2, v.c2) + " before its start " + at(v.l1, v.c1);
    return "";
}
static thread_local std::vector<std::shared_ptr<void>> kept;
void keep_alive(std::shared_ptr<void> p) { NoSut n; kept.push_back(std::move(p)); }
void release_kept() { while (!kept.empty()) { std::shared_ptr<void> p = std::move(kept.back()); kept.pop_back(); ArenaScope a; p.reset(); } }

// ---------------------------------------------------------------- C15
static Plan c15_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.05) ? 6000 : 900);
    Plan p; p.threads.emplace_back();
    size_t texts = 1 + r.below(3);
    std::vector<std::pair<std::string, std::string>> in;
    for (size_t k = 0; k < texts; ++k) { Op o = g_pipe(r, g); in.emplace_back(o.s[0], o.s[1]); }
    bool pool = r.chance(0.4);
    for (size_t k = 2 + r.below(6); k > 0; --k) {
        Op o = g_pipe(r, g);
        auto& x = r.pick(in);
        o.s[0] = x.first; o.s[1] = x.second;
        same_paths(r, o, pool);
        if (r.chance(0.15)) o.k = "sound";
        p.threads[0].push_back(o);
    }
    return p;
}
static void c15_refs(const Plan& p, std::vector<Plan>& v) {
    for (auto& t : p.threads) for (auto& o : t) if (o.k == "pipe") v.push_back(ref_plan(p, pipe_canonical(o)));
}
static void c15_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) {
        if (got == "oom") return;
        if (o.k == "sound") { if (got.compare(0, 3, "ok:")) fail("raised", caller(t, k, o) + " raised " + clip(got, 300)); return; }
        Op c = pipe_canonical(o);
        std::string g = norm(got);
        const std::string& want = ref_get(p, c);
        if (g != want) fail("verdict", caller(t, k, o) + " gives " + clip(g, 500) + ", and the simplest way to ask the same, " + show(c) + " in a fresh process, gives " + clip(want, 500));
    });
}
static void c15_vary(Rng& r, Gen& g, Plan& p, const RunResult& d) {
    if (r.chance(0.5)) {   // damage on the way, the same for every entry point
        std::vector<std::pair<std::string, std::string>> done;
        for (auto& t : p.threads) for (auto& o : t) {
            auto it = std::find_if(done.begin(), done.end(), [&](auto& x) { return x.first == o.s[0]; });
            if (it == done.end()) { done.emplace_back(o.s[0], g.corrupt(r, o.s[0])); it = done.end() - 1; }
            o.s[0] = it->second;
        }
    }
    for (auto& t : p.threads) for (size_t k = t.size(); k > 1; --k) if (r.chance(0.4)) std::swap(t[k - 1], t[r.below(k)]);
    for (auto& t : p.threads) for (auto& o : t) if (r.chance(0.5)) { o.i[2] = static_cast<int64_t>(r.below(10)); o.i[3] = static_cast<int64_t>(r.below(3)); }
    if (r.chance(0.4)) vary_alloc(r, p, d, 2);
}
static RegCheck C15({"C15", c15_gen, c15_vary, c15_refs, c15_exec, 3, true, BUDGET});

// ---------------------------------------------------------------- C05
static const char* const file_faults[] = {"enoent", "stat_fail", "directory", "vanish", "eacces", "eio_open", "emfile", "replace", "eio_read", "eintr", "short_read"};
static Plan c05_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.1) ? 40000 : r.chance(0.3) ? 12000 : 900);
    Plan p; p.threads.emplace_back();
    for (size_t k = 1 + r.below(4); k > 0; --k) {
        Op o = find_op("fpipe")->gen(r, g);
        if (r.chance(0.2) && g.max_len > 5000) { std::string pad(r.logu(g.max_len), ' '); for (size_t q = 97; q < pad.size(); q += 97) pad[q] = '\n'; o.s[0] += (o.s[0].empty() || o.s[0].back() != '\n' ? "\n" : "") + pad + "\nqubit last"; }
        o.s.push_back(r.chance(0.5) ? gen_program(r, g) : g.corrupt(r, o.s[0]));    // the bytes that replace the file
        o.i.push_back(r.chance(0.1) ? static_cast<int64_t>(1 + r.below(3)) : 0);     // i[5]: what stands in the file's place
        p.threads[0].push_back(o);
    }
    return p;
}
static void c05_vary(Rng& r, Gen& g, Plan& p, const RunResult& d) {
    p.faults.clear();
    for (size_t k = 0; k < p.threads[0].size(); ++k) {
        if (r.chance(0.2)) continue;
        for (size_t n = 1 + r.below(2); n > 0; --n)
            p.faults.push_back({of(r, file_faults), 0, static_cast<int>(k), r.chance(0.2) ? -1 : static_cast<int64_t>(r.below(r.chance(0.5) ? 2 : 6)), static_cast<int64_t>(r.below(5000))});
    }
    for (auto& f : p.faults) if (f.k == "eintr" && f.n < 0) f.n = 0;     // interrupted for ever is no progress for anybody
    if (r.chance(0.15)) vary_alloc(r, p, d, 2);
    (void)g;
}
static void c05_refs(const Plan& p, std::vector<Plan>& v) {
    for (auto& t : p.threads) for (auto& o : t) if (o.k == "fpipe") {
        v.push_back(ref_plan(p, fpipe_canonical(o, S(o, 0))));
        v.push_back(ref_plan(p, fpipe_canonical(o, S(o, 3))));
    }
}
// A report that there is a problem with the file: errors, none of which speaks of a place in the program.
static bool file_errors_only(const Op& o, const std::string& got) {
    if (got.compare(0, 3, "ok:")) return false;
    std::string t = got.substr(3);
    if (!t.compare(0, 10, "fileerror:")) return true;
    auto plain = [](const std::string& m) { return !m.compare(0, 7, "Error: "); };
    switch (M(o, 0, 8)) {
        case 0: case 3: case 4: {
            if (t.compare(0, 7, "errors:")) return false;
            size_t q = 7; bool any = false;
            while (q < t.size()) { size_t n = std::strtoull(t.c_str() + q, nullptr, 10); q = t.find(':', q) + 1; if (!plain(t.substr(q, n))) return false; any = true; q += n + 1; }
            return any;
        }
        case 1: case 5: {
            size_t c = t.find('|'); if (c == std::string::npos) return false;
            size_t n = std::strtoull(t.c_str(), nullptr, 10), q = c + 1;
            if (n < 2 || t.compare(q, 3, "0:;")) return false;
            for (q += 3; q < t.size();) { size_t l = std::strtoull(t.c_str() + q, nullptr, 10); q = t.find(':', q) + 1; if (!plain(t.substr(q, l))) return false; q += l + 1; }
            return true;
        }
        case 2: case 6: {
            J j; std::string err;
            if (!json_parse(t, j, err)) return false;
            const J* e = j.get("errors");
            if (!e || e->arr.empty()) return false;
            for (auto& x : e->arr) { const J* rg = x.get("range"); rg = rg ? rg->get("start") : nullptr; rg = rg ? rg->get("line") : nullptr; if (!rg || rg->num != "0" || x.get("relatedInformation")) return false; }
            return true;
        }
        default: return !t.compare(0, 14, "raised:Error: ");
    }
}
static void c05_exec(Plan& p) {
    World w;
    auto given = p.faults;
    spawn({[&] {
        Ctx c{w, {}, {}};
        try {
            int k = 0;
            for (auto& o : p.threads.at(0)) {
                std::string path = pipe_path(o);
                int type = static_cast<int>(M(o, 5, 4));
                fs_set({path, S(o, 0), type});
                fs_set({path + "#new", S(o, 3), 0});
                op_begin(0, k);
                uint64_t before[F_NKINDS];
                memcpy(before, shm->run_fired, sizeof before);
                std::string got = run_op(c, o);
                auto hit = [&](FaultKind f) { return shm->run_fired[f] > before[f]; };
                bool trouble = type != 0, swapped = hit(F_REPLACE);
                std::string which = type == 1 ? " a directory" : type == 2 ? " a device" : type == 3 ? " nothing" : "";
                for (int f = F_ENOENT; f <= F_EMFILE; ++f) if (shm->run_fired[f] > before[f]) { which += std::string(" ") + fault_names[f]; if (f != F_EINTR && f != F_SHORT && f != F_REPLACE) trouble = true; }
                std::string who = caller(0, k, o);
                if (open_files()) fail("open", who + " with" + (which.empty() ? " healthy storage" : which) + " leaves a file open");
                std::string g = norm(got);
                const std::string& full = ref_get(p, fpipe_canonical(o, S(o, 0)));
                const std::string& other = ref_get(p, fpipe_canonical(o, S(o, 3)));
                if (got != "oom") {
                    bool good = g == full || (swapped && g == other);
                    bool report = file_errors_only(o, got);
                    if (type && good && !report) fail("place", who + ": there is" + which + " in place of the file, and the outcome is " + clip(g, 400));
                    if (!good && !(trouble && report)) {
                        if (report) fail("refused", who + " on" + (which.empty() ? " healthy storage" : " storage with" + which) + " is refused: " + clip(g, 400));
                        fail("wrong", who + " on" + (which.empty() ? " healthy storage" : " storage with" + which) + " gives " + clip(g, 500) + ", which is neither a report of the trouble nor what the complete bytes give: " + clip(full, 500));
                    }
                }
                // the next attempt, on healthy storage
                fs_set({path, S(o, 0), 0});
                op_begin(0, 1000 + k);
                std::string again = norm(run_op(c, o));
                if (again != full) fail("after", who + ": the next attempt, on healthy storage, gives " + clip(again, 500) + " instead of " + clip(full, 500));
                if (open_files()) fail("open", who + ": the next attempt, on healthy storage, leaves a file open");
                ++k;
            }
        } catch (const CheckFail& f) { violation(f.what.c_str(), f.text); }
    }});
}
static RegCheck C05({"C05", c05_gen, c05_vary, c05_refs, c05_exec, 4, true, BUDGET});

// ---------------------------------------------------------------- C06
static Plan c06_gen(Rng& r, Gen& g) {
    MaxLen m(g, r.chance(0.02) ? 150000 : r.chance(0.05) ? 20000 : 1500);
    Plan p; p.threads.emplace_back();
    for (size_t k = 1 + r.below(4); k > 0; --k) { Op o = g_pipe(r, g); if (r.chance(0.8)) o.k = "sound"; p.threads[0].push_back(o); }
    return p;
}
static void c06_vary(Rng& r, Gen& g, Plan& p, const RunResult& d) {
    for (auto& t : p.threads) for (auto& o : t) if (r.chance(0.7)) o.s[0] = g.corrupt(r, o.s[0]);
    if (r.chance(0.15)) vary_alloc(r, p, d, 2);
    if (r.chance(0.2)) p.env["poison"] = static_cast<int64_t>(1 + r.below(255));
}
static void c06_exec(Plan& p) {
    World w; std::vector<std::vector<std::string>> out;
    run_callers(w, p, out, [&](Ctx&, int t, int k, const Op& o, const std::string& got) {
        if (got == "oom") { if (!tl.op_oom) fail("memory", caller(t, k, o) + " runs out of memory although none was withheld"); return; }
        if (got.compare(0, 3, "ok:") && !(o.k == "pipe" && !pipe_version(o) && !got.compare(0, 25, "exc:std::invalid_argument"))) fail("raised", caller(t, k, o) + " raised " + clip(got, 400));
    });
}
static RegCheck C06({"C06", c06_gen, c06_vary, nullptr, c06_exec, 4, true, BUDGET});

}  // namespace sim
