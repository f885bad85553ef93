// Plans: the complete, serialisable description of one simulated run.
// A plan is made from a seed by a generator; execution is a function of the plan alone.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

struct Rng {  // splitmix64 / xorshift: the only source of randomness in a run
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    uint64_t logu(uint64_t maxv) {  // log-uniform in [0, maxv]
        if (!maxv) return 0;
        int bits = 64 - __builtin_clzll(maxv);
        uint64_t m = 1ull << below(static_cast<uint64_t>(bits) + 1);
        uint64_t v = below(m);
        return v > maxv ? maxv : v;
    }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
};

struct Op {
    std::string k;                 // operation kind
    std::vector<std::string> s;    // byte-string arguments
    std::vector<int64_t> i;        // integer arguments
    bool operator==(const Op&) const = default;
};
struct Fault {
    std::string k;                 // fault kind
    int th = 0;                    // caller thread (-1: any)
    int op = 0;                    // operation index within that thread
    int64_t n = 0;                 // occurrence of the site within the operation
    int64_t a = 0;                 // kind-specific argument
};
struct Switch {
    uint64_t ev;                   // scheduler event at which the baton moves
    int to;                        // rank of the thread it moves to
};
struct Plan {
    std::string check;
    uint64_t seed = 0;
    std::vector<Op> setup;                  // builds shared objects before the threads start
    std::vector<std::vector<Op>> threads;   // one program per caller
    std::vector<Fault> faults;
    std::vector<Switch> sched;
    std::map<std::string, int64_t> env;
};

std::string plan_to_json(const Plan&);
bool plan_from_json(const std::string&, Plan&, std::string& err);
std::string hex(const std::string&);

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

}  // namespace sim
