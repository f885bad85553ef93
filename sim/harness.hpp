#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "plan.hpp"
#include "rt.hpp"

namespace sim {

// An object living in the simulated heap, built and destroyed by library code.
struct Obj {
    std::string type;
    void* p = nullptr;
    void (*del)(void*) = nullptr;
    int cfg = 0;
    Obj() = default;
    Obj(const Obj&) = delete;
    Obj(Obj&& o) noexcept : type(std::move(o.type)), p(o.p), del(o.del), cfg(o.cfg) { o.p = nullptr; }
    Obj& operator=(Obj&& o) noexcept { reset(); type = std::move(o.type); p = o.p; del = o.del; cfg = o.cfg; o.p = nullptr; return *this; }
    void reset() { if (p) { ArenaScope a; auto q = p; p = nullptr; del(q); } }
    ~Obj() { reset(); }
    template <class T> T& as() { return *static_cast<T*>(p); }
};
template <class T, class... A> Obj make_obj(const char* type, A&&... a) {  // construction is a library call
    Obj o; o.type = type;
    { SutScope s; o.p = new T(std::forward<A>(a)...); }
    o.del = [](void* q) { delete static_cast<T*>(q); };
    return o;
}

struct World {
    std::vector<Obj> shared;
    std::map<std::string, std::string> notes;
};
struct Ctx {                      // per caller
    World& w;
    std::vector<Obj> own;
    std::string model;            // free-form state of an oracle
};
using OpFn = std::string (*)(Ctx&, const Op&);
struct OpInfo {
    const char* kind;
    OpFn fn;
    Op (*gen)(Rng&, struct Gen&);
    unsigned tags;
};
enum Tag : unsigned { T_PURE = 1, T_SETUP = 2, T_READ = 4, T_HEAVY = 8, T_ALLOC = 16, T_TEXT = 32, T_LOC = 64, T_ERR = 128, T_PIPE = 256, T_ENV = 512, T_TABLE = 1024, T_DIAG = 2048, T_FILE = 4096, T_HIST = 8192 };
std::vector<OpInfo>& registry();
const OpInfo* find_op(const std::string&);
struct Reg { Reg(const char* k, OpFn f, Op (*g)(Rng&, Gen&), unsigned tags) { registry().push_back({k, f, g, tags}); } };

// Input generation
struct Gen {
    std::vector<uint64_t> ints;           // constants seen in comparisons or literals of the code under test
    std::vector<std::string> strs;
    std::vector<std::string> pool;        // texts used before in this plan
    std::vector<int> shared_idx;          // indices of shared objects available to reads
    std::vector<std::string> shared_type;
    size_t max_len = 70000;
    uint64_t faults[F_NKINDS] = {};
    std::string bytes(Rng&, size_t maxlen = 0);
    std::string name(Rng&);               // identifier-like
    std::string fname(Rng&);
    int64_t u32(Rng&);
    size_t len(Rng&, size_t maxlen);
    std::string corrupt(Rng&, std::string);
};

std::string run_op(Ctx&, const Op&);      // outcome text: ok:..., oom, exc:<type>:<what>
std::string clip(const std::string&, size_t n = 160);
std::string show(const Op&);

// Strings passed to the library live in the simulated heap with exact size.
struct ArenaStr {
    std::string* s;
    explicit ArenaStr(const std::string& v) { ArenaScope a; s = new std::string(v.data(), v.size()); }
    ~ArenaStr() { ArenaScope a; delete s; }
    ArenaStr(const ArenaStr&) = delete;
    operator const std::string&() const { return *s; }
    const std::string& operator*() const { return *s; }
};
// Moves a string produced by the library out of the simulated heap.
inline std::string out(std::string&& v) {
    NoSut n; std::string r(v.data(), v.size());
    { ArenaScope a; std::string().swap(v); }
    return r;
}
inline std::string out(const std::string& v) { NoSut n; return std::string(v.data(), v.size()); }

struct CheckFail { std::string what, text; };
[[noreturn]] inline void fail(const std::string& what, const std::string& text) { throw CheckFail{what, text}; }

// ---- run control (run.cpp) --------------------------------------------------------------------
struct RunResult {
    enum { OK, VIOLATED, HARNESS } st = OK;
    std::string what, text;
    uint64_t hash = 0, events = 0, switches = 0, steps = 0, sched_sig = 0, state_sig = 0, vtime = 0, allocs = 0;
    uint64_t alloc_seen[64] = {};
    uint64_t fired[F_NKINDS] = {};
    int64_t aux[4] = {};
    bool new_cov = false;
};
struct Check {
    const char* id;
    Plan (*gen)(Rng&, Gen&);                                            // workload: operations and environment
    void (*vary)(Rng&, Gen&, Plan&, const RunResult& dry);              // schedule and fault points of one run
    void (*refs)(const Plan&, std::vector<Plan>&);                      // calls whose outcome alone is needed
    void (*exec)(Plan&);                                                // inside the forked process
    int repeats;                                                        // runs per workload
    bool need_dry;
    uint64_t step_budget;
};
std::vector<Check>& checks();
const Check* find_check(const std::string&);
struct RegCheck { explicit RegCheck(Check c) { checks().push_back(c); } };
std::string norm(const std::string&);                                   // long outcomes become a digest
Plan ref_plan(const Plan&, const Op&);                                  // the call alone, after the same set-up
std::string ref_key(const Plan& refplan);
const std::string& ref_get(const Plan&, const Op&);                     // outcome of the call alone
void setup_objects(Ctx&, const Plan&);
// Runs the plan's callers; out[t][k] is the outcome of operation k of caller t.
using PostFn = std::function<void(Ctx&, int t, int k, const Op&, const std::string& outcome)>;
void run_callers(World&, const Plan&, std::vector<std::vector<std::string>>& out, const PostFn& post = {});
RunResult run_plan(const Plan&, bool quiet = true);
extern void (*g_tame)(Plan&);   // what every plan goes through before it is run
extern Plan* g_plan;                                                    // the plan of the current run, mutable for sweeps

}  // namespace sim
