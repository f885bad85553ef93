// Helpers shared by the checks.
#pragma once
#include "ops.hpp"

namespace sim {
extern bool g_full_linked __attribute__((weak));
inline bool full_leg() { return &g_full_linked != nullptr; }
std::vector<const OpInfo*> ops_with(unsigned all, unsigned none = 0);
std::vector<const OpInfo*> swarm(Rng&, std::vector<const OpInfo*>, size_t maxk);
void vary_sched(Rng&, Gen&, Plan&, const RunResult& dry);
void vary_alloc(Rng&, Plan&, const RunResult& dry, int maxf);
void each_ref(const Plan&, std::vector<Plan>&);
std::string caller(int t, int k, const Op&);
void must_match(const Plan&, const Op&, const std::string& got, const std::string& who, const char* when);
void check_diag(const std::string& text, const std::string& message, bool has, const LocSpec&);
Op gen_one(Rng&, Gen&, const std::vector<const OpInfo*>&);
struct MaxLen { Gen& g; size_t old; MaxLen(Gen& gg, size_t n) : g(gg), old(gg.max_len) { g.max_len = n; } ~MaxLen() { g.max_len = old; } };
inline constexpr uint64_t BUDGET = 400'000'000;
extern uint64_t (*g_spread)(const std::string& program);
extern std::vector<Op> (*g_family)(Rng&, Gen&, size_t, bool one_caller);   // programs that are much alike (whole pipeline only)
}  // namespace sim
