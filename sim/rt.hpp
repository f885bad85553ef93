// Simulator runtime: scheduler, memory, file system, environment and clock seams.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "plan.hpp"

namespace sim {

enum FaultKind { F_ALLOC, F_ENOENT, F_EACCES, F_EIO_OPEN, F_EIO_READ, F_EINTR, F_SHORT, F_TRUNC, F_VANISH, F_REPLACE, F_STAT, F_DIR,
                 F_EMFILE, F_FLIP, F_TORN, F_SINK_FAIL, F_SINK_SHORT, F_SINK_THROW, F_LOCALE, F_CLOCK, F_ENV, F_LAYOUT, F_POISON,
                 F_DUP, F_REORDER, F_PREEMPT, F_BLOCK, F_SPLICE, F_CUT, F_NKINDS };
extern const char* fault_names[F_NKINDS];
int fault_index(const std::string& name);

// Memory shared between the worker and the forked process in which a run executes.
struct Shm {
    static constexpr size_t COV = 1 << 16, DICT = 512, TEXT = 1 << 18;
    uint8_t cov[COV];
    uint64_t ncmp; uint64_t cmp[DICT];         // constants the code under test compares with
    uint64_t nstr; char str[64][64]; uint8_t strn[64];
    uint64_t fired[F_NKINDS];                   // faults that actually took effect, cumulative over runs
    // ---- fields of the current run ----
    uint64_t hash, events, switches, steps, vtime, allocs;
    uint64_t sched_sig;                         // digest of the interleaving actually executed
    uint64_t state_sig;                         // digest of outcomes
    uint64_t run_fired[F_NKINDS];
    uint64_t alloc_seen[64];                    // allocations per operation, index th*16+op
    int64_t aux[4];                             // sweep position, for minimisation
    int finished, violated, harness_error;
    int cur_th, cur_op, where;                  // for crash attribution; where: 0 harness, 1 code under test
    char what[64];                              // violation code
    char text[TEXT];                            // violation or error text / op outcomes
    uint64_t text_len;
    char term[256];
};
extern Shm* shm;

struct Tls {
    int in_sut = 0;                // 0 harness, 1 code under test, 2 harness placing objects in the simulated heap
    int tid = -1;                  // simulated thread id, -1: not simulated
    int th = 0, op = 0;            // caller thread and operation index of the plan
    uintptr_t stack_lo = 0, stack_hi = 0;
    uint64_t op_blocks = 0, op_steps = 0, op_allocs = 0, op_bytes = 0, op_reads = 0, op_opens = 0, op_stats = 0, op_oom = 0;
    int64_t sp_base = 0, sp_max = 0;
    int calm = 0;                  // above 0: allocations neither count nor fail
};
extern thread_local Tls tl;
struct Calm { Calm() { ++tl.calm; } ~Calm() { --tl.calm; } };   // a harness looks at what a call left behind

// Out of line: the accesses of these guards themselves are not those of the code under test.
struct SutScope {                  // marks the dynamic extent of a call into the code under test
    int saved, wsaved;
    SutScope();
    ~SutScope();
};
struct ArenaScope {                // objects built by the harness but placed in the simulated heap: no faults, no events
    int saved;
    ArenaScope();
    ~ArenaScope();
};
struct NoSut {
    int saved;
    NoSut();
    ~NoSut();
};

struct RunConfig {
    const Plan* plan = nullptr;
    uint64_t step_budget = 400'000'000;       // per run
    uint64_t byte_budget = 1'500'000'000;     // live bytes in the simulated heap
    bool detect_races = true;
    int cpu_seconds = 100;
};
void rt_init();                                // once per process
void run_start(const RunConfig&);              // in the forked process
void op_begin(int th, int op);                 // resets per-operation counters
void spawn(std::vector<std::function<void()>> bodies);  // runs simulated threads to completion
uint64_t live_blocks();
uint64_t live_bytes();
bool heap_ok(std::string& why);                // checks red zones of live blocks
std::string describe_live(uint64_t since_seq, int maxn);
uint64_t alloc_seq();
void fired(FaultKind, uint64_t n = 1);
void yield_point(uint64_t key);                // explicit scheduling point in harness seams
uint64_t now_ns();
[[noreturn]] void violation(const char* code, const std::string& text);
[[noreturn]] void harness_error(const std::string& text);
int open_files();                              // simulated files currently open
void hash_in(uint64_t v);

// Simulated file system, prefix /simfs/
struct FsSpec {
    std::string path, data;
    int type = 0;  // 0 regular, 1 directory, 2 char device, 3 missing
};
void fs_set(const FsSpec&);
void fs_clear();

}  // namespace sim
