#include "rt.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <unordered_map>
#include <typeinfo>


extern "C" char __executable_start, end;
namespace __cxxabiv1 { extern "C" std::type_info* __cxa_current_exception_type() noexcept __attribute__((__pure__)); }

namespace sim {

const char* fault_names[F_NKINDS] = {"alloc", "enoent", "eacces", "eio_open", "eio_read", "eintr", "short_read", "truncate", "vanish",
    "replace", "stat_fail", "directory", "emfile", "bit_flip", "torn_block", "sink_fail", "sink_short", "sink_throw", "locale", "clock_jump",
    "env_var", "heap_layout", "heap_poison", "duplicate", "reorder", "preempt", "block", "splice", "cut"};
int fault_index(const std::string& n) {
    for (int i = 0; i < F_NKINDS; ++i) if (n == fault_names[i]) return i;
    return -1;
}

Shm* shm = nullptr;
thread_local Tls tl;

static RunConfig cfg;
static uint64_t run_hash, ev, next_sw_ev = ~0ull, sched_sig;
static size_t sched_pos;
static uint64_t total_steps;
static bool mt = false;        // more than one simulated thread is alive
static bool running = false;   // inside run_start..exit
static uint64_t vclock = 1'700'000'000'000'000'000ull;
static uint64_t since_switch;

SutScope::SutScope() : saved(tl.in_sut), wsaved(shm ? shm->where : 0) { tl.in_sut = 1; if (shm) shm->where = 1; }
SutScope::~SutScope() { tl.in_sut = saved; if (shm) shm->where = wsaved; }
ArenaScope::ArenaScope() : saved(tl.in_sut) { tl.in_sut = 2; }
ArenaScope::~ArenaScope() { tl.in_sut = saved; }
NoSut::NoSut() : saved(tl.in_sut) { tl.in_sut = 0; }
NoSut::~NoSut() { tl.in_sut = saved; }

void hash_in(uint64_t v) { run_hash = mix(run_hash, v); }
uint64_t now_ns() { return vclock; }

static void finish_counters() {
    if (!shm) return;
    shm->hash = run_hash; shm->events = ev; shm->steps = total_steps; shm->sched_sig = sched_sig; shm->vtime = vclock - 1'700'000'000'000'000'000ull;
}
[[noreturn]] void violation(const char* code, const std::string& text) {
    tl.in_sut = 0;
    finish_counters();
    if (shm) {
        shm->violated = 1;
        snprintf(shm->what, sizeof shm->what, "%s", code);
        size_t n = std::min(text.size(), Shm::TEXT - 1);
        memcpy(shm->text, text.data(), n); shm->text[n] = 0; shm->text_len = n;
    } else {
        fprintf(stderr, "violation %s: %s\n", code, text.c_str());
    }
    _exit(3);
}
[[noreturn]] void harness_error(const std::string& text) {
    tl.in_sut = 0;
    if (shm) {
        shm->harness_error = 1;
        size_t n = std::min(text.size(), Shm::TEXT - 1);
        memcpy(shm->text, text.data(), n); shm->text[n] = 0; shm->text_len = n;
    }
    fprintf(stderr, "harness error: %s\n", text.c_str());
    _exit(4);
}
void fired(FaultKind k, uint64_t n) {
    if (!shm) return;
    shm->run_fired[k] += n;
    shm->fired[k] += n;
}

// ------------------------------------------------------------------------------------------------
// Heap: deterministic arena with red zones, poisoning, delayed reuse, per-granule validity shadow.
// ------------------------------------------------------------------------------------------------
static constexpr uintptr_t ARENA = 0x100000000000ull;
static constexpr size_t ARENA_SZ = 8ull << 30;
static constexpr uintptr_t SHADOW = 0x180000000000ull;  // one byte per 16-byte granule: valid bytes (0..16), 0xFD freed
static constexpr uint32_t MAGIC = 0x51A7B10C;
struct Blk {
    uint32_t magic; uint32_t align_off;
    uint64_t size;
    uint64_t seq;
    Blk *prev, *next;
    int32_t th, op;
    uint64_t pad;
};
static_assert(sizeof(Blk) == 56 + 0 || sizeof(Blk) % 8 == 0);
static uintptr_t bump = ARENA + 4096;
static Blk live_head;  // circular list
static uint64_t nlive, blive, aseq;
static uint64_t layout_seed, poison_seed;
static bool reuse_now;   // freed blocks are handed out again at once, like a real allocator does
struct FreeNode { FreeNode* next; };
static FreeNode* freelist[48];
struct QEnt { void* base; size_t cls; };
static QEnt* quar; static size_t qh, qt; static constexpr size_t QCAP = 1 << 14;
static uint64_t qbytes; static constexpr uint64_t QBYTES = 8 << 20;

static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
static inline uint8_t* shadow_of(uintptr_t a) { return reinterpret_cast<uint8_t*>(SHADOW + ((a - ARENA) >> 4)); }
static void race_clear(uintptr_t lo, uintptr_t hi);

static void heap_init() {
    void* p = mmap(reinterpret_cast<void*>(ARENA), ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(ARENA)) harness_error("cannot map arena");
    p = mmap(reinterpret_cast<void*>(SHADOW), ARENA_SZ >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(SHADOW)) harness_error("cannot map shadow");
    madvise(reinterpret_cast<void*>(ARENA), ARENA_SZ, MADV_NOHUGEPAGE);
    madvise(reinterpret_cast<void*>(SHADOW), ARENA_SZ >> 4, MADV_NOHUGEPAGE);
    live_head.prev = live_head.next = &live_head;
    quar = static_cast<QEnt*>(mmap(nullptr, QCAP * sizeof(QEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
static inline size_t cls_of(size_t total) { return static_cast<size_t>(64 - __builtin_clzll((total | 63) )); }

static void* sim_alloc(size_t size, size_t align) {
    size_t a = align < 16 ? 16 : align;
    size_t total = sizeof(Blk) + 16 + a + ((size + 15) & ~size_t{15}) + 16;
    size_t cls = cls_of(total - 1);
    size_t csz = size_t{1} << cls;
    uintptr_t base;
    if (freelist[cls]) {
        base = reinterpret_cast<uintptr_t>(freelist[cls]);
        freelist[cls] = freelist[cls]->next;
    } else {
        uint64_t skip = layout_seed ? (mix(layout_seed, ++aseq) & 31) * 16 : 0;
        if (csz > (1u << 14)) csz = (total + 4095) & ~size_t{4095}, cls = 47;  // big blocks: never reused
        base = (bump + skip + 15) & ~uintptr_t{15};
        bump = base + csz;
        if (bump > ARENA + ARENA_SZ) harness_error("simulated heap exhausted");
    }
    uintptr_t user = (base + sizeof(Blk) + 16 + a - 1) & ~(uintptr_t{a} - 1);
    user = (user + 15) & ~uintptr_t{15};
    Blk* b = reinterpret_cast<Blk*>(user - sizeof(Blk) - 8);
    b->magic = MAGIC; b->align_off = static_cast<uint32_t>(user - base); b->size = size; b->seq = ++aseq;
    b->th = tl.th; b->op = tl.op; b->pad = cls;
    b->prev = live_head.prev; b->next = &live_head; b->prev->next = b; live_head.prev = b;
    ++nlive; blive += size;
    // red zones and validity
    uint8_t* sh = shadow_of(user);
    size_t full = size >> 4;
    memset(sh, 16, full);
    sh[full] = static_cast<uint8_t>(size & 15);
    sh[-1] = 0;
    sh[full + 1] = 0;
    uint64_t pz = poison_seed ? poison_seed : 0xA5A5A5A5A5A5A5A5ull;
    memset(reinterpret_cast<void*>(user), static_cast<int>(pz & 0xff), size > 4096 ? 4096 : size);
    uint8_t* rz = reinterpret_cast<uint8_t*>(user + size);
    memset(rz, 0xFB, 16);
    if (mt) race_clear(user, user + size);
    return reinterpret_cast<void*>(user);
}
static Blk* blk_of(void* p) { return reinterpret_cast<Blk*>(reinterpret_cast<uintptr_t>(p) - sizeof(Blk) - 8); }
static bool blk_check(Blk* b, std::string& why) {
    uintptr_t user = reinterpret_cast<uintptr_t>(b) + sizeof(Blk) + 8;
    auto* rz = reinterpret_cast<uint8_t*>(user + b->size);
    for (int i = 0; i < 16; ++i) if (rz[i] != 0xFB) { why = "write past the end of a " + std::to_string(b->size) + "-byte block"; return false; }
    return true;
}
static void sim_free(void* p) {
    Blk* b = blk_of(p);
    if (b->magic != MAGIC) {
        violation("heap", b->magic == ~MAGIC ? "double free" : "free of a pointer that was not allocated");
    }
    std::string why;
    if (!blk_check(b, why)) violation("heap", why);
    b->magic = ~MAGIC;
    b->prev->next = b->next; b->next->prev = b->prev;
    --nlive; blive -= b->size;
    uintptr_t user = reinterpret_cast<uintptr_t>(p);
    size_t g = (b->size + 15) >> 4;
    memset(shadow_of(user), 0xFD, g ? g : 1);
    memset(p, 0xDD, b->size > 4096 ? 4096 : b->size);
    uintptr_t base = user - b->align_off;
    size_t cls = b->pad;
    if (cls == 47) {
        if (b->size > (1 << 20)) madvise(reinterpret_cast<void*>((user + 4095) & ~uintptr_t{4095}), b->size & ~size_t{4095}, MADV_DONTNEED);
        return;
    }
    quar[qt % QCAP] = {reinterpret_cast<void*>(base), cls};
    ++qt; qbytes += size_t{1} << cls;
    while (qt - qh >= QCAP || qbytes > QBYTES || (reuse_now && qt != qh)) {
        QEnt e = quar[qh % QCAP]; ++qh; qbytes -= size_t{1} << e.cls;
        auto* f = static_cast<FreeNode*>(e.base);
        f->next = freelist[e.cls]; freelist[e.cls] = f;
    }
}
uint64_t live_blocks() { return nlive; }
uint64_t live_bytes() { return blive; }
uint64_t alloc_seq() { return aseq; }
bool heap_ok(std::string& why) {
    for (Blk* b = live_head.next; b != &live_head; b = b->next) if (!blk_check(b, why)) return false;
    return true;
}
std::string describe_live(uint64_t since, int maxn) {
    std::string r;
    for (Blk* b = live_head.next; b != &live_head && maxn > 0; b = b->next)
        if (b->seq > since) { r += " " + std::to_string(b->size) + "B(op " + std::to_string(b->th) + "." + std::to_string(b->op) + ")"; --maxn; }
    return r;
}
[[noreturn]] static void bad_access(uintptr_t a, unsigned size, bool w, void* pc) {
    uint8_t s = *shadow_of(a);
    char buf[200];
    snprintf(buf, sizeof buf, "%s of %u bytes %s at code address %p", w ? "write" : "read", size,
             s == 0xFD ? "in freed memory" : "outside any live heap block", pc);
    violation("heap", buf);
}
static inline void heap_check(uintptr_t a, size_t size, bool w, void* pc) {
    if (!size) return;
    uintptr_t g0 = a >> 4, g1 = (a + size - 1) >> 4;
    for (uintptr_t g = g0; g <= g1; ++g) {
        uint8_t v = *shadow_of(g << 4);
        unsigned need = g == g1 ? static_cast<unsigned>(((a + size - 1) & 15) + 1) : 16;
        if (v > 16 || v < need) bad_access(a, static_cast<unsigned>(size), w, pc);
    }
}

// ------------------------------------------------------------------------------------------------
// Scheduler
// ------------------------------------------------------------------------------------------------
static constexpr int MAXT = 24;
enum St { S_NONE, S_RUN, S_BLOCK, S_DONE };
struct Thr {
    St st = S_NONE;
    const void* wait = nullptr;
    int fut = 0;
    uint32_t vc[MAXT] = {};
    pthread_t pt{};
    bool timed = false, timed_out = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    std::function<void()> body;
    bool sut_thread = false, detached = false;
};
static Thr thr[MAXT];
static int nthr = 0;
static int cur = -1;
static int main_fut = 0;
static int alive = 0;

static void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static int runnable_list(int* out, int except) {
    int n = 0;
    for (int i = 0; i < nthr; ++i) if (i != except && thr[i].st == S_RUN) out[n++] = i;
    return n;
}
static void set_next_sw() {
    auto& s = cfg.plan->sched;
    while (sched_pos < s.size() && s[sched_pos].ev <= ev) ++sched_pos;
    next_sw_ev = sched_pos < s.size() ? s[sched_pos].ev : ~0ull;
}
static void transfer(int to) {  // hand the baton to thread `to`; caller parks
    int me = tl.tid;
    cur = to;
    sched_sig = mix(sched_sig, (ev << 8) | static_cast<unsigned>(to));
    hash_in((ev << 8) | static_cast<unsigned>(to));
    if (shm) ++shm->switches;
    since_switch = 0;
    fwake(&thr[to].fut);
    fwait(&thr[me].fut);
    if (shm) { shm->cur_th = tl.th; shm->cur_op = tl.op; shm->where = tl.in_sut; }
}
static void preempt_now(uint64_t key) {
    int list[MAXT];
    int n = runnable_list(list, tl.tid);
    int to = -1;
    if (sched_pos < cfg.plan->sched.size() && cfg.plan->sched[sched_pos].ev <= ev) {
        int want = cfg.plan->sched[sched_pos].to;
        ++sched_pos;
        if (n) to = list[static_cast<unsigned>(want) % static_cast<unsigned>(n)];
    }
    set_next_sw();
    if (to >= 0) { fired(F_PREEMPT); sched_sig = mix(sched_sig, key); transfer(to); }
}
static inline void event(uint64_t key) {
    ++ev; ++since_switch;
    if (__builtin_expect(ev >= next_sw_ev, 0)) preempt_now(key);
    else if (__builtin_expect(since_switch > 3'000'000, 0)) {  // fairness: a spinning caller cannot starve the others
        int list[MAXT]; int n = runnable_list(list, tl.tid);
        since_switch = 0;
        if (n) { int nx = list[0]; for (int i = 0; i < n; ++i) if (list[i] > tl.tid) { nx = list[i]; break; } transfer(nx); }
    }
}
void yield_point(uint64_t key) {
    if (running && mt && tl.tid >= 0) event(key);
}
static void block_on(const void* obj, bool timed = false) {
    if (tl.tid < 0) harness_error("blocking call outside simulated threads");
    thr[tl.tid].wait = obj; thr[tl.tid].st = S_BLOCK; thr[tl.tid].timed = timed; thr[tl.tid].timed_out = false;
    fired(F_BLOCK);
    int list[MAXT];
    int n = runnable_list(list, tl.tid);
    if (!n) {
        for (int i = 0; i < nthr; ++i) if (thr[i].st == S_BLOCK && thr[i].timed) {
            thr[i].st = S_RUN; thr[i].timed_out = true; vclock += 1'000'000'000ull;
            if (i == tl.tid) return;
            transfer(i); return;
        }
        violation("deadlock", "every caller is blocked");
    }
    int nx = list[0];
    for (int i = 0; i < n; ++i) if (list[i] > tl.tid) { nx = list[i]; break; }
    transfer(nx);
}
static void wake_all(const void* obj) { for (int i = 0; i < nthr; ++i) if (thr[i].st == S_BLOCK && thr[i].wait == obj) thr[i].st = S_RUN; }
static void wake_one(const void* obj) { for (int i = 0; i < nthr; ++i) if (thr[i].st == S_BLOCK && thr[i].wait == obj) { thr[i].st = S_RUN; return; } }

static void thread_exit_path() {  // called by a finishing simulated thread holding the baton
    int me = tl.tid;
    tl.in_sut = 0;
    thr[me].st = S_DONE; --alive;
    wake_all(&thr[me]);
    int list[MAXT];
    int n = runnable_list(list, me);
    if (n) {
        int nx = list[0];
        for (int i = 0; i < n; ++i) if (list[i] > me) { nx = list[i]; break; }
        mt = alive > 1;
        cur = nx; sched_sig = mix(sched_sig, (ev << 8) | 0x80u | static_cast<unsigned>(nx)); since_switch = 0;
        fwake(&thr[nx].fut);
    } else if (alive > 0) {
        for (int i = 0; i < nthr; ++i) if (thr[i].st == S_BLOCK && thr[i].timed) { thr[i].st = S_RUN; thr[i].timed_out = true; cur = i; fwake(&thr[i].fut); return; }
        violation("deadlock", "every remaining caller is blocked");
    } else {
        mt = false;
        fwake(&main_fut);
    }
}
static void stack_bounds() {
    pthread_attr_t at; void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    tl.stack_lo = reinterpret_cast<uintptr_t>(lo); tl.stack_hi = tl.stack_lo + sz;
}
static pthread_key_t exit_key;    // its destructor runs after the thread_local destructors, so those still run under the baton
static void exit_key_run(void*) { thread_exit_path(); }
static void* trampoline(void* p) {
    pthread_setspecific(exit_key, reinterpret_cast<void*>(intptr_t{1}));
    int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
    tl = Tls{};
    tl.tid = id;
    stack_bounds();
    fwait(&thr[id].fut);
    if (thr[id].sut_thread) {
        tl.th = id; tl.in_sut = 1;
        thr[id].ret = thr[id].fn(thr[id].arg);
    } else {
        thr[id].body();
    }
    tl.in_sut = 0;
    return thr[id].ret;
}
static int real_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F fn = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
    return fn(t, a, f, p);
}
static int new_thread() {
    if (nthr >= MAXT) violation("threads", "more threads started than the simulator supports");
    int id = nthr++;
    thr[id] = Thr{};
    thr[id].st = S_RUN;
    return id;
}
void spawn(std::vector<std::function<void()>> bodies) {
    int base = nthr;
    for (auto& b : bodies) {
        int id = new_thread();
        thr[id].body = std::move(b);
        for (int i = 0; i < MAXT; ++i) thr[id].vc[i] = 1;  // everything before spawn happened before
        thr[id].vc[id] = 2;
    }
    alive = static_cast<int>(bodies.size());
    mt = alive > 1;
    set_next_sw();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    for (int i = base; i < nthr; ++i) if (real_pthread_create(&thr[i].pt, &at, trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(i)))) harness_error("pthread_create");
    pthread_attr_destroy(&at);
    cur = base;
    fwake(&thr[base].fut);
    fwait(&main_fut);
    for (int i = base; i < nthr; ++i) if (!thr[i].sut_thread) {
        using F = int (*)(pthread_t, void**);
        static F fn = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_join"));
        fn(thr[i].pt, nullptr);
    }
    finish_counters();
}

// ------------------------------------------------------------------------------------------------
// Happens-before race detection
// ------------------------------------------------------------------------------------------------
struct Cell { uint8_t tid, off, size, flags; uint32_t clk; };  // flags: 1 write, 2 atomic, 0x80 used
struct Gran { uintptr_t key; Cell c[6]; uint8_t next; };
static constexpr size_t GT = 1 << 18;
static Gran* gt; static size_t gused;
static std::unordered_map<uintptr_t, uint32_t*>* syncv;

static void race_init() {
    gt = static_cast<Gran*>(mmap(nullptr, GT * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    syncv = new std::unordered_map<uintptr_t, uint32_t*>();
}
static Gran* gfind(uintptr_t key, bool create) {
    size_t h = (((key >> 8) * 0x9E3779B97F4A7C15ull >> (64 - 10)) << 8) | (key & 255);   // neighbours share pages
    for (size_t i = 0; i < 64; ++i) {
        Gran& g = gt[(h + i) & (GT - 1)];
        if (g.key == key) return &g;
        if (!g.key) {
            if (!create || gused > GT / 2) return nullptr;
            ++gused; g.key = key; return &g;
        }
    }
    return nullptr;
}
static void race_clear(uintptr_t lo, uintptr_t hi) {
    if (hi - lo > (1 << 16)) hi = lo + (1 << 16);
    for (uintptr_t k = lo >> 3; k <= (hi - 1) >> 3 && hi > lo; ++k) if (Gran* g = gfind(k, false)) { memset(g->c, 0, sizeof g->c); }
}
static void race_one(uintptr_t a, unsigned size, bool w, bool atomic, void* pc) {
    Gran* g = gfind(a >> 3, true);
    if (!g) return;
    int t = tl.tid;
    auto& me = thr[t];
    uint8_t off = a & 7, fl = static_cast<uint8_t>(0x80 | (w ? 1 : 0) | (atomic ? 2 : 0));
    Cell* same = nullptr; Cell* empty = nullptr;
    for (auto& c : g->c) {
        if (!(c.flags & 0x80)) { if (!empty) empty = &c; continue; }
        if (c.tid == t) {
            if (c.off == off && c.size == size && c.flags == fl) same = &c;
            continue;
        }
        if (c.off >= off + size || off >= c.off + c.size) continue;
        if (!((c.flags | fl) & 1)) continue;
        if (c.flags & fl & 2) continue;
        if (me.vc[c.tid] >= c.clk) continue;
        char buf[300];
        snprintf(buf, sizeof buf, "unsynchronised conflicting accesses: %s of %u bytes by caller %d (code address %p) and %s by caller %d, to %s memory",
                 w ? "write" : "read", size, t, pc, (c.flags & 1) ? "write" : "read", c.tid, in_arena(a) ? "heap" : "static or stack");
        violation("race", buf);
    }
    if (same) { same->clk = me.vc[t]; return; }
    Cell* slot = empty;
    if (!slot) slot = &g->c[g->next++ % 6];
    *slot = Cell{static_cast<uint8_t>(t), off, static_cast<uint8_t>(size), fl, me.vc[t]};
}
static void race_range(uintptr_t a, size_t size, bool w, bool atomic, void* pc) {
    if (size > 4096) size = 4096;
    while (size) {
        unsigned n = static_cast<unsigned>(8 - (a & 7));
        if (n > size) n = static_cast<unsigned>(size);
        race_one(a, n, w, atomic, pc);
        a += n; size -= n;
    }
}
static uint32_t* sync_get(uintptr_t a, bool create) {
    NoSut ns;
    auto it = syncv->find(a);
    if (it != syncv->end()) return it->second;
    if (!create) return nullptr;
    auto* v = static_cast<uint32_t*>(calloc(MAXT, 4));
    (*syncv)[a] = v;
    return v;
}
static void acquire(uintptr_t a) {
    if (tl.tid < 0) return;
    if (uint32_t* v = sync_get(a, false)) for (int i = 0; i < MAXT; ++i) if (v[i] > thr[tl.tid].vc[i]) thr[tl.tid].vc[i] = v[i];
}
static void release(uintptr_t a) {
    if (tl.tid < 0) return;
    uint32_t* v = sync_get(a, true);
    auto& me = thr[tl.tid];
    for (int i = 0; i < MAXT; ++i) if (me.vc[i] > v[i]) v[i] = me.vc[i];
    ++me.vc[tl.tid];
}

// ------------------------------------------------------------------------------------------------
// Instrumentation hooks
// ------------------------------------------------------------------------------------------------
static inline void step(uint64_t n = 1) {
    tl.op_steps += n;
    total_steps += n;
    if (__builtin_expect(tl.op_steps > cfg.step_budget, 0)) { tl.in_sut = 0; violation("steps", "a call has not ended after " + std::to_string(cfg.step_budget) + " steps"); }
}
static inline bool image_data(uintptr_t a) { return a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&end); }
static inline void access(uintptr_t a, size_t size, bool w, bool atomic, void* pc) {
    if (tl.in_sut != 1 || !running) return;
    step(1 + size / 32);
    if (a - tl.stack_lo < tl.stack_hi - tl.stack_lo) return;
    if (in_arena(a)) heap_check(a, size, w, pc);
    run_hash = (run_hash ^ reinterpret_cast<uintptr_t>(pc)) * 0x100000001b3ull;
    if (mt) {
        // Simulated heap and program data only: other memory (exception objects, thread storage) is reused without the simulator seeing it.
        if (cfg.detect_races && size && (in_arena(a) || image_data(a))) race_range(a, size, w, atomic, pc);
        event(reinterpret_cast<uintptr_t>(pc));
    }
}
#define PC __builtin_return_address(0)

static inline void dict_add(uint64_t v) {
    static uint64_t lately[1024];   // of this process, which is forked for one run
    uint64_t& slot = lately[(v * 0x9E3779B97F4A7C15ull) >> 54];
    if (!shm || v < 3 || slot == v) return;
    slot = v;
    if (shm->ncmp >= Shm::DICT) return;
    uint64_t n = shm->ncmp < Shm::DICT ? shm->ncmp : Shm::DICT;
    for (uint64_t i = 0; i < n; ++i) if (shm->cmp[i] == v) return;
    if (n < Shm::DICT) { shm->cmp[n] = v; shm->ncmp = n + 1; }
}
static inline void dict_str(const void* p, size_t n) {
    if (!shm || n < 2 || n > 63 || shm->nstr >= 64) return;
    for (uint64_t i = 0; i < shm->nstr; ++i) if (shm->strn[i] == n && !memcmp(shm->str[i], p, n)) return;
    memcpy(shm->str[shm->nstr], p, n); shm->strn[shm->nstr] = static_cast<uint8_t>(n); ++shm->nstr;
}
static bool ro_data(const void* p);

}  // namespace sim
using namespace sim;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
    if (tl.in_sut == 1 && running) {
        step();
        char c; auto sp = reinterpret_cast<int64_t>(&c);
        if (tl.sp_base - sp > tl.sp_max) tl.sp_max = tl.sp_base - sp;
    }
}
void __tsan_func_exit() {}
#define RW(N)                                                                                          \
    void __tsan_read##N(void* a) { access(reinterpret_cast<uintptr_t>(a), N, false, false, PC); }      \
    void __tsan_write##N(void* a) { access(reinterpret_cast<uintptr_t>(a), N, true, false, PC); }      \
    void __tsan_unaligned_read##N(void* a) { access(reinterpret_cast<uintptr_t>(a), N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* a) { access(reinterpret_cast<uintptr_t>(a), N, true, false, PC); } \
    void __tsan_volatile_read##N(void* a) { access(reinterpret_cast<uintptr_t>(a), N, false, false, PC); }  \
    void __tsan_volatile_write##N(void* a) { access(reinterpret_cast<uintptr_t>(a), N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { access(reinterpret_cast<uintptr_t>(a), static_cast<size_t>(n), false, false, PC); }
void __tsan_write_range(void* a, long n) { access(reinterpret_cast<uintptr_t>(a), static_cast<size_t>(n), true, false, PC); }
void __tsan_vptr_update(void** a, void*) { access(reinterpret_cast<uintptr_t>(a), 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access(reinterpret_cast<uintptr_t>(a), 8, false, false, PC); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_pre(volatile void* a, size_t n, bool w, int mo, void* pc) {
    if (tl.in_sut != 1 || !running) return;
    access(reinterpret_cast<uintptr_t>(a), n, w, true, pc);
    if (mt && is_acq(mo)) acquire(reinterpret_cast<uintptr_t>(a));
}
static inline void at_post(volatile void* a, int mo) {
    if (tl.in_sut != 1 || !running || !mt) return;
    if (is_rel(mo)) release(reinterpret_cast<uintptr_t>(a));
}
#define AT(B, T)                                                                                                                     \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_pre(const_cast<T*>(a), sizeof(T), false, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, __ATOMIC_RELAXED, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { at_pre(a, sizeof(T), true, mo, PC); bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { at_pre(a, sizeof(T), true, mo, PC); bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(a, mo); return r; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { at_pre(a, sizeof(T), true, mo, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(a, mo); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
    if (tl.in_sut != 1 || !running || !mt) return;
    static char f;
    if (is_acq(mo)) acquire(reinterpret_cast<uintptr_t>(&f));
    if (is_rel(mo)) release(reinterpret_cast<uintptr_t>(&f));
}
void __tsan_atomic_signal_fence(int) {}

// Bulk memory functions called by instrumented code (objcopy --redefine-sym on its objects).
void* __sim_memcpy(void* d, const void* s, size_t n) {
    if (tl.in_sut == 1 && running && n) { access(reinterpret_cast<uintptr_t>(s), n, false, false, PC); access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); }
    return memcpy(d, s, n);
}
void* __sim_memmove(void* d, const void* s, size_t n) {
    if (tl.in_sut == 1 && running && n) { access(reinterpret_cast<uintptr_t>(s), n, false, false, PC); access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); }
    return memmove(d, s, n);
}
void* __sim_memset(void* d, int c, size_t n) {
    if (tl.in_sut == 1 && running && n) access(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
    return memset(d, c, n);
}
int __sim_memcmp(const void* a, const void* b, size_t n) {
    if (tl.in_sut == 1 && running && n) {
        access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); access(reinterpret_cast<uintptr_t>(b), n, false, false, PC);
        if (ro_data(a)) dict_str(a, n);
        if (ro_data(b)) dict_str(b, n);
    }
    return memcmp(a, b, n);
}
static void touch(const void* p, size_t n, bool w, void* pc) { if (n) access(reinterpret_cast<uintptr_t>(p), n, w, false, pc); }
void* __sim_malloc(size_t n) {
    if (!tl.in_sut || !running) return malloc(n);
    return operator new(n, std::nothrow);
}
void* __sim_calloc(size_t a, size_t b) { void* p = __sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __sim_free_(void* p) { operator delete(p); }
void* __sim_realloc(void* p, size_t n) {
    if (p && !in_arena(reinterpret_cast<uintptr_t>(p))) return realloc(p, n);
    void* q = __sim_malloc(n);
    if (q && p) { size_t o = blk_of(p)->size; memcpy(q, p, o < n ? o : n); __sim_free_(p); }
    return q;
}
char* __sim_strdup(const char* s) { size_t n = strlen(s) + 1; auto p = static_cast<char*>(__sim_malloc(n)); if (p) memcpy(p, s, n); return p; }
char* __sim_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; touch(s, n, false, PC); touch(d, n, true, PC); return static_cast<char*>(memcpy(d, s, n)); }
char* __sim_strcat(char* d, const char* s) { size_t n = strlen(s) + 1, l = strlen(d); touch(s, n, false, PC); touch(d + l, n, true, PC); memcpy(d + l, s, n); return d; }
char* __sim_strncpy(char* d, const char* s, size_t n) { touch(d, n, true, PC); return strncpy(d, s, n); }
int __sim_strcmp(const char* a, const char* b) { touch(a, strlen(a) + 1, false, PC); touch(b, strlen(b) + 1, false, PC); return strcmp(a, b); }
int __sim_strncmp(const char* a, const char* b, size_t n) { touch(a, strnlen(a, n), false, PC); touch(b, strnlen(b, n), false, PC); return strncmp(a, b, n); }
char* __sim_strchr(const char* a, int c) { touch(a, strlen(a) + 1, false, PC); return const_cast<char*>(strchr(a, c)); }
void* __sim_memchr(const void* a, int c, size_t n) { auto r = memchr(a, c, n); touch(a, r ? static_cast<size_t>(static_cast<const char*>(r) - static_cast<const char*>(a)) + 1 : n, false, PC); return const_cast<void*>(r); }
int __sim_vsnprintf(char* d, size_t n, const char* f, va_list ap) {
    int r; { NoSut ns; r = vsnprintf(d, n, f, ap); }
    if (n && r >= 0) touch(d, static_cast<size_t>(r) + 1 < n ? static_cast<size_t>(r) + 1 : n, true, PC);
    step(static_cast<uint64_t>(r > 0 ? r : 1));
    return r;
}
int __sim_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __sim_vsprintf(char* d, const char* f, va_list ap) {
    va_list aq; va_copy(aq, ap); int r; { NoSut ns; r = vsnprintf(nullptr, 0, f, aq); } va_end(aq);
    if (r >= 0) touch(d, static_cast<size_t>(r) + 1, true, PC);
    NoSut ns; return vsprintf(d, f, ap);
}
int __sim_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = __sim_vsprintf(d, f, ap); va_end(ap); return r; }
size_t __sim_strlen(const char* s) {
    size_t n = strlen(s);
    if (tl.in_sut == 1 && running) access(reinterpret_cast<uintptr_t>(s), n + 1, false, false, PC);
    return n;
}

// Coverage and comparison operands: guide the seeded search.
void __sanitizer_cov_trace_pc() {
    if (tl.in_sut != 1 || !shm || !running) return;
    // A loop over registers makes no step that is seen elsewhere: its blocks are counted too
    if (__builtin_expect(++tl.op_blocks > cfg.step_budget, 0)) { tl.in_sut = 0; violation("steps", "a call has not ended after " + std::to_string(cfg.step_budget) + " blocks of code"); }
    uintptr_t pc = reinterpret_cast<uintptr_t>(PC);
    uint8_t& c = shm->cov[((pc * 0x9E3779B97F4A7C15ull) >> 48) & (Shm::COV - 1)];
    if (c < 255) ++c;
}
static inline void cmpc(uint64_t a, uint64_t b, uintptr_t pc) {
    if (tl.in_sut != 1 || !shm || !running) return;
    // progress on a comparison counts as coverage: number of equal leading bits
    int same = a == b ? 64 : __builtin_clzll(a ^ b);
    if (same > 40) shm->cov[((pc * 0xD1B54A32D192ED03ull + static_cast<unsigned>(same)) >> 48) & (Shm::COV - 1)] |= 1;
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { if (tl.in_sut == 1) { dict_add(a); cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); } }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { if (tl.in_sut == 1) { dict_add(a); cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); } }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { if (tl.in_sut == 1) { dict_add(a); cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); } }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { if (tl.in_sut == 1) { dict_add(a); cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); } }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (tl.in_sut == 1) cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (tl.in_sut == 1) cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (tl.in_sut == 1) cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (tl.in_sut == 1) cmpc(a, b, reinterpret_cast<uintptr_t>(PC)); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) {
    if (tl.in_sut != 1) return;
    static uint64_t* lately[256];
    uint64_t*& slot = lately[(reinterpret_cast<uintptr_t>(c) * 0x9E3779B97F4A7C15ull) >> 56];
    if (slot != c) { slot = c; for (uint64_t i = 0; i < c[0]; ++i) dict_add(c[2 + i]); }
    cmpc(v, 0, reinterpret_cast<uintptr_t>(PC));
}
}  // extern "C"

static bool sim::ro_data(const void* p) {
    auto a = reinterpret_cast<uintptr_t>(p);
    return a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&end);
}

// ------------------------------------------------------------------------------------------------
// operator new / delete
// ------------------------------------------------------------------------------------------------
static void* do_new(size_t n, size_t align, bool nothrow) {
    if (!tl.in_sut || !running) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    if (tl.in_sut == 1) {
        yield_point(0xA110C);
        int64_t idx = tl.calm ? -1 : static_cast<int64_t>(tl.op_allocs++);
        tl.op_bytes += n;
        if (shm) { ++shm->allocs; }
        hash_in(n);
        if (!tl.calm) for (auto& f : cfg.plan->faults) {
            if (f.k != "alloc" || f.op != tl.op || (f.th >= 0 && f.th != tl.th)) continue;
            bool hit = f.a < 0 ? idx >= f.n : (idx >= f.n && idx < f.n + (f.a ? f.a : 1));
            if (hit) {
                fired(F_ALLOC);
                ++tl.op_oom;
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        if (n > (1ull << 40) || blive + n > cfg.byte_budget) {
            if (n <= cfg.byte_budget / 2) { tl.in_sut = 0; violation("memory", "more than " + std::to_string(cfg.byte_budget >> 20) + " MiB live"); }
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    return sim_alloc(n, align);
}
static void do_delete(void* p) {
    if (!p) return;
    if (in_arena(reinterpret_cast<uintptr_t>(p))) {
        if (tl.in_sut == 1) { yield_point(0xF4EE); }
        sim_free(p);
    } else {
        free(p);
    }
}
void* operator new(size_t n) { return do_new(n, 16, false); }
void* operator new[](size_t n) { return do_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, static_cast<size_t>(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, static_cast<size_t>(a), true); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

// ------------------------------------------------------------------------------------------------
// Blocking primitives
// ------------------------------------------------------------------------------------------------
template <class F> static F nextfn(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
struct Lock { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<const void*, Lock>* locks;
static bool simulated() { return running && tl.tid >= 0 && tl.in_sut == 1; }
static Lock& lock_of(const void* m) { NoSut ns; return (*locks)[m]; }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
    yield_point(reinterpret_cast<uintptr_t>(PC));
    for (;;) {
        Lock& l = lock_of(m);
        if (l.owner < 0) { l.owner = tl.tid; l.depth = 1; acquire(reinterpret_cast<uintptr_t>(m)); return 0; }
        if (l.owner == tl.tid) {
            if (m->__data.__kind & 1) { ++l.depth; return 0; }
            violation("deadlock", "a caller locks a mutex it already holds");
        }
        block_on(m);
    }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
    Lock& l = lock_of(m);
    if (l.owner < 0) { l.owner = tl.tid; l.depth = 1; acquire(reinterpret_cast<uintptr_t>(m)); return 0; }
    if (l.owner == tl.tid && (m->__data.__kind & 1)) { ++l.depth; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
    Lock& l = lock_of(m);
    if (l.owner == tl.tid && --l.depth == 0) { release(reinterpret_cast<uintptr_t>(m)); l.owner = -1; wake_all(m); }
    yield_point(reinterpret_cast<uintptr_t>(PC));
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
    yield_point(reinterpret_cast<uintptr_t>(PC));
    for (;;) {
        Lock& l = lock_of(m);
        if (l.owner < 0) { ++l.readers; acquire(reinterpret_cast<uintptr_t>(m)); return 0; }
        if (l.owner == tl.tid) return EDEADLK;
        block_on(m);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
    yield_point(reinterpret_cast<uintptr_t>(PC));
    for (;;) {
        Lock& l = lock_of(m);
        if (l.owner < 0 && l.readers == 0) { l.owner = tl.tid; acquire(reinterpret_cast<uintptr_t>(m)); return 0; }
        if (l.owner == tl.tid) return EDEADLK;
        block_on(m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
    Lock& l = lock_of(m);
    release(reinterpret_cast<uintptr_t>(m));
    if (l.owner == tl.tid) l.owner = -1; else if (l.readers) --l.readers;
    wake_all(m);
    yield_point(reinterpret_cast<uintptr_t>(PC));
    return 0;
}
static int cond_block(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    pthread_mutex_unlock(m);
    block_on(c, timed);
    bool to = thr[tl.tid].timed_out;
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
    return cond_block(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return f(c, m, t); }
    return cond_block(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return f(c, m, k, t); }
    return cond_block(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
    wake_one(c); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
    wake_all(c); return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, fn); }
    yield_point(reinterpret_cast<uintptr_t>(PC));
    // encoding shared with glibc: bit 1 (value 2) means done
    for (;;) {
        if (__atomic_load_n(o, __ATOMIC_ACQUIRE) & 2) { acquire(reinterpret_cast<uintptr_t>(o)); return 0; }
        Lock& l = lock_of(o);
        if (l.owner < 0) {
            l.owner = tl.tid;
            try { fn(); } catch (...) { lock_of(o).owner = -1; wake_all(o); throw; }
            __atomic_store_n(o, 2, __ATOMIC_RELEASE);
            release(reinterpret_cast<uintptr_t>(o));
            lock_of(o).owner = -1; wake_all(o);
            return 0;
        }
        block_on(o);
    }
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    if (!simulated()) return real_pthread_create(t, a, f, p);
    int id = new_thread();
    thr[id].sut_thread = true; thr[id].fn = f; thr[id].arg = p;
    memcpy(thr[id].vc, thr[tl.tid].vc, sizeof thr[id].vc);
    ++thr[tl.tid].vc[tl.tid]; thr[id].vc[id] = 2;
    ++alive; mt = true;
    int r = real_pthread_create(&thr[id].pt, nullptr, trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(id)));
    if (r) harness_error("pthread_create");
    *t = thr[id].pt;
    yield_point(reinterpret_cast<uintptr_t>(PC));
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!simulated()) { static auto f = nextfn<int (*)(pthread_t, void**)>("pthread_join"); return f(t, ret); }
    for (int i = 0; i < nthr; ++i) if (thr[i].sut_thread && pthread_equal(thr[i].pt, t)) {
        while (thr[i].st != S_DONE) block_on(&thr[i]);
        for (int k = 0; k < MAXT; ++k) if (thr[i].vc[k] > thr[tl.tid].vc[k]) thr[tl.tid].vc[k] = thr[i].vc[k];
        if (ret) *ret = thr[i].ret;
        return 0;
    }
    return ESRCH;
}
int sched_yield(void) {
    if (!simulated()) return static_cast<int>(syscall(SYS_sched_yield));
    int list[MAXT]; int n = runnable_list(list, tl.tid);
    ++ev; step(100);
    if (n) { int nx = list[0]; for (int i = 0; i < n; ++i) if (list[i] > tl.tid) { nx = list[i]; break; } transfer(nx); }
    return 0;
}
int __cxa_guard_acquire(long long* g) {
    auto* done = reinterpret_cast<unsigned char*>(g);
    if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) { if (simulated()) acquire(reinterpret_cast<uintptr_t>(g)); return 0; }
    if (!simulated()) return 1;
    yield_point(reinterpret_cast<uintptr_t>(PC));
    for (;;) {
        if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) { acquire(reinterpret_cast<uintptr_t>(g)); return 0; }
        Lock& l = lock_of(g);
        if (l.owner < 0) { l.owner = tl.tid; acquire(reinterpret_cast<uintptr_t>(g)); return 1; }
        if (l.owner == tl.tid) violation("deadlock", "recursive initialisation of a function-local static");
        block_on(g);
    }
}
void __cxa_guard_release(long long* g) {
    if (simulated()) release(reinterpret_cast<uintptr_t>(g));
    __atomic_store_n(reinterpret_cast<unsigned char*>(g), 1, __ATOMIC_RELEASE);
    if (simulated()) { lock_of(g).owner = -1; wake_all(g); yield_point(reinterpret_cast<uintptr_t>(PC)); }
}
void __cxa_guard_abort(long long* g) {
    if (simulated()) { release(reinterpret_cast<uintptr_t>(g)); lock_of(g).owner = -1; wake_all(g); }
}

// ---- clock, environment -----------------------------------------------------------------------
static int64_t envv(const char* k, int64_t d) { auto it = cfg.plan->env.find(k); return it == cfg.plan->env.end() ? d : it->second; }
static uint64_t read_clock() {
    NoSut ns;
    vclock += 1000;
    int64_t j = envv("clock", 0);
    if (j) { vclock = static_cast<uint64_t>(static_cast<int64_t>(vclock) + static_cast<int64_t>(mix(static_cast<uint64_t>(j), vclock) % 7'000'000'000'000ull) - 3'000'000'000'000ll); fired(F_CLOCK); }
    return vclock;
}
int clock_gettime(clockid_t id, timespec* t) {
    if (!simulated()) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
    uint64_t v = read_clock(); t->tv_sec = static_cast<time_t>(v / 1'000'000'000); t->tv_nsec = static_cast<long>(v % 1'000'000'000); return 0;
}
time_t time(time_t* o) {
    time_t v;
    if (!simulated()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = static_cast<time_t>(read_clock() / 1'000'000'000);
    if (o) *o = v;
    return v;
}
int gettimeofday(timeval* t, void*) {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0;
}
clock_t clock(void) {
    if (!simulated()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
    return static_cast<clock_t>(read_clock() / 1000);
}
int nanosleep(const timespec* t, timespec* r) {
    if (!simulated()) return static_cast<int>(syscall(SYS_nanosleep, t, r));
    vclock += static_cast<uint64_t>(t->tv_sec) * 1'000'000'000ull + static_cast<uint64_t>(t->tv_nsec); sched_yield(); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r) {
    if (!simulated()) return static_cast<int>(syscall(SYS_clock_nanosleep, c, fl, t, r));
    if (fl & TIMER_ABSTIME) { uint64_t v = static_cast<uint64_t>(t->tv_sec) * 1'000'000'000ull + static_cast<uint64_t>(t->tv_nsec); if (v > vclock) vclock = v; sched_yield(); return 0; }
    return nanosleep(t, r);
}
int usleep(useconds_t u) { timespec t{static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
extern char** environ;
static char* real_getenv(const char* n) {
    size_t l = strlen(n);
    for (char** e = environ; e && *e; ++e) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return nullptr;
}
char* getenv(const char* n) {
    if (!simulated()) return real_getenv(n);
    NoSut ns;
    int64_t s = envv("getenv", 0);
    if (!s) return nullptr;
    fired(F_ENV);
    static const char* vals[] = {"1", "", "0", "true", "/simfs/x", "yes", "42", "de_DE.ISO-8859-1"};
    return const_cast<char*>(vals[mix(static_cast<uint64_t>(s), fnv(n, strlen(n))) % 8]);
}
char* secure_getenv(const char* n) { return getenv(n); }
pid_t getpid(void) {
    if (!simulated()) return static_cast<pid_t>(syscall(SYS_getpid));
    NoSut ns; return static_cast<pid_t>(1000 + (envv("getenv", 0) & 0xfff));
}
static uint64_t randstate = 1;
int rand(void) { randstate = mix(randstate, 77 + static_cast<uint64_t>(simulated() ? envv("clock", 0) : 0)); return static_cast<int>(randstate & 0x7fffffff); }
long random(void) { return rand(); }
}  // extern "C"

// ------------------------------------------------------------------------------------------------
// Simulated files under /simfs/
// ------------------------------------------------------------------------------------------------
namespace {
struct SFile { std::string path, data; int type; };
struct OFile { bool used = false; std::string data; size_t pos = 0; uint64_t reads = 0; bool sut = false; FILE* fp = nullptr; };
std::vector<SFile>* files;
OFile ofiles[1024];
int nopen = 0;
bool simpath(const char* p) { return running && p && !strncmp(p, "/simfs/", 7); }
SFile* find_file(const char* p) { for (auto& f : *files) if (f.path == p) return &f; return nullptr; }
// A path that exists once the fault is not (yet) in force.
const Fault* fault_at(const char* kind, int64_t occ) {
    for (auto& f : cfg.plan->faults) {
        if (f.k != kind || f.op != tl.op || (f.th >= 0 && f.th != tl.th)) continue;
        if (f.n == occ || (f.n < 0)) return &f;
    }
    return nullptr;
}
int do_stat(const char* p, struct stat* st) {
    NoSut ns;
    yield_point(0x57A7);
    int64_t occ = static_cast<int64_t>(tl.op_stats++);
    hash_in(0x57A7 + static_cast<uint64_t>(occ));
    if (strlen(p) > 4095) { errno = ENAMETOOLONG; return -1; }
    for (const char* c = p; *c;) { const char* e = strchr(c, '/'); size_t l = e ? static_cast<size_t>(e - c) : strlen(c); if (l > 255) { errno = ENAMETOOLONG; return -1; } c = e ? e + 1 : c + l; }
    if (fault_at("enoent", occ)) { fired(F_ENOENT); errno = ENOENT; return -1; }
    if (auto f = fault_at("stat_fail", occ)) { fired(F_STAT); static const int e[] = {EACCES, EIO, ELOOP, ENOTDIR, EOVERFLOW, ESTALE}; errno = e[static_cast<size_t>(f->a) % 6]; return -1; }
    SFile* f = find_file(p);
    if (!f || f->type == 3) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = f->type == 1 ? (S_IFDIR | 0755) : f->type == 2 ? (S_IFCHR | 0666) : (S_IFREG | 0644);
    if (fault_at("directory", occ)) { fired(F_DIR); st->st_mode = S_IFDIR | 0755; }
    st->st_size = static_cast<off_t>(f->data.size()); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = 7;
    return 0;
}
int do_open(const char* p, int flags) {
    NoSut ns;
    yield_point(0x09E4);
    int64_t occ = static_cast<int64_t>(tl.op_opens++);
    hash_in(0x09E4 + static_cast<uint64_t>(occ));
    if (strlen(p) > 4095) { errno = ENAMETOOLONG; return -1; }
    if (fault_at("vanish", occ)) { fired(F_VANISH); errno = ENOENT; return -1; }
    if (fault_at("eacces", occ)) { fired(F_EACCES); errno = EACCES; return -1; }
    if (fault_at("eio_open", occ)) { fired(F_EIO_OPEN); errno = EIO; return -1; }
    if (fault_at("emfile", occ)) { fired(F_EMFILE); errno = EMFILE; return -1; }
    SFile* f = find_file(p);
    if (!f || f->type == 3) { errno = ENOENT; return -1; }
    if (flags & (O_WRONLY | O_RDWR)) violation("write", std::string("the library opens '") + p + "' for writing");
    std::string data = f->data;
    if (auto r = fault_at("replace", occ)) { fired(F_REPLACE); (void)r; for (auto& g : *files) if (g.path == std::string(p) + "#new") data = g.data; }
    int fd = static_cast<int>(syscall(SYS_memfd_create, "simfs", 0));
    if (fd < 0 || fd >= 1024) harness_error("memfd");
    size_t off = 0; while (off < data.size()) { ssize_t w = syscall(SYS_write, fd, data.data() + off, data.size() - off); if (w <= 0) harness_error("memfd write"); off += static_cast<size_t>(w); }
    syscall(SYS_lseek, fd, 0, SEEK_SET);
    ofiles[fd] = OFile{true, data, 0, 0, true, nullptr};
    if (f->type == 1) ofiles[fd].pos = ~size_t{0};
    ++nopen;
    return fd;
}
ssize_t do_read(int fd, void* buf, size_t n) {
    NoSut ns;
    yield_point(0x4EAD);
    OFile& o = ofiles[fd];
    int64_t occ = static_cast<int64_t>(tl.op_reads++);
    hash_in(0x4EAD + static_cast<uint64_t>(occ));
    if (o.pos == ~size_t{0}) { errno = EISDIR; return -1; }
    if (fault_at("eio_read", occ)) { fired(F_EIO_READ); errno = EIO; return -1; }
    if (auto f = fault_at("eintr", occ)) {
        for (int64_t k = 0; k <= f->a % 3; ++k) {}
        fired(F_EINTR); errno = EINTR; return -1;
    }
    size_t left = o.pos < o.data.size() ? o.data.size() - o.pos : 0;
    size_t m = n < left ? n : left;
    if (auto f = fault_at("short_read", occ)) if (m > 1) { fired(F_SHORT); m = 1 + static_cast<size_t>(f->a) % (m - 1); }
    memcpy(buf, o.data.data() + o.pos, m);
    o.pos += m;
    return static_cast<ssize_t>(m);
}
int do_close(int fd) { NoSut ns; ofiles[fd] = OFile{}; --nopen; return static_cast<int>(syscall(SYS_close, fd)); }
bool simfd(int fd) { return running && fd >= 0 && fd < 1024 && ofiles[fd].used; }
}  // namespace
namespace sim {
int open_files() { return nopen; }
void fs_set(const FsSpec& s) { NoSut ns; for (auto& f : *files) if (f.path == s.path) { f.data = s.data; f.type = s.type; return; } files->push_back({s.path, s.data, s.type}); }
void fs_clear() { files->clear(); }
}
extern "C" {
int stat(const char* p, struct stat* st) { if (simpath(p)) return do_stat(p, st); return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p, st, 0) < 0 ? -1 : 0); }
int stat64(const char* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) { if (simpath(p)) return do_stat(p, st); return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW) < 0 ? -1 : 0); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat(int fd, struct stat* st) {
    long r = syscall(SYS_fstat, fd, st);
    if (r == 0 && simfd(fd)) st->st_mode = (st->st_mode & ~static_cast<mode_t>(S_IFMT)) | S_IFREG;
    return r < 0 ? -1 : 0;
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int access(const char* p, int) { if (simpath(p)) { struct stat st; return do_stat(p, &st); } return static_cast<int>(syscall(SYS_access, p, 0)); }
int open(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); }
    if (simpath(p)) return do_open(p, fl);
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int open64(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); }
    return open(p, fl, m);
}
static FILE* sim_fopen(const char* p, const char* mode) {
    int fd = do_open(p, (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')) ? O_RDWR : O_RDONLY);
    if (fd < 0) return nullptr;
    FILE* fp = fdopen(fd, "r");
    ofiles[fd].fp = fp;
    return fp;
}
FILE* fopen(const char* p, const char* m) {
    if (simpath(p)) return sim_fopen(p, m);
    static auto f = nextfn<FILE* (*)(const char*, const char*)>("fopen");
    return f(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* fp) {
    static auto f = nextfn<int (*)(FILE*)>("fclose");
    int fd = running ? fileno(fp) : -1;
    if (simfd(fd)) { NoSut ns; ofiles[fd] = OFile{}; --nopen; }
    return f(fp);
}
ssize_t read(int fd, void* b, size_t n) { if (simfd(fd)) return do_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
size_t fread(void* b, size_t sz, size_t n, FILE* fp) {
    int fd = running ? fileno(fp) : -1;
    if (!simfd(fd)) { static auto f = nextfn<size_t (*)(void*, size_t, size_t, FILE*)>("fread"); return f(b, sz, n, fp); }
    size_t want = sz * n, got = 0;
    while (got < want) { ssize_t r = do_read(fd, static_cast<char*>(b) + got, want - got); if (r < 0) { if (errno == EINTR) continue; fp->_flags |= 0x20; break; } if (!r) { fp->_flags |= 0x10; break; } got += static_cast<size_t>(r); }
    return sz ? got / sz : 0;
}
off_t lseek(int fd, off_t o, int w) {
    if (simfd(fd)) {
        OFile& f = ofiles[fd]; off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? static_cast<off_t>(f.pos) : static_cast<off_t>(f.data.size());
        if (f.pos == ~size_t{0}) return 0;
        f.pos = static_cast<size_t>(base + o); return static_cast<off_t>(f.pos);
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd) { if (simfd(fd)) return do_close(fd); return static_cast<int>(syscall(SYS_close, fd)); }
}

// ------------------------------------------------------------------------------------------------
namespace sim {
static void on_terminate() {
    tl.in_sut = 0;
    const char* name = "none";
    if (auto* t = __cxxabiv1::__cxa_current_exception_type()) name = t->name();
    if (shm) snprintf(shm->term, sizeof shm->term, "std::terminate called (active exception: %s)", name);
    finish_counters();
    signal(SIGABRT, SIG_DFL);
    abort();
}
void rt_init() {
    pthread_key_create(&exit_key, exit_key_run);
    heap_init();
    race_init();
    locks = new std::unordered_map<const void*, Lock>();
    files = new std::vector<SFile>();
}
void run_start(const RunConfig& c) {
    cfg = c;
    std::set_terminate(on_terminate);
    stack_bounds();
    run_hash = 0x5EED; ev = 0; sched_pos = 0; total_steps = 0; sched_sig = 1; since_switch = 0;
    auto get = [&](const char* k) { auto it = c.plan->env.find(k); return it == c.plan->env.end() ? 0 : it->second; };
    layout_seed = static_cast<uint64_t>(get("layout")); poison_seed = static_cast<uint64_t>(get("poison"));
    reuse_now = get("reuse") != 0;
    if (layout_seed || reuse_now) fired(F_LAYOUT);
    if (poison_seed) fired(F_POISON);
    randstate = static_cast<uint64_t>(get("clock")) + 1;
    running = true;
    thr[0] = Thr{}; nthr = 0;
    set_next_sw();
}
void op_begin(int th, int op) {
    tl.th = th; tl.op = op;
    tl.calm = 0; tl.op_blocks = tl.op_steps = tl.op_allocs = tl.op_bytes = tl.op_reads = tl.op_opens = tl.op_stats = tl.op_oom = 0;
    char c; tl.sp_base = reinterpret_cast<int64_t>(&c); tl.sp_max = 0;
    if (shm) { shm->cur_th = th; shm->cur_op = op; }
}
}  // namespace sim
