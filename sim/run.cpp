// Run control: one forked process per simulated run, references, minimisation, worker loop, replay.
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "harness.hpp"

namespace sim {
Plan* g_plan = nullptr;
static std::unordered_map<std::string, std::string> refs;
static std::unordered_map<std::string, uint64_t> ref_use;
static bool keep_stderr = false;

std::string norm(const std::string& s) {
    if (s.size() <= 1500) return s;
    return s.substr(0, 400) + "...#" + std::to_string(s.size()) + ":" + std::to_string(fnv(s.data(), s.size()));
}
Plan ref_plan(const Plan& p, const Op& op) {
    Plan r; r.check = "REF"; r.setup = p.setup; r.threads = {{op}};
    return r;
}
static void digest(std::string& k, const Op& o) {
    uint64_t a = fnv(o.k.data(), o.k.size()), b = 77;
    for (auto& s : o.s) { a = mix(a, fnv(s.data(), s.size())); b = mix(b, fnv(s.data(), s.size(), 99) + s.size()); }
    for (auto i : o.i) { a = mix(a, static_cast<uint64_t>(i)); b = mix(b, static_cast<uint64_t>(i) ^ 0x55); }
    k.append(reinterpret_cast<char*>(&a), 8); k.append(reinterpret_cast<char*>(&b), 8);
}
std::string ref_key(const Plan& p) {
    std::string k;
    auto& op = p.threads[0][0];
    if (find_op(op.k) && (find_op(op.k)->tags & T_READ)) for (auto& o : p.setup) digest(k, o);
    digest(k, op);
    return k;
}
const std::string& ref_get(const Plan& p, const Op& op) {
    auto it = refs.find(ref_key(ref_plan(p, op)));
    if (it == refs.end()) harness_error("no reference for " + show(op));
    return it->second;
}
void setup_objects(Ctx& c, const Plan& p) {
    int k = 0;
    for (auto& o : p.setup) {
        op_begin(50, k++);
        size_t before = c.w.shared.size();
        std::string r = run_op(c, o);
        if (c.w.shared.size() == before) { Obj e; e.type = "failed"; c.w.notes["setup" + std::to_string(before)] = r; c.w.shared.push_back(std::move(e)); }
    }
}
void run_callers(World& w, const Plan& p, std::vector<std::vector<std::string>>& out, const PostFn& post) {
    out.assign(p.threads.size(), {});
    for (size_t t = 0; t < p.threads.size(); ++t) out[t].reserve(p.threads[t].size());
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < p.threads.size(); ++t) bodies.push_back([&w, &p, &out, &post, t] {
        Ctx c{w, {}, {}};
        try {
            for (size_t k = 0; k < p.threads[t].size(); ++k) {
                op_begin(static_cast<int>(t), static_cast<int>(k));
                yield_point(0xB0B0 + t);
                std::string r = run_op(c, p.threads[t][k]);
                out[t].push_back(norm(r));
                if (post) post(c, static_cast<int>(t), static_cast<int>(k), p.threads[t][k], r);
                if (shm && t < 4 && k < 16) shm->alloc_seen[t * 16 + k] = tl.op_allocs;
            }
        } catch (const CheckFail& f) { violation(f.what.c_str(), f.text); }
    });
    spawn(std::move(bodies));
}

static std::string read_all(int fd) {
    std::string r; char b[4096]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0 && r.size() < 4000) r.append(b, static_cast<size_t>(n));
    return r;
}
static int err_fd = -1, null_fd = -1;

static void child(const Plan& p0) {
    Plan p = p0;
    g_plan = &p;
    if (!keep_stderr) { dup2(err_fd, 2); if (null_fd >= 0) dup2(null_fd, 1); }
    rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    rlimit cpu{100, 101}; setrlimit(RLIMIT_CPU, &cpu);
    RunConfig c; c.plan = &p;
    const Check* ck = p.check == "REF" ? nullptr : find_check(p.check);
    if (!ck && p.check != "REF") harness_error("unknown check " + p.check);
    if (ck && ck->step_budget) c.step_budget = ck->step_budget;
    run_start(c);
    try {
        if (p.check == "REF") {
            World w; Ctx cx{w, {}, {}};
            setup_objects(cx, p);
            std::vector<std::vector<std::string>> out;
            run_callers(w, p, out);
            auto& s = out[0][0];
            memcpy(shm->text, s.data(), s.size()); shm->text_len = s.size();
        } else ck->exec(p);
        std::string why;
        if (!heap_ok(why)) violation("heap", "memory outside a live block was overwritten: " + why);
    } catch (const CheckFail& f) { violation(f.what.c_str(), f.text);
    } catch (const std::exception& e) { harness_error(std::string("exception in the harness: ") + e.what()); }
    shm->finished = 1;
    _exit(0);
}

void (*g_tame)(Plan&);
static void tame(Plan& p) { if (g_tame) g_tame(p); }

static uint8_t* seen_cov;
static uint64_t cov_count;

RunResult run_plan(const Plan& p, bool quiet) {
    auto* s = shm;
    memset(s->cov, 0, sizeof s->cov);
    s->hash = s->events = s->switches = s->steps = s->vtime = s->allocs = s->sched_sig = s->state_sig = 0;
    memset(s->run_fired, 0, sizeof s->run_fired); memset(s->alloc_seen, 0, sizeof s->alloc_seen); memset(s->aux, 0, sizeof s->aux);
    s->finished = s->violated = s->harness_error = 0; s->cur_th = s->cur_op = s->where = 0; s->what[0] = 0; s->text_len = 0; s->text[0] = 0; s->term[0] = 0;
    if (err_fd >= 0) { if (ftruncate(err_fd, 0)) {} lseek(err_fd, 0, SEEK_SET); }
    fflush(stdout); fflush(stderr);
    keep_stderr = !quiet;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(4); }
    if (!pid) child(p);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.hash = s->hash; r.events = s->events; r.switches = s->switches; r.steps = s->steps; r.sched_sig = s->sched_sig; r.vtime = s->vtime; r.allocs = s->allocs;
    r.state_sig = s->state_sig;
    memcpy(r.alloc_seen, s->alloc_seen, sizeof r.alloc_seen); memcpy(r.fired, s->run_fired, sizeof r.fired); memcpy(r.aux, s->aux, sizeof r.aux);
    r.text.assign(s->text, s->text_len);
    if (seen_cov) for (size_t q = 0; q < Shm::COV; q += 8) if (uint64_t v; memcpy(&v, s->cov + q, 8), v) for (size_t i = q; i < q + 8; ++i) if (s->cov[i] && !seen_cov[i]) { seen_cov[i] = 1; ++cov_count; r.new_cov = true; }
    if (s->violated) { r.st = RunResult::VIOLATED; r.what = s->what; return r; }
    if (s->harness_error) { r.st = RunResult::HARNESS; return r; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->finished) return r;
    std::string op = "?";
    if (s->cur_th == 50) { if (static_cast<size_t>(s->cur_op) < p.setup.size()) op = "set-up " + show(p.setup[static_cast<size_t>(s->cur_op)]); }
    else if (s->cur_th >= 0 && static_cast<size_t>(s->cur_th) < p.threads.size() && static_cast<size_t>(s->cur_op) < p.threads[static_cast<size_t>(s->cur_th)].size())
        op = show(p.threads[static_cast<size_t>(s->cur_th)][static_cast<size_t>(s->cur_op)]);
    std::string err = err_fd >= 0 && quiet ? read_all(err_fd) : "";
    for (auto& c : err) if (c == '\n') c = ' ';
    if (WIFSIGNALED(st) && (s->where == 1 || s->term[0])) {
        int sg = WTERMSIG(st);
        r.st = RunResult::VIOLATED;
        if (s->term[0]) r.what = "terminate"; else if (sg == SIGABRT) r.what = "abort"; else if (sg == SIGXCPU || sg == SIGKILL) r.what = "hang"; else r.what = "crash";
        r.text = std::string("the process was killed by signal ") + std::to_string(sg) + " (" + strsignal(sg) + ") in caller " + std::to_string(s->cur_th) + ", " + op + (s->term[0] ? std::string("; ") + s->term : "") + (err.empty() ? "" : "; " + clip(err, 300));
        r.hash = mix(static_cast<uint64_t>(sg), fnv(op.data(), op.size()));   // the trace digest is not flushed by a dying process
        return r;
    }
    if (WIFEXITED(st) && s->where == 1) {
        r.st = RunResult::VIOLATED; r.what = "exit"; r.text = "the process exited with status " + std::to_string(WEXITSTATUS(st)) + " inside " + op;
        r.hash = fnv(op.data(), op.size());
        return r;
    }
    r.st = RunResult::HARNESS;
    r.text = "run ended unexpectedly: wait status " + std::to_string(st) + " in " + op + " " + clip(err, 300);
    return r;
}

static uint64_t n_refs;
static bool make_refs(const Plan& p, std::string& bad) {
    auto* ck = find_check(p.check);
    if (!ck->refs) return true;
    std::vector<Plan> v;
    if (refs.size() > 60000) refs.clear();
    ck->refs(p, v);
    for (auto& q : v) {
        std::string k = ref_key(q);
        if (refs.count(k)) continue;
        RunResult r = run_plan(q);
        ++n_refs;
        if (r.st == RunResult::HARNESS) { bad = "reference: " + r.text; return false; }
        refs[k] = r.st == RunResult::OK ? r.text : "dies:" + r.what;
    }
    return true;
}

// ---- minimisation -------------------------------------------------------------------------------
struct Minimiser {
    std::string what, key; int budget; double deadline; Plan best; RunResult br;
    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }
    bool tryp(Plan p) {
        tame(p);
        if (budget-- <= 0 || now() > deadline) { budget = 0; return false; }
        std::string bad;
        if (!make_refs(p, bad)) return false;
        RunResult r = run_plan(p);
        if (r.st != RunResult::VIOLATED || r.what != what) return false;
        best = p; br = r;
        return true;
    }
    template <class T> bool drop(std::vector<T> Plan::*m) {
        bool any = false;
        for (size_t w = std::max<size_t>(1, (best.*m).size() / 2);; w /= 2) {
            for (size_t i = 0; i < (best.*m).size() && budget > 0;) {
                Plan p = best; auto& v = p.*m;
                v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(std::min(i + w, v.size())));
                if (tryp(p)) any = true; else i += w;
            }
            if (w <= 1) break;
        }
        return any;
    }
    bool shrink_str(std::function<std::string&(Plan&)> ref) {
        bool any = false;
        for (size_t w = std::max<size_t>(1, ref(best).size() / 2);; w /= 2) {
            for (size_t i = 0; i < ref(best).size() && budget > 0;) {
                Plan p = best; auto& s = ref(p);
                s.erase(i, w);
                if (tryp(p)) any = true; else i += w;
            }
            if (w <= 1) break;
        }
        for (size_t i = 0; i < ref(best).size() && i < 64 && budget > 0; ++i) if (ref(best)[i] != 'a') { Plan p = best; ref(p)[i] = 'a'; any |= tryp(p); }
        return any;
    }
    void run() {
        for (int round = 0; round < 4 && budget > 0; ++round) {
            bool any = false;
            if (!best.sched.empty()) { Plan p = best; p.sched.clear(); any |= tryp(p); }
            if (!best.faults.empty()) { Plan p = best; p.faults.clear(); any |= tryp(p); }
            if (best.env.count("sweep") && br.aux[0]) { Plan p = best; p.env["sweep_lo"] = br.aux[1]; p.env["sweep_hi"] = br.aux[1]; if (p.env != best.env) any |= tryp(p); }
            for (auto kv : std::map<std::string, int64_t>(best.env)) if (kv.first.compare(0, 5, "sweep") && kv.first != "mode" && budget > 0) { Plan p = best; p.env.erase(kv.first); any |= tryp(p); }
            for (size_t t = 0; t < best.threads.size() && budget > 0;) {
                if (best.threads.size() > 1) { Plan p = best; p.threads.erase(p.threads.begin() + static_cast<long>(t)); if (tryp(p)) { any = true; continue; } }
                for (size_t w = std::max<size_t>(1, best.threads[t].size() / 2);; w /= 2) {
                    for (size_t i = 0; i < best.threads[t].size() && budget > 0;) {
                        if (best.threads[t].size() <= 1) break;
                        Plan p = best; auto& v = p.threads[t];
                        v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(std::min(i + w, v.size())));
                        if (v.empty()) { ++i; continue; }
                        for (auto& f : p.faults) if (f.th == static_cast<int>(t) && f.op > static_cast<int>(i)) f.op -= static_cast<int>(std::min(w, best.threads[t].size() - i));
                        if (tryp(p)) any = true; else i += w;
                    }
                    if (w <= 1) break;
                }
                ++t;
            }
            any |= drop(&Plan::faults);
            any |= drop(&Plan::sched);
            if (!best.setup.empty()) any |= drop(&Plan::setup);
            for (size_t t = 0; t < best.threads.size(); ++t) for (size_t k = 0; k < best.threads[t].size(); ++k) for (size_t j = 0; j < best.threads[t][k].s.size() && budget > 0; ++j)
                any |= shrink_str([=](Plan& p) -> std::string& { return p.threads[t][k].s[j]; });
            for (size_t k = 0; k < best.setup.size(); ++k) for (size_t j = 0; j < best.setup[k].s.size() && budget > 0; ++j)
                any |= shrink_str([=](Plan& p) -> std::string& { return p.setup[k].s[j]; });
            if (!any) break;
        }
    }
};

// ---- mutation of earlier plans ------------------------------------------------------------------
static Plan mutate(Rng& r, Gen& g, const Plan& base, const std::vector<Plan>& corpus) {
    Plan p = base;
    p.sched.clear(); p.faults.clear();
    int n = 1 + static_cast<int>(r.below(3));
    while (n-- > 0) {
        auto& th = p.threads[r.below(p.threads.size())];
        if (th.empty()) continue;
        Op& o = th[r.below(th.size())];
        auto* info = find_op(o.k);
        switch (r.below(9)) {
            case 0: case 1: if (!o.s.empty()) { auto& s = r.pick(o.s); s = g.corrupt(r, s); } break;
            case 2: if (!o.i.empty()) r.pick(o.i) = g.u32(r); break;
            case 3: if (!o.i.empty()) r.pick(o.i) += r.range(-2, 2); break;
            case 4: if (info && info->gen) o = info->gen(r, g); break;
            case 5: if (th.size() < 24) { Op c = o; th.insert(th.begin() + static_cast<long>(r.below(th.size() + 1)), c); } break;
            case 6: if (!corpus.empty()) { auto& q = corpus[r.below(corpus.size())]; auto& u = q.threads[r.below(q.threads.size())]; if (!u.empty() && th.size() < 24 && q.setup.size() == p.setup.size()) th.push_back(u[r.below(u.size())]); } break;
            case 7: if (!o.s.empty()) { auto& s = r.pick(o.s); if (s.size() < 20000) { std::string t = s; size_t k = 1 + r.below(6); while (k-- && s.size() + t.size() < g.max_len) s += t; ++g.faults[F_DUP]; } } break;
            default: if (th.size() > 1) th.erase(th.begin() + static_cast<long>(r.below(th.size()))); break;
        }
    }
    return p;
}

static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += static_cast<char>(c); } return r + "\""; }

struct Known { std::string prop, what, match; };
static std::vector<Known> known;
static const Known* known_match(const std::string& prop, const RunResult& r) {
    for (auto& k : known) if (k.prop == prop && k.what == r.what && r.text.find(k.match) != std::string::npos) return &k;
    return nullptr;
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
    std::string check, replay, outdir = ".", dict, knownf;
    uint64_t seed = 1; int worker = 0; double seconds = 5; bool search = false, twice = false, list = false; uint64_t max_iter = ~0ull; bool trace = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--search") search = true;
        else if (a == "--check") check = val();
        else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--worker") worker = atoi(val());
        else if (a == "--seconds") seconds = atof(val());
        else if (a == "--out") outdir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--dict") dict = val();
        else if (a == "--known") knownf = val();
        else if (a == "--iterations") max_iter = strtoull(val(), nullptr, 10);
        else if (a == "--twice") twice = true;      // determinism proof: every run is executed twice and compared
        else if (a == "--trace") trace = true;      // prints one line per run
        else if (a == "--list") list = true;
    }
    {   // caller threads hand over to each other: cheapest on one core
        cpu_set_t have, one; long n = sysconf(_SC_NPROCESSORS_ONLN);
        if (n > 0 && search && sched_getaffinity(0, sizeof have, &have) == 0 && CPU_COUNT(&have) > 1) {
            int want = worker % CPU_COUNT(&have), c = 0;
            while (!CPU_ISSET(c, &have) || want-- > 0) ++c;
            CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one);
        }
    }
    if (list) { for (auto& c : checks()) printf("%s\n", c.id); return 0; }
    signal(SIGPIPE, SIG_IGN);
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    err_fd = static_cast<int>(syscall(SYS_memfd_create, "stderr", 0));
    null_fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY));
    rt_init();
    if (!replay.empty()) {
        Plan p; std::string err;
        if (!plan_from_json(slurp(replay), p, err)) { fprintf(stderr, "cannot read plan: %s\n", err.c_str()); return 4; }
        std::string bad;
        if (!make_refs(p, bad)) { fprintf(stderr, "%s\n", bad.c_str()); return 4; }
        RunResult r = run_plan(p, true);
        printf("{\"status\":\"%s\",\"what\":%s,\"hash\":\"%016lx\",\"steps\":%lu,\"events\":%lu,\"text\":%s}\n", r.st == RunResult::OK ? "ok" : r.st == RunResult::VIOLATED ? "violation" : "error",
               jstr(r.what).c_str(), r.hash, r.steps, r.events, jstr(r.text.substr(0, 3000)).c_str());
        return r.st == RunResult::OK ? 0 : r.st == RunResult::VIOLATED ? 1 : 4;
    }
    const Check* ck = find_check(check);
    if (!search || !ck) { fprintf(stderr, "usage: --search --check ID | --replay plan.json\n"); return 2; }
    seen_cov = static_cast<uint8_t*>(calloc(Shm::COV, 1));
    Gen g;
    {
        std::ifstream f(dict); std::string l;
        while (std::getline(f, l)) {
            if (l.size() > 2 && l[0] == 'i') g.ints.push_back(strtoull(l.c_str() + 2, nullptr, 10));
            if (l.size() > 2 && l[0] == 's') { std::string t; for (size_t k = 2; k + 1 < l.size(); k += 2) t += static_cast<char>(strtol(l.substr(k, 2).c_str(), nullptr, 16)); g.strs.push_back(t); }
        }
        std::ifstream kf(knownf);
        while (std::getline(kf, l)) { std::stringstream ss(l); Known k; if (std::getline(ss, k.prop, '\t') && std::getline(ss, k.what, '\t') && std::getline(ss, k.match, '\t')) known.push_back(k); }
    }
    size_t base_ints = g.ints.size(), base_strs = g.strs.size();
    double t0 = Minimiser::now();
    std::vector<Plan> corpus;
    std::unordered_set<uint64_t> scheds, states, plans;
    uint64_t runs = 0, workloads = 0, events = 0, steps = 0, vtime = 0, switches = 0, known_hits = 0, nontrivial = 0, maxdepth = 0, irreproducible = 0;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> op_count;
    std::string found_json, found_what, found_text; int rc = 0;
    for (uint64_t it = 0; it < max_iter && Minimiser::now() - t0 < seconds && !rc; ++it) {
        uint64_t s = mix(mix(seed * 1000003ull + static_cast<uint64_t>(worker), it), 0xABCDEF);
        Rng r(s);
        Plan w;
        if (!corpus.empty() && r.chance(0.4)) w = mutate(r, g, corpus[r.below(corpus.size())], corpus);
        else { if (r.chance(0.5)) g.pool.clear(); w = ck->gen(r, g); }
        w.check = check; w.seed = s;
        tame(w);
        ++workloads;
        std::string bad;
        uint64_t cov0 = cov_count;
        if (!make_refs(w, bad)) { fprintf(stderr, "%s\n", bad.c_str()); rc = 4; break; }
        bool ref_cov = cov_count > cov0;
        RunResult dry;
        int reps = ck->repeats;
        bool added = false;
        for (int k = ck->need_dry ? -1 : 0; k < reps && !rc; ++k) {
            Plan p = w;
            if (k >= 0 && ck->vary) { ck->vary(r, g, p, dry); tame(p); }
            if (k >= 0 && !make_refs(p, bad)) { fprintf(stderr, "%s\n", bad.c_str()); rc = 4; break; }
            RunResult x = run_plan(p);
            ++runs; events += x.events; steps += x.steps; vtime += x.vtime; switches += x.switches;
            if (k < 0) dry = x;
            scheds.insert(mix(x.sched_sig, ck->need_dry ? x.hash : 1)); states.insert(x.hash);
            if (x.switches > 0 || [&] { for (auto f : x.fired) if (f) return true; return false; }()) ++nontrivial;
            for (auto& t : p.threads) { for (auto& o : t) ++op_count[o.k]; maxdepth = std::max<uint64_t>(maxdepth, t.size()); }
            if (trace) printf("%lu %d %016lx %s %s\n", it, k, x.hash, x.st == RunResult::OK ? "ok" : x.what.c_str(), clip(x.text, 200).c_str());
            if (samples.size() < 6 && (it % 7 == 3) && k == reps - 1) { std::string d; for (auto& t : p.threads) { d += "["; for (auto& o : t) d += clip(show(o), 120) + "; "; d += "] "; } for (auto& f : p.faults) d += f.k + "@" + std::to_string(f.th) + "/" + std::to_string(f.op) + "#" + std::to_string(f.n) + " "; d += "switches=" + std::to_string(x.switches); samples.push_back(clip(d, 600)); }
            if (x.st == RunResult::HARNESS) { fprintf(stderr, "harness error: %s\nplan: %s\n", x.text.c_str(), plan_to_json(p).c_str()); rc = 4; break; }
            if (twice) {
                RunResult y = run_plan(p);
                if (y.hash != x.hash || y.st != x.st || y.text != x.text) { fprintf(stderr, "NOT DETERMINISTIC: %016lx %016lx\n%s\n%s\nplan: %s\n", x.hash, y.hash, x.text.c_str(), y.text.c_str(), plan_to_json(p).c_str()); rc = 5; break; }
            }
            if (x.st == RunResult::VIOLATED) {
                if (known_match(check, x)) { ++known_hits; continue; }
                RunResult y = run_plan(p);
                if (y.st != RunResult::VIOLATED || y.what != x.what || y.hash != x.hash) {
                    fprintf(stderr, "NOT REPRODUCIBLE: %s / %s\nplan: %s\n", x.text.c_str(), y.text.c_str(), plan_to_json(p).c_str()); ++irreproducible; break;
                }
                Minimiser m{x.what, "", 600, Minimiser::now() + 25, p, x};
                m.run();
                if (known_match(check, m.br)) { ++known_hits; continue; }
                std::string f = outdir + "/" + check + "-w" + std::to_string(worker) + ".json";
                std::ofstream o(f, std::ios::binary); o << plan_to_json(m.best); o.close();
                found_json = f; found_what = m.br.what; found_text = m.br.text;
                rc = 1;
            }
            if ((x.new_cov || ref_cov) && !added && k <= 0) { added = true; if (corpus.size() < 400) corpus.push_back(w); else corpus[r.below(400)] = w; }
        }
        // constants and strings the code compared its data with become inputs
        for (uint64_t k = 0; k < std::min<uint64_t>(shm->ncmp, Shm::DICT); ++k) if (g.ints.size() < base_ints + 256 && std::find(g.ints.begin(), g.ints.end(), shm->cmp[k]) == g.ints.end()) g.ints.push_back(shm->cmp[k]);
        for (uint64_t k = 0; k < shm->nstr && k < 64; ++k) { std::string t(shm->str[k], shm->strn[k]); if (g.strs.size() < base_strs + 64 && std::find(g.strs.begin(), g.strs.end(), t) == g.strs.end()) g.strs.push_back(t); }
    }
    double wall = Minimiser::now() - t0;
    if (!rc && irreproducible) rc = 5;
    printf("{\"rc\":%d,\"runs\":%lu,\"workloads\":%lu,\"refs\":%lu,\"events\":%lu,\"steps\":%lu,\"vtime_ns\":%lu,\"switches\":%lu,\"known_hits\":%lu,\"nontrivial\":%lu,\"coverage\":%lu,\"corpus\":%zu,\"distinct_schedules\":%zu,\"distinct_states\":%zu,\"wall\":%.2f,\"max_ops\":%lu,",
           rc, runs, workloads, n_refs, events, steps, vtime, switches, known_hits, nontrivial, cov_count, corpus.size(), scheds.size(), states.size(), wall, maxdepth);
    printf("\"fired\":{");
    bool first = true;
    for (int k = 0; k < F_NKINDS; ++k) { uint64_t v = shm->fired[k] + g.faults[k]; if (v) { printf("%s\"%s\":%lu", first ? "" : ",", fault_names[k], v); first = false; } }
    printf("},\"ops\":{"); first = true;
    for (auto& [k, v] : op_count) { printf("%s\"%s\":%lu", first ? "" : ",", k.c_str(), v); first = false; }
    printf("},\"samples\":["); first = true;
    for (auto& x : samples) { printf("%s%s", first ? "" : ",", jstr(x).c_str()); first = false; }
    printf("],\"plan\":%s,\"what\":%s,\"text\":%s}\n", jstr(found_json).c_str(), jstr(found_what).c_str(), jstr(found_text.substr(0, 2000)).c_str());
    return rc;
}
