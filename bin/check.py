#!/usr/bin/env python3
"""Decides one property: builds the simulators from /repo's working tree, searches seeded schedules and fault
sequences on all cores, gates every violation by replaying it in fresh processes, writes the evidence file."""
import fcntl, importlib, json, os, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = build.VERIF
EVID, REPL = os.path.join(VERIF, "evidence"), os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def err(msg):
    print(msg, file=sys.stderr, flush=True)


def known_findings(prop):
    """Lines: finding: property=<id> leg=<leg> what=<code> replay=<file> match=<text> :: <description>."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for l in open(KNOWN, encoding="utf-8"):
        if not l.startswith("finding: "):
            continue
        head, _, desc = l[9:].rstrip("\n").partition(" :: ")
        head, _, match = head.partition(" match=")
        d = dict(w.split("=", 1) for w in head.split())
        if d.get("property") == prop:
            out.append({**d, "match": match, "desc": desc})
    return out


class Leg:
    """One simulator binary searching for one property."""
    def __init__(self, exe, check, prop, seed, seconds, workers, outdir, dictf, env, known):
        self.exe, self.check, self.prop, self.seed, self.seconds = exe, check, prop, seed, seconds
        self.outdir, self.env = outdir, env
        os.makedirs(outdir, exist_ok=True)
        kf = os.path.join(outdir, "known.tsv")
        with open(kf, "w") as f:
            for k in known:
                f.write(f"{check}\t{k['what']}\t{k['match']}\n")
        self.procs = []
        for w in range(workers):
            o = open(os.path.join(outdir, f"w{w}.out"), "w+")
            e = open(os.path.join(outdir, f"w{w}.err"), "w+")
            p = subprocess.Popen([exe, "--search", "--check", check, "--seed", str(seed), "--worker", str(w), "--seconds", str(seconds),
                                  "--out", outdir, "--dict", dictf, "--known", kf], stdout=o, stderr=e, env=env, start_new_session=True)
            self.procs.append((p, o, e))

    def wait(self):
        """Returns (stats per worker, error texts)."""
        stats, errors = [], []
        end = time.time() + self.seconds + 150
        for p, o, e in self.procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                errors.append(f"{self.check}: a worker did not end")
            o.seek(0), e.seek(0)
            lines = [l for l in o.read().splitlines() if l.startswith("{")]
            et = e.read()
            try:
                s = json.loads(lines[-1])
                stats.append(s)
                if s["rc"] in (4, 5):
                    errors.append(f"{self.check}: worker ended with {s['rc']}: {et[:3000]}")
            except (IndexError, ValueError):
                errors.append(f"{self.check}: a worker gave no result (status {p.returncode}): {et[:3000]}")
            o.close(), e.close()
        return stats, errors


def replay(exe, plan, env):
    r = subprocess.run([exe, "--replay", plan], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    line = [l for l in r.stdout.decode("utf-8", "replace").splitlines() if l.startswith("{")]
    return json.loads(line[-1]) if line else {"status": "error", "text": r.stderr.decode("utf-8", "replace")[:500]}


def gate(exe, plan, env, known, what):
    """A violation counts only if two fresh processes reproduce it exactly."""
    a, b = replay(exe, plan, env), replay(exe, plan, env)
    ok = a["status"] == "violation" and b["status"] == "violation" and a["what"] == b["what"] == what and a["hash"] == b["hash"]
    return ok, a


def total(stats, key):
    return sum(s.get(key, 0) for s in stats)


def merged(stats, key):
    m = {}
    for s in stats:
        for k, v in s.get(key, {}).items():
            m[k] = m.get(k, 0) + v
    return dict(sorted(m.items()))


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    for d in (EVID, REPL, build.BUILD):
        os.makedirs(d, exist_ok=True)
    ev_path = os.path.join(EVID, f"{prop}.json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    legs = [l for l in spec["legs"]]
    with open(os.path.join(build.BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            exes = {}
            for l in list(legs):
                if l[0] in ("py", "pyface"):
                    continue
                try:
                    exes[l[0]] = build.build_leg(l[0])
                except build.BuildError as e:
                    # the stand-ins may lack something a new tree uses: what needs no pipeline is still decided
                    if l[0] != "full" or not any(k == "core" for k, _, _ in legs):
                        raise
                    err(f"the pipeline does not build with the stand-ins, only the core is simulated: {str(e)[:2000]}")
                    legs.remove(l)
                    legs = [(k, c, 1.0 if k == "core" else s) for k, c, s in legs]
            loc, locs = build.build_locales()
            dictf = build.build_dict()
        except build.BuildError as e:
            err(f"build failed: {e}")
            return 2
    t1 = time.time()
    budget = spec["seconds"][0 if tier == "quick" else 1]
    workers = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 8))
    env = {**os.environ, "LOCPATH": loc, "LC_ALL": "C"}
    work = os.path.join(build.BUILD, "work", f"{prop}.{os.getpid()}")
    findings = known_findings(prop)
    violation, errors, rows, known_lines = None, [], [], []
    for f in findings:
        leg = f["leg"]
        if leg not in exes:
            continue
        r = replay(exes[leg], os.path.join(VERIF, f["replay"]), env)
        if r["status"] == "violation" and r["what"] == f["what"] and f["match"] in r["text"]:
            known_lines.append(f"KNOWN-FINDING: property={prop} {f['desc']}")
        elif r["status"] == "error":
            errors.append(f"known finding cannot be replayed: {r}")
    for kind, check, share in legs:
        if violation:
            break
        secs = max(3, budget * share)
        kn = [f for f in findings if f["leg"] == kind]
        if kind in ("py", "pyface"):
            sim = importlib.import_module({"py": "pysim", "pyface": "pyface"}[kind])
            st, er, vio, kl = sim.run(check, seed, secs, workers, work, kn)
            known_lines += kl
            if vio:
                violation = vio
            rows.append((kind, check, st))
            errors += er
            continue
        leg = Leg(exes[kind], check, prop, seed, secs, workers, os.path.join(work, kind), dictf, env, kn)
        st, er = leg.wait()
        rows.append((kind, check, st))
        errors += er
        for s in st:
            if s["rc"] != 1 or violation:
                continue
            ok, r = gate(exes[kind], s["plan"], env, kn, s["what"])
            if not ok:
                errors.append(f"{check}: violation '{s['what']}' did not reproduce in a fresh process: {json.dumps(r)[:1500]}")
                continue
            dst = os.path.join(REPL, f"{prop}-{kind}-{seed}.json")
            shutil.copyfile(s["plan"], dst)
            violation = {"replay": dst, "what": r["what"], "text": r["text"], "leg": kind}
    wall = time.time() - t0
    stats = [s for _, _, st in rows for s in st]
    runs, refs = total(stats, "runs"), total(stats, "refs")
    hours = max(1e-6, (time.time() - t1) / 3600)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": min(runs, total(stats, "distinct_states")) if runs else 0,
        "rule": spec["rule"],
        "samples": [x for s in stats for x in s.get("samples", [])][:6] or ["none"],
        "runs_per_hour": int(runs / hours),
        "seeds_per_hour": int(total(stats, "workloads") / hours),
        "workloads": total(stats, "workloads"),
        "reference_runs": refs,
        "runs_in_which_a_fault_or_switch_took_effect": total(stats, "nontrivial"),
        "simulated_time_s": round(total(stats, "vtime_ns") / 1e9, 3),
        "simulated_steps": total(stats, "steps"),
        "scheduling_events": total(stats, "events"),
        "context_switches": total(stats, "switches"),
        "faults_fired": merged(stats, "fired"),
        "operations": merged(stats, "ops"),
        "distinct_interleavings": total(stats, "distinct_schedules"),
        "distinct_states": total(stats, "distinct_states"),
        "distinctness_measure": "interleavings: digest of every hand-over (event number, caller) together with the execution digest; states: digest of all code addresses "
                                "of memory accesses, allocation sizes, I/O calls and hand-overs of a run; counted per worker (workers draw from disjoint seeds)",
        "code_coverage_points": max([s.get("coverage", 0) for s in stats], default=0),
        "known_finding_hits": total(stats, "known_hits"),
        "workers": workers,
        "legs": [{"leg": k, "check": c, "runs": total(st, "runs")} for k, c, st in rows],
        "components_real": spec["real"],
        "components_stub": spec["stub"],
        "determinism_gate": "a violation is reported only if the same plan gives the same digest twice in the searching process and twice in fresh processes",
    }
    for s in stats:
        for k, v in s.get("extra", {}).items():
            cov[k] = v
    with open(ev_path + ".tmp", "w") as f:
        json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
                   "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": 1 if violation else 0}, f, indent=1)
    os.replace(ev_path + ".tmp", ev_path)
    shutil.rmtree(work, ignore_errors=True)
    for l in sorted(set(known_lines)):
        print(l)
    for e in errors:
        err(e)
    print(f"{prop} {tier} seed={seed}: {runs} runs, {total(stats, 'workloads')} workloads, {cov['distinct_interleavings']} interleavings, build {t1 - t0:.1f}s, total {wall:.1f}s")
    if violation:
        print(violation["what"] + ": " + violation["text"][:1500])
        print(f"VIOLATION property={prop} replay={violation['replay']}", flush=True)
        return 1
    if errors:
        return 2
    if not runs:
        err("nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
