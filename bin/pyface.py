#!/usr/bin/env python3
"""Simulation of the Python-facing class (C15, leg "pyface").

The real python/module/cqasm/v3x/__init__.py runs over a simulated extension module (what SWIG makes of V3xAnalyzer) and simulated tree classes.
A plan is a history of calls on several analyzers, with the answer the native side gives to each text and the faults of the native side
(exceptions at the n-th call). Whatever the native side says, the Python side has to say the same: the same tree bytes, the same errors in the
same order, the same JSON text, the same exception; with the same arguments handed down, on the analyzer that was asked.
Execution is a function of the plan and the module alone.
"""
import hashlib, json, os, random, shutil, subprocess, sys, time, types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = os.path.join(REPO, "python", "module")
METHODS = [f"{s}_{w}{j}" for s in ("parse", "analyze") for w in ("string", "file") for j in ("", "_to_json")]
RAISES = {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "ValueError": ValueError, "OSError": OSError, "SystemError": SystemError}


class Violation(Exception):
    def __init__(self, what, text):
        super().__init__(text)
        self.what, self.text = what, text


def to_str(b):   # what SWIG makes of a std::string
    return b.decode("utf-8", "surrogateescape")


def damaged(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 5])):
        k = rng.randrange(4)
        q = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[q % len(b)] ^= 1 << rng.randrange(8)
        elif k == 1:
            del b[q:q + rng.randrange(1, 9)]
        elif k == 2:
            b[q:q] = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
        else:
            b[q:q] = rng.choice([b"\0", b"\xff", "é€😀".encode(), b"\n", b"\r\n", b"\xed\xa0\x80", b"'\"\\"])
    return bytes(b)


def gen_plan(rng):
    texts = [damaged(rng, rng.choice([b"version 3.0", b"version 3;qubit q;X q", b"", b"\xc3\xa9", b"version 3.0\nqubit[2] q\nnope q\n"])) for _ in range(rng.randrange(1, 5))]
    answers = []
    for _ in texts:
        a = {}
        for s in ("parse", "analyze"):
            if rng.random() < 0.5:
                a[s] = [damaged(rng, rng.choice([b"\xa1a@a0", b"tree", b"", b"\xff\x00\x80", b"x" * rng.randrange(200)]))]
            else:
                a[s] = [rng.choice([b"", b"", b"", b"partial"])] + [damaged(rng, rng.choice([b"Error at f:1:2..3: no", b"Error: x", b"", b"Error at <unknown file name>:1:1: \xff"])) for _ in range(rng.choice([1, 1, 1, 2, 3, 17]))]
            a[s + "_json"] = damaged(rng, rng.choice([b'{"errors":[]}', b'{"Program":{}}', b"", "{\"é\":1}".encode()]))
        answers.append({k: [to_str(x).encode("utf-8", "surrogateescape").hex() for x in v] if isinstance(v, list) else v.hex() for k, v in a.items()})
    calls = []
    for _ in range(rng.choice([1, 2, 4, 8, 20])):
        calls.append({"m": rng.choice(METHODS), "t": rng.randrange(len(texts)), "name": rng.choice([None, None, "", "f.cq", "é.cq", "a\udcff"]), "a": rng.randrange(3), "static": rng.random() < 0.4,
                      "raise": rng.choice(list(RAISES)) if rng.random() < 0.12 else None})
    ctor = [rng.choice([[], [], ["3.0"], ["3.0", True], ["3"]]) for _ in range(3)]
    return {"check": "C15-pyface", "texts": [t.hex() for t in texts], "answers": answers, "calls": calls, "ctor": ctor}


class World:
    """One simulated extension module."""

    def __init__(self, plan):
        self.plan, self.log, self.raising, self.cur = plan, [], None, None
        world = self

        def native(method, who, args):
            world.log.append((method, who, args))
            if world.raising:
                k, world.raising = world.raising, None
                raise RAISES[k](f"native {method}")
            call = world.cur
            a = plan["answers"][call["t"]]
            s = method.split("_")[0]
            if method.endswith("_to_json"):
                return to_str(bytes.fromhex(a[s + "_json"]))
            return tuple(to_str(bytes.fromhex(x)) for x in a[s])   # a SWIG vector behaves as a sequence

        class V3xAnalyzer:
            def __init__(self, *args, **kw):
                self.given = (args, tuple(sorted(kw.items())))
                self.number = len(world.made)
                world.made.append(self)

            def register_instruction(self, name, param_types=None):
                world.log.append(("register", self.number, (name, param_types)))
        self.made = []
        for m in METHODS:
            if m.startswith("parse"):
                setattr(V3xAnalyzer, m, staticmethod((lambda m: lambda *args, **kw: native(m, None, (args, tuple(sorted(kw.items())))))(m)))
            else:
                setattr(V3xAnalyzer, m, (lambda m: lambda self, *args, **kw: native(m, self.number, (args, tuple(sorted(kw.items())))))(m))

        def tree(kind):
            class Tree:
                def __init__(self, data):
                    self.kind, self.data = kind, data

                @staticmethod
                def deserialize(data):
                    return Tree(data)
            return Tree
        ext = types.ModuleType("libqasm")
        ext.V3xAnalyzer = V3xAnalyzer
        ast, sem = types.ModuleType("cqasm.v3x.ast"), types.ModuleType("cqasm.v3x.semantic")
        ast.Root = tree("ast.Root")
        sem.Program = tree("semantic.Program")
        for k in [k for k in sys.modules if k == "cqasm" or k.startswith("cqasm.") or k == "libqasm" or k.startswith("libqasm.")]:
            del sys.modules[k]
        sys.modules["libqasm"], sys.modules["cqasm.v3x.ast"], sys.modules["cqasm.v3x.semantic"] = ext, ast, sem
        if MODULE not in sys.path:
            sys.path.insert(0, MODULE)
        sys.dont_write_bytecode = True
        import cqasm.v3x as v3x
        self.v3x = v3x


def norm_args(log):
    """How a call reached the native side: (text, name or empty)."""
    (args, kw) = log
    kw = dict(kw)
    vals = list(args)
    text = vals[0] if vals else kw.get("data", kw.get("file_name"))
    name = vals[1] if len(vals) > 1 else kw.get("file_name", "") if vals or "data" in kw else ""
    return text, name


def execute(plan):
    """Returns (digest, number of native faults)."""
    w = World(plan)
    h, faults = hashlib.sha256(), 0
    analyzers = {}
    for n, c in enumerate(plan["calls"]):
        c_text = to_str(bytes.fromhex(plan["texts"][c["t"]]))
        if c["a"] not in analyzers:
            before = len(w.made)
            analyzers[c["a"]] = w.v3x.Analyzer(*plan["ctor"][c["a"]])
            if len(w.made) != before + 1 or w.made[-1].given != (tuple(plan["ctor"][c["a"]]), ()):
                raise Violation("ctor", f"call {n}: an analyzer made with {plan['ctor'][c['a']]} is not handed down as such: {[m.given for m in w.made[before:]]}")
        A = analyzers[c["a"]]
        static = c["static"] and c["m"].startswith("parse")
        target = getattr(w.v3x.Analyzer if static else A, c["m"])
        is_file = "_file" in c["m"]
        args = (c_text,) if is_file or c["name"] is None else (c_text, c["name"])
        w.cur, w.raising = c, c["raise"]
        at = len(w.log)
        who = f"call {n}, {c['m']}{args!r}"
        try:
            got = target(*args)
            exc = None
        except (AttributeError, ImportError, NotImplementedError):
            raise   # the simulated module lacks something: nothing is decided
        except Exception as e:  # noqa: BLE001
            got, exc = None, e
        seen = w.log[at:]
        raised = w.raising is None and c["raise"]
        w.raising = None
        if raised:
            faults += 1
            if exc is None or type(exc) is not RAISES[c["raise"]]:
                raise Violation("raised", f"{who}: the native side raised {c['raise']}, the Python side gives {exc!r} {got!r}")
            h.update(repr((n, c["raise"])).encode())
            continue
        if exc is not None:
            raise Violation("raised", f"{who} raised {type(exc).__name__}: {exc}")
        want_text, want_name = c_text, "" if is_file or c["name"] is None else c["name"]
        stage = c["m"].split("_")[0]
        mine = [s for s in seen if s[0] == c["m"]]
        if not mine or any(norm_args(s[2]) != (want_text, want_name) for s in seen) or any(s[0] != c["m"] for s in seen):
            raise Violation("args", f"{who} reached the native side as {seen!r}")
        if stage == "analyze" and any(s[1] != A.number for s in mine):
            raise Violation("analyzer", f"{who} was answered by analyzer {mine[0][1]} instead of {A.number}")
        a = plan["answers"][c["t"]]
        if c["m"].endswith("_to_json"):
            want = to_str(bytes.fromhex(a[stage + "_json"]))
            if not isinstance(got, str) or got != want:
                raise Violation("verdict", f"{who} gives {got!r}, the native side said {want!r}")
            shown = got
        elif len(a[stage]) == 1:
            kind, data = ("ast.Root" if stage == "parse" else "semantic.Program"), bytes.fromhex(a[stage][0])
            if getattr(got, "kind", None) != kind or bytes(got.data) != data:
                raise Violation("verdict", f"{who} gives {getattr(got, 'kind', got)!r} from {getattr(got, 'data', None)!r}, the native side gave a tree ({kind}) of {data!r}")
            shown = repr(got.data)
        else:
            want = [to_str(bytes.fromhex(x)) for x in a[stage][1:]]
            if not isinstance(got, (list, tuple)) or list(got) != want:
                raise Violation("verdict", f"{who} gives {got!r}, the native side gave the errors {want!r}")
            shown = repr(list(got))
        h.update(repr((n, c["m"], shown)).encode("utf-8", "surrogatepass"))
    return h.hexdigest()[:16], faults


def outcome(plan):
    try:
        d, f = execute(plan)
        return {"status": "ok", "what": "", "text": "", "digest": d, "faults": f}
    except Violation as v:
        return {"status": "violation", "what": v.what, "text": v.text.encode("utf-8", "backslashreplace").decode(), "digest": "", "faults": 0}


def minimise(plan, what):
    best = plan

    def good(p):
        r = outcome(p)
        return r["status"] == "violation" and r["what"] == what
    for _ in range(3):
        for k in range(len(best["calls"]) - 1, -1, -1):
            if len(best["calls"]) > 1:
                p = {**best, "calls": best["calls"][:k] + best["calls"][k + 1:]}
                if good(p):
                    best = p
        for k in range(len(best["calls"])):
            for field, v in (("raise", None), ("name", None), ("a", 0), ("t", 0)):
                if best["calls"][k][field] != v:
                    p = json.loads(json.dumps(best))
                    p["calls"][k][field] = v
                    if good(p):
                        best = p
        for k in range(len(best["texts"])):
            p = {**best, "texts": best["texts"][:k] + [b"a".hex()] + best["texts"][k + 1:]}
            if best["texts"][k] != b"a".hex() and good(p):
                best = p
    return best


def search(seed, worker, secs, out):
    t0, runs, faults, states, ops = time.time(), 0, 0, set(), {}
    samples = []
    while time.time() - t0 < secs:
        rng = random.Random(f"{seed}/{worker}/{runs}")
        p = gen_plan(rng)
        runs += 1
        r = outcome(p)
        for c in p["calls"]:
            ops["py." + c["m"]] = ops.get("py." + c["m"], 0) + 1
        if len(samples) < 1 and runs % 7 == 3:
            samples.append("python: " + ", ".join(c["m"] + (" (raises)" if c["raise"] else "") for c in p["calls"])[:400])
        if r["status"] == "violation":
            if outcome(p) != r:
                return {"rc": 4, "what": "not reproducible", "plan": "", "runs": runs}
            p = minimise(p, r["what"])
            f = os.path.join(out, f"pyface-w{worker}.json")
            with open(f, "w") as o:
                json.dump(p, o)
            return {"rc": 1, "what": r["what"], "text": r["text"], "plan": f, "runs": runs, "workloads": runs}
        faults += r["faults"]
        states.add(r["digest"])
    return {"rc": 0, "runs": runs, "workloads": runs, "refs": 0, "nontrivial": faults, "fired": {"native_exception": faults}, "ops": ops, "distinct_states": len(states), "distinct_schedules": len(states),
            "samples": samples, "steps": sum(ops.values())}


def run_replay(path):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    try:
        return json.loads(r.stdout.decode().splitlines()[-1])
    except (IndexError, ValueError):
        return {"status": "error", "what": "", "text": r.stderr.decode()[-500:]}


def run(check, seed, secs, workers, work, known):
    """For check.py: (stats per worker, errors, violation, known lines)."""
    out = os.path.join(work, "pyface")
    os.makedirs(out, exist_ok=True)
    stats, errors, vio = [], [], None
    ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--search", str(seed), str(w), str(secs), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE) for w in range(workers)]
    for p in ps:
        o, e = p.communicate()
        try:
            s = json.loads(o.decode().splitlines()[-1])
        except (IndexError, ValueError):
            # it reaches for something the simulated module lacks: the other leg still decides
            print(f"{check}: the Python-facing class cannot be simulated: {e.decode()[-1500:]}", file=sys.stderr)
            continue
        stats.append(s)
        if s["rc"] == 4:
            errors.append(f"{check}: {s['what']}")
        if s["rc"] == 1 and vio is None:
            a, b = run_replay(s["plan"]), run_replay(s["plan"])
            if a["status"] == "violation" and a == b and a["what"] == s["what"]:
                dst = os.path.join(VERIF, "replays", f"{check}-pyface-{seed}.json")
                shutil.copyfile(s["plan"], dst)
                vio = {"replay": dst, "what": a["what"], "text": a["text"], "leg": "pyface"}
            else:
                errors.append(f"{check}: violation '{s['what']}' did not reproduce in a fresh process: {a} {b}")
    return stats, errors, vio, []


def main():
    if sys.argv[1] == "--search":
        print(json.dumps(search(int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5])))
    elif sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = outcome(json.load(f))
        print(json.dumps(r))
        sys.exit(1 if r["status"] == "violation" else 0)


if __name__ == "__main__":
    main()
