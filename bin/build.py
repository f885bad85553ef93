#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree into /verif/build, offline, with a content-hash cache."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
COMMON = ["-std=c++20", "-DFMT_SHARED", f"-I{REPO}/include", f"-I{VERIF}/standins/include", f"-I{VERIF}/sim"]
SUT = COMMON + ["-O1", "-g", "-fsanitize=thread", "-fsanitize-coverage=trace-pc,trace-cmp", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                "-D_GLIBCXX_ASSERTIONS", "-Wall", "-Wno-tsan"]
PLAIN = COMMON + ["-O2", "-g1", "-Wall", "-Wextra", "-Wno-missing-field-initializers"]
REDEF = ("memcpy memmove memset memcmp strlen malloc calloc realloc strdup strcpy strcat strncpy strcmp strncmp strchr memchr "
         "snprintf vsnprintf sprintf vsprintf").split()
LINK = ["-no-pie", "-ldl", "-lfmt", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f"{what} failed:\n{' '.join(cmd)}\n{r.stdout[-6000:]}")


def compile_unit(src, obj, flags, redefine):
    """Compiles src to obj unless an object with the same inputs exists."""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    stamp, dep = obj + ".stamp", obj + ".d"
    key = None
    if os.path.exists(obj) and os.path.exists(stamp) and os.path.exists(dep):
        try:
            deps = [d for d in re.sub(r"\\\n", " ", read(dep).decode()).split(":", 1)[1].split() if not d.startswith("/usr/")]
            key = sha(" ".join(flags), str(redefine), *[read(d) for d in deps])
        except (OSError, IndexError):
            key = None
        if key and read(stamp).decode() == key:
            return obj
    tmp = f"{obj}.{os.getpid()}.o"
    run([CXX, *flags, "-MD", "-MF", dep, "-c", src, "-o", tmp], f"compiling {src}")
    if redefine:
        cmd = ["objcopy"]
        for s in REDEF:
            cmd += ["--redefine-sym", f"{s}=__sim_{s}"]
        cmd += ["--redefine-sym", "free=__sim_free_", tmp]
        run(cmd, f"objcopy {tmp}")
    os.replace(tmp, obj)
    deps = [d for d in re.sub(r"\\\n", " ", read(dep).decode()).split(":", 1)[1].split() if not d.startswith("/usr/")]
    with open(stamp, "w") as f:
        f.write(sha(" ".join(flags), str(redefine), *[read(d) for d in deps]))
    return obj


def repo_core_sources():
    return sorted(glob.glob(f"{REPO}/src/*.cpp"))


def name_of(src):
    return re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))


def compile_all(units, jobs=None):
    """units: (source, flags, redefine, folder)."""
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_unit, s, os.path.join(d, name_of(s) + ".o"), fl, rd) for s, fl, rd, d in units]
        return [f.result() for f in futs]


def link(objs, exe):
    key = sha(*[read(o + ".stamp") for o in objs], " ".join(LINK))
    st = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(st) and read(st).decode() == key:
        return exe
    tmp = f"{exe}.{os.getpid()}"
    run([CXX, "-o", tmp, *objs, *LINK], f"linking {exe}")
    os.replace(tmp, exe)
    with open(st, "w") as f:
        f.write(key)
    return exe


SIM_PLAIN = ["rt.cpp", "plan.cpp", "harness.cpp", "run.cpp", "checks.cpp"]


def build_core():
    out = os.path.join(BUILD, "core")
    slow = [(f"{VERIF}/sim/ops_core.cpp", SUT, True), (f"{VERIF}/sim/ops_hist.cpp", SUT, True)]
    sut = [(s, SUT, True) for s in repo_core_sources()]
    plain = [(f"{VERIF}/sim/{s}", PLAIN, False) for s in SIM_PLAIN]
    objs = compile_all([(*u, out) for u in slow + sut + plain])
    order = objs[len(slow):len(slow) + len(sut)] + objs[:len(slow)] + objs[len(slow) + len(sut):]
    return link(order, os.path.join(BUILD, "sim-core"))


TREES = ["types", "values", "semantic", "syntactic"]


def generate_full(gen):
    """Runs the stand-in generators on the repository's tree and grammar files; files keep their names."""
    v3x = f"{REPO}/src/v3x"
    srcs = [f"{v3x}/{t}.tree" for t in TREES] + [f"{v3x}/CqasmLexer.g4", f"{v3x}/CqasmParser.g4"]
    tools = sorted(glob.glob(f"{VERIF}/standins/gen/*.py"))
    key = sha(*[read(f) for f in srcs + tools])
    st = os.path.join(gen, ".stamp")
    if os.path.exists(st) and read(st).decode() == key:
        return
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(f"{gen}/libqasm/v3x")
    for t in TREES:
        run([sys.executable, f"{VERIF}/standins/gen/treegen.py", f"{v3x}/{t}.tree", f"{gen}/libqasm/v3x/{t}_generated.hpp", f"{gen}/{t}_generated.cpp"], f"generating {t}")
    run([sys.executable, f"{VERIF}/standins/gen/antlrgen.py", srcs[4], srcs[5], gen, "cqasm::v3x::parser"], "generating the parser")
    with open(st, "w") as f:
        f.write(key)


def build_full():
    try:
        return build_full_with(True)
    except BuildError as e:
        if "emscripten" not in str(e):
            raise
        print(f"the binding for emscripten does not build with the stand-in header and is left out: {str(e)[:1000]}", file=sys.stderr)
        return build_full_with(False)


def build_full_with(emscripten):
    out, gen = os.path.join(BUILD, "full"), os.path.join(BUILD, "full", "gen")
    generate_full(gen)
    inc = [f"-I{gen}", f"-I{REPO}/emscripten"]
    core = os.path.join(BUILD, "core")
    v3x = sorted(glob.glob(f"{REPO}/src/v3x/**/*.cpp", recursive=True), key=lambda f: -os.path.getsize(f))
    sut_new = [(f"{VERIF}/sim/ops_full.cpp", SUT + inc + ([] if emscripten else ["-DNO_EMSCRIPTEN"]), True)] + [(f"{gen}/syntactic_generated.cpp", SUT + inc, True)] + [(s, SUT + inc, True) for s in v3x] + \
              [(s, SUT + inc, True) for s in sorted(glob.glob(f"{REPO}/emscripten/*.cpp")) if emscripten] + [(f"{gen}/{t}_generated.cpp", SUT + inc, True) for t in TREES if t != "syntactic"]
    plain_new = [(f"{VERIF}/standins/src/antlr4-runtime.cpp", PLAIN + inc, False), (f"{gen}/antlr_glue.cpp", PLAIN + inc, False), (f"{VERIF}/sim/checks_full.cpp", PLAIN, False)]
    old = [(f"{VERIF}/sim/ops_core.cpp", SUT, True, core), (f"{VERIF}/sim/ops_hist.cpp", SUT, True, core)] + [(s, SUT, True, core) for s in repo_core_sources()]
    plain_old = [(f"{VERIF}/sim/{s}", PLAIN, False, core) for s in SIM_PLAIN]
    objs = compile_all([(*u, out) for u in sut_new] + old + [(*u, out) for u in plain_new] + plain_old)
    return link(objs, os.path.join(BUILD, "sim-full"))


def build_leg(leg):
    return {"core": build_core, "full": build_full}[leg]()


LOCALES = [("de_DE", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("en_US", "UTF-8"), ("fr_FR", "UTF-8"), ("ru_RU", "KOI8-R")]


def build_locales():
    d = os.path.join(BUILD, "locales")
    os.makedirs(d, exist_ok=True)
    def one(lc):
        lang, cs = lc
        dst = os.path.join(d, f"{lang}.{cs}")
        if os.path.isdir(dst) or not shutil.which("localedef"):
            return
        tmp = f"{dst}.{os.getpid()}"
        subprocess.run(["localedef", "--no-archive", "-c", "-i", lang, "-f", cs, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.isdir(tmp):
            os.rename(tmp, dst)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, LOCALES))
    return d, sorted(os.listdir(d))


def build_dict():
    """Integer and string literals of the library become candidate inputs."""
    ints, strs = set(), set()
    for f in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True) + glob.glob(f"{REPO}/include/**/*.hpp", recursive=True)):
        t = read(f).decode("utf-8", "replace")
        t = re.sub(r"/\*.*?\*/|//[^\n]*", "", t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)(?=[uUlLzZ]*\b)", t):
            try:
                v = int(m.group(1).replace("'", ""), 0)
            except ValueError:
                continue
            if v < 1 << 63:
                ints.add(v)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,60})"', t):
            s = m.group(1)
            try:
                b = s.encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace")
            except (UnicodeDecodeError, UnicodeEncodeError):
                continue
            strs.add(b)
    path = os.path.join(BUILD, "dict.txt")
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        for v in sorted(ints):
            f.write(f"i {v}\n")
        for s in sorted(strs):
            f.write(f"s {s.hex()}\n")
    os.replace(tmp, path)
    return path


def main():
    os.makedirs(BUILD, exist_ok=True)
    try:
        print(build_core())
        print(build_locales()[1])
        print(build_dict())
    except BuildError as e:
        print(e, file=sys.stderr)
        return 2
    try:
        print(build_full())
    except BuildError as e:
        print(f"the pipeline does not build with the stand-ins: {e}", file=sys.stderr)
    return 0


if __name__ == "__main__":
    sys.exit(main())
