#!/usr/bin/env python3
"""Validates the stand-ins (and fixes in /repo's v3x part, which /opt/vp/build.sh does not compile): the repository's
complete test suite and its golden files, on the pipeline built plainly from /repo and the stand-ins."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

out, gen = os.path.join(build.BUILD, "plain"), os.path.join(build.BUILD, "full", "gen")
build.generate_full(gen)
R = build.REPO
fl = ["-std=c++20", "-DFMT_SHARED", f"-I{R}/include", f"-I{build.VERIF}/standins/include", f"-I{gen}", "-O1", "-g", "-Wall", "-Wextra", "-fPIC", "-Wno-sign-compare", "-Wno-unused-parameter"]
tf = fl + [f"-I{R}/test", f"-I{R}/test/v3x/cpp"]
lib = sorted(glob.glob(f"{R}/src/**/*.cpp", recursive=True)) + sorted(glob.glob(f"{gen}/*.cpp")) + [f"{build.VERIF}/standins/src/antlr4-runtime.cpp"]
tests = sorted(glob.glob(f"{R}/test/*.cpp") + glob.glob(f"{R}/test/v3x/cpp/*.cpp"))
gold = [f"{build.VERIF}/standins/test/goldens.cpp"]
try:
    objs = build.compile_all([(s, fl, False, out) for s in lib] + [(s, tf, False, out) for s in tests + gold])
except build.BuildError as e:
    print(e)
    sys.exit(2)
n, m = len(lib), len(lib) + len(tests)
a, b = os.path.join(out, "tests"), os.path.join(out, "goldens")
build.run(["g++", "-o", a, *objs[:m], "-lgmock", "-lgtest", "-lfmt", "-lpthread"], "linking the tests")
build.run(["g++", "-o", b, *objs[:n], *objs[m:], "-lfmt", "-lpthread"], "linking the golden comparison")
r1 = subprocess.run([a, "--gtest_brief=1"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("\n".join(r1.stdout.splitlines()[-12:]))
r2 = subprocess.run([b, f"{R}/res/v3x/tests/integration"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("\n".join(r2.stdout.splitlines()[-5:]))
sys.exit(1 if r1.returncode or r2.returncode else 0)
