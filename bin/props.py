"""What each check runs, and how its evidence is described."""
CORE_REAL = ["src/utils.cpp", "src/annotations.cpp", "src/error.cpp", "src/version.cpp", "src/string_builder.cpp", "src/result.cpp",
             "include/libqasm/overload.hpp and the other library headers", "libfmt", "libstdc++ (templates instrumented)"]
CORE_STUB = ["tree-gen support headers (standins/include: One, Maybe, Any, Annotatable)", "node classes of the overload table (sim/ops_core.cpp)",
             "operator new/delete, pthread primitives, clock, getenv, file system calls (sim/rt.cpp)", "output sinks (SimBuf)"]
FULL_REAL = CORE_REAL + ["src/v3x/* (all)", "include/libqasm/v3x/*", "src/v3x/*.g4 and *.tree (read by the stand-in generators)"]
FULL_STUB = CORE_STUB + ["ANTLR 4 runtime and the generated lexer and parser (standins/gen/antlrgen.py, standins/src/antlr4-runtime.cpp: lexer, SLL and LL prediction over the grammar's ATN; no error recovery)",
                         "code that tree-gen generates (standins/gen/treegen.py)", "std::cerr", "files under /simfs"]
ASSUME = ["races are looked for on simulated-heap and program-image addresses; a race on other memory is seen only through its results",
          "code of libfmt and of libstdc++'s compiled part is not instrumented: its accesses are seen at calls into it only",
          "sampling: a clean batch is evidence, not proof"]
ASSUME_FULL = ASSUME + ["the generated parser, the ANTLR runtime and the generated tree classes behave like the stand-ins, which pass the repository's whole test suite and all golden files (bin/standin_tests.py); the stand-ins are not preempted"]


def P(rule, seconds=(38, 600), legs=None, real=None, stub=None, assumptions=None, level="exploration"):
    return {"rule": rule, "seconds": seconds, "legs": legs, "real": real or CORE_REAL, "stub": stub or CORE_STUB, "assumptions": assumptions or ASSUME, "level": level}


def both(check, core=0.5):
    return {"legs": [("core", check, core), ("full", check, 1 - core)], "seconds": (46, 700), "real": FULL_REAL, "stub": FULL_STUB, "assumptions": ASSUME_FULL}


def full(check):
    return {"legs": [("full", check, 1.0)], "seconds": (42, 700), "real": FULL_REAL, "stub": FULL_STUB, "assumptions": ASSUME_FULL}


NT = "Distinct and non-trivial: runs with different execution digests. "
PROPS = {
    "C01": P(NT + "A run: 2-7 callers with 1-4 calls each on their own data, preempted at instrumented accesses as the seed decides; each outcome is compared with the call alone in a fresh process, races are detected by happens-before.",
             **both("C01")),
    "C02": P(NT + "A run: 1-3 shared objects (text, location, error, version, overload table), 2-7 callers reading them (rendering, copying, comparing, looking up) under seeded preemption; outcomes against the read alone, race detection, and the objects read again afterwards.",
             **both("C02")),
    "C03": P(NT + "A run: a history of up to 16 calls (up to some thousands in marathons), including calls that fail and calls that run out of memory; each outcome is compared with the call alone in a fresh process.",
             **both("C03")),
    "C04": P(NT + "A run: one call (or one history of a long-lived object) repeated with its n-th allocation failing, for every n in a window, once, several times or from then on; outcome, leaks, heap integrity, objects held and the call made again are checked after each.",
             **both("C04")),
    "C05": P(NT + "A run: 1-4 programs read through one of eight entry points from simulated storage that refuses, vanishes, is replaced, fails, is interrupted or delivers short reads at seeded system calls; "
                  "the outcome is that of the complete bytes or a report of the trouble, nothing stays open, and the next attempt on healthy storage is unaffected.", **full("C05")),
    "C06": P(NT + "A run: 1-4 programs (generated, then damaged: flipped, torn, cut, spliced, duplicated) parsed and analysed in an arena of poisoned memory; crash, hang, abort, escape of an exception, ill-formed tree, "
                  "disagreement of the forms of a result, location outside the text or file name lost are violations.", **full("C06")),
    "C07": P(NT + "A run: 1-6 encodings of texts that were damaged on their way (flipped, torn, cut, spliced, duplicated), decoded by independent JSON and URL decoders.",
             **both("C07", 0.65)),
    "C08": P(NT + "A run: histories of constructions, growths, copies, moves, assignments and comparisons of locations, with duplicated and reordered reports and failing allocations, beside a reference model.",
             legs=[("core", "C08", 1.0)]),
    "C09": P(NT + "A run: renderings of locations, errors and versions into sinks that fail, write short or throw after a seeded number of bytes, with odd stream state, beside a reference renderer.",
             **both("C09", 0.65)),
    "C10": P(NT + "A run: calls interleaved with changes of the host process's C and C++ locale, directory, environment, errno, heap layout and contents, stack contents, clock; each outcome is compared with the call in a pristine process, and the host's state must not change.",
             **both("C10")),
    "C11": P(NT + "A run: histories of errors (made, copied, moved, assigned, thrown, given context, read by several callers), with failing allocations and preemption, beside a reference model of their text.",
             legs=[("core", "C11", 1.0)]),
    "C12": P(NT + "A run: histories of registrations, look-ups, copies and moves of overload tables with failing allocations, beside a reference model.",
             **both("C12", 0.65)),
    "C13": P(NT + "A run: calls on inputs of up to 70000 bytes, alone or preempted; the simulated steps and the bytes requested are bounded linearly in the size of input and output, and programs with n and with 4n repetitions of one construct are compared.",
             **both("C13", 0.6)),
    "C15": P(NT + "A run: a history of 2-7 calls through different entry points, forms and analyzers (fresh, reused, copied) on 1-3 programs, damaged the same for all; each outcome is compared with the simplest way of asking the same in a fresh process. "
                  "A run of the Python leg: a history of 1-20 calls of the Python-facing class on three analyzers over a simulated extension module that answers anything or raises; what it says is what the native side said.",
             **{**full("C15"), "legs": [("full", "C15", 0.93), ("pyface", "C15", 0.07)], "real": FULL_REAL + ["emscripten/emscripten_wrapper.*", "python/module/cqasm/v3x/__init__.py (Python leg)"],
                "stub": FULL_STUB + ["emscripten/bind.h", "SWIG's extension module and the generated Python tree classes (Python leg)"]}),
    "C14": P(NT + "A run: one run of the real script in a forked process; a workload is 1-3 groups of 1-3 overlapping runs with faults, crashes and power losses, then a run in which nothing fails; the property is judged on the history after every run.",
             legs=[("py", "C14", 1.0)], real=["scripts/generate_antlr_parser.py", "Python's urllib, http.client, shutil, tempfile, subprocess.run"],
             stub=["connection and server", "java and the ANTLR tool", "clock, process ids", "failures, power loss and durability of the file system (real files in a scratch folder below)"],
             assumptions=["hand-overs and crashes happen at system calls, not between two of them", "the server states the length of the file or sends it in chunks", "sampling: a clean batch is evidence, not proof"]),
}

SAMPLED = "Sampled, not exhaustive: "
NOTES = {
    "C01": ("caller interleavings at instrumented memory accesses", SAMPLED + "well over 100k interleavings per quick run; real library code under a baton scheduler with a happens-before race detector. Trusts the simulator runtime and that uninstrumented libfmt/libstdc++ code shares nothing beyond what the calls into it show."),
    "C02": ("caller interleavings over shared objects", SAMPLED + "interleaved readers of one object against the read alone, with race detection and a read-again pass. Same trust as C01."),
    "C03": ("call histories including failing calls", SAMPLED + "every call of a history against the same call alone in a fresh process; detects state kept between calls."),
    "C04": ("allocation failures at every allocation site of sampled calls", "Sampled calls, enumerated failure points within a window: outcome, leaks, heap integrity, retained objects and a repeat of the call after each failure."),
    "C05": ("faults of the storage a program is read from, at every system call", SAMPLED + "file system calls are simulated; the oracle is the same entry point on the complete bytes, or a report without a location when a fault took effect."),
    "C06": ("programs damaged on their way, with failing allocations and poisoned memory", SAMPLED + "the real library over stand-ins for the ANTLR runtime and the generated classes; crashes, hangs, escaping exceptions, heap damage, leaks and unsound results are violations."),
    "C07": ("damaged texts on their way into the encoders", SAMPLED + "independent strict decoders are the oracle."),
    "C08": ("histories of duplicated, reordered and failing location reports", SAMPLED + "a small reference model is compared after every step."),
    "C09": ("failing, short and throwing sinks at seeded byte positions", SAMPLED + "an independent renderer is the oracle; partial output must be a prefix and the failure must show."),
    "C10": ("states of the host process's environment", SAMPLED + "each outcome against the call in a pristine process, and the host's state must be left alone."),
    "C11": ("histories of errors with failing allocations and preemption", SAMPLED + "a reference model of the text is compared after every step."),
    "C12": ("histories of overload tables with failing allocations", SAMPLED + "a reference model of the table is compared after every look-up."),
    "C13": ("input sizes, preemption and allocation failure", SAMPLED + "simulated steps and requested bytes bounded linearly in the size of input and output, with a margin of about ten over what was observed; of the pipeline also the growth from n to 4n repetitions of 38 constructs, at most fivefold."),
    "C15": ("histories through different entry points with failing allocations", SAMPLED + "each outcome against the simplest equivalent call in a fresh process."),
    "C14": ("faults, crash points and interleavings of runs of the script", SAMPLED + "the real script over a simulated network, disk, generator and clock; files are durable only once synchronised; every run's exit status, the bytes the generator was started on and both folders are judged."),
}
PURE = "A pure function of its input: no schedule, clock, I/O, fault or history for a simulation to decide."
NOT_APPLICABLE = {
    "C20": PURE, "C21": PURE, "C22": PURE, "C23": PURE,
    "C24": PURE + " The serialiser is generated by tree-gen, which is absent here.",
}
