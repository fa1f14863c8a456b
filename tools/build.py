"""Builds the driver from /repo's current tree, in a temporary directory."""
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SHARG_REPO", "/repo")

COMMON = ["-std=c++20", "-I" + REPO + "/include", "-DSHARG_HAS_TDL=0", "-D_GLIBCXX_ASSERTIONS", "-w"]
FLAVOURS = {
    # debug build: assertions of the library are on
    "debug": ("clang++", ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    # release build: assertions of the library are off, the optimiser is on
    "release": ("g++", ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "release0": ("clang++", ["-O0", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"]),
    "tsan_release": ("clang++", ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"]),
}
GROUPS = 7
DEFAULT = 6    # group 6 is for one check only


class BuildError(Exception):
    pass


def build(outdir, flavour="debug", groups=None):
    """groups: the value type groups needed (None: all); the others are replaced by stubs."""
    cxx, fl = FLAVOURS[flavour]
    d = os.path.join(outdir, flavour)
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    want = set(range(DEFAULT)) if groups is None else set(groups)
    procs = []
    objs = []
    stub = os.path.join(d, "stub.cpp")
    with open(stub, "w") as f:
        f.write('#include "%s/harness/driver.hpp"\nnamespace drv {\n' % VERIF)
        for g in range(GROUPS):
            if g not in want:
                f.write("std::unique_ptr<slot_base> make_slot_%d(std::string const &, tokens const &) { return nullptr; }\n" % g)
        f.write("}\n")
    units = [("t%d" % g, VERIF + "/harness/types.cpp", ["-DGROUP=%d" % g]) for g in sorted(want)]
    units.append(("driver", VERIF + "/harness/driver.cpp", []))
    if len(want) < GROUPS:
        units.append(("stub", stub, []))
    for name, src, extra in units:
        o = os.path.join(d, name + ".o")
        objs.append(o)
        procs.append((name, subprocess.Popen([cxx] + COMMON + fl + extra + ["-c", src, "-o", o],
                                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = None
    for name, p in procs:
        out = p.communicate()[0].decode("utf-8", "replace")
        if p.returncode != 0 and bad is None:
            bad = name + ": " + "\n".join([l for l in out.split("\n") if "error" in l][:5])
    if bad:
        raise BuildError("driver does not compile: " + bad[:2000])
    exe = os.path.join(d, "driver")
    r = subprocess.run([cxx] + fl + objs + ["-o", exe, "-lutil", "-lpthread"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("driver does not link: " + r.stdout.decode("utf-8", "replace")[-1500:])
    for o in objs:
        os.unlink(o)
    return exe, time.time() - t0


def build_fuzzer(outdir):
    """The libFuzzer target (harness/fuzz.cpp)."""
    os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(outdir, "fuzz")
    t0 = time.time()
    r = subprocess.run(["clang++"] + COMMON + ["-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
                        VERIF + "/harness/fuzz.cpp", "-Wl,--wrap=exit", "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        out = r.stdout.decode("utf-8", "replace")
        raise BuildError("fuzz target does not build: " + "\n".join([l for l in out.split("\n") if "error" in l][:5])[:2000])
    return exe, time.time() - t0


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], [int(x) for x in sys.argv[3:]] or None))
