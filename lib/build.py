#!/usr/bin/env python3
"""Builds the harness binaries from /repo's current working tree.

One configuration per sanitizer family.  All object files go through ccache (content hashed, so a
changed source file is always recompiled and an unchanged one never is) with its cache below
/verif/build, which is not tracked by git.
"""
import glob, os, subprocess, sys, time, shutil, json, fcntl

REPO = os.environ.get("TS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("TS_BUILD") or os.path.join(VERIF, "build")

MODULES = ["api", "backend", "board", "compiler", "core", "encryption", "engine", "frontend",
           "global", "memory", "module", "runtime", "utils", "kernels/common", "kernels/cpu"]

DEFS = ["-DBUILDING_TENNIS", "-DTS_DISABLE_PARALLEL", '-DTS_SOLUTION_DIR=\\"/repo\\"', "-DTS_USE_AVX", "-DTS_USE_FMA",
        "-DTS_USE_DEBUG_API", "-DTS_USE_HOOK", "-DTS_USE_PROFILER", "-DTS_USE_SIMD", "-DNDEBUG"]
COMMON = ["-std=c++11", "-w", "-g1", "-fno-omit-frame-pointer", "-mavx", "-mavx2", "-mfma", "-pthread"]

CONFIGS = {
    # behaviour + memory safety + undefined behaviour.  OpenMP on: the code path users run.
    "asan": dict(cxx="g++", opt="-O1", omp=True,
                 san=["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,nonnull-attribute",
                      "-fno-sanitize-recover=all",
                      # reported like the others unless a harness runs with halt_on_error=0
                      "-fsanitize-recover=signed-integer-overflow,shift"]),
    # data races.  libgomp is not instrumented, so OpenMP is off here.
    "tsan": dict(cxx="g++", opt="-O1", omp=False, san=["-fsanitize=thread"]),
    # the optimised build, OpenMP on: used where numbers of the shipped configuration matter.
    "plain": dict(cxx="g++", opt="-O2", omp=True, san=[]),
}


def sources():
    out = []
    for m in MODULES:
        for root, _, files in os.walk(os.path.join(REPO, "src", m)):
            for f in files:
                if f.endswith(".cpp"):
                    out.append(os.path.join(root, f))
    return sorted(out)


def harness_sources():
    return sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))


def ninja_file(cfg, d):
    c = CONFIGS[cfg]
    flags = DEFS + COMMON + [c["opt"]] + c["san"]
    link = c["san"] + ["-pthread", "-ldl"]
    if c["omp"]:
        flags += ["-DTS_USE_OPENMP", "-fopenmp"]
        link += ["-fopenmp"]
    flags += ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/harness" % VERIF]
    lines = ["cxx = %s" % c["cxx"], "flags = " + " ".join(flags), "link = " + " ".join(link), "",
             "rule cc", "  command = ccache $cxx $flags $extra -MD -MF $out.d -c $in -o $out", "  depfile = $out.d",
             "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar crsT $out @$out.rsp", "  rspfile = $out.rsp",
             "  rspfile_content = $in",
             "rule ld", "  command = $cxx $link_flags $in -Wl,--whole-archive libts.a -Wl,--no-whole-archive $link -o $out", ""]
    objs = []
    for s in sources():
        o = "o/" + os.path.relpath(s, REPO + "/src").replace("/", "_")[:-4] + ".o"
        lines.append("build %s: cc %s" % (o, s))
        objs.append(o)
    lines.append("build libts.a: ar " + " ".join(objs))
    bins = []
    for s in harness_sources():
        n = os.path.basename(s)[:-4]
        lines.append("build h/%s.o: cc %s" % (n, s))
        # booleans travel as an element type the C enumeration has no name for
        lines.append("  extra = -std=c++14" + (" -fno-sanitize=enum" if n == "cppapi" else ""))
        lines.append("build %s: ld h/%s.o | libts.a" % (n, n))
        bins.append(n)
    lines.append("default " + " ".join(bins) if bins else "default libts.a")
    text = "\n".join(lines) + "\n"
    p = os.path.join(d, "build.ninja")
    old = open(p).read() if os.path.exists(p) else None
    if old != text:
        open(p, "w").write(text)
    return bins


def build(cfg, targets=None, quiet=True):
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    env.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="6G", CCACHE_NOHASHDIR="1",
               CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime", CCACHE_COMPRESS="1")
    t0 = time.time()
    with open(os.path.join(BUILD, cfg + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ninja_file(cfg, d)
        cmd = ["ninja", "-C", d] + (targets or [])
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-8000:])
        raise SystemExit("build of configuration %s failed" % cfg)
    return d, time.time() - t0


if __name__ == "__main__":
    for cfg in sys.argv[1:] or list(CONFIGS):
        d, t = build(cfg)
        print("built %s in %.1fs -> %s" % (cfg, t, d))
