#!/usr/bin/env python3
"""Build and run the check of one property against /repo's current working tree.

  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only SUB] [--max-seconds S]

Exit 0: the property held on everything explored. Exit 1, with a VIOLATION line: it is broken.
Exit 2: the check could not be built or run.
"""
import argparse
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OBAKE_REPO", "/repo")
PROPS = json.load(open(os.path.join(VERIF, "harness", "checks.json")))

SAN = {
    "none": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
}
LIBS = ["-lboost_serialization", "-ltbb", "-lfmt", "-lgmp", "-ldl", "-lpthread"]
# Needs libbacktrace, which is not installed; stack_trace.cpp is used instead, as in /repo's own build.
NOT_BUILT = {"libbacktrace_stack_trace.cpp"}


def gen_headers(inc):
    """config.hpp from /repo's template, and the Boost header with its known defect repaired (DESIGN.md)."""
    os.makedirs(os.path.join(inc, "obake"), exist_ok=True)
    out = []
    for line in open(os.path.join(REPO, "config.hpp.in")):
        line = line.replace("@obake_VERSION@", "0.9.0").replace("@obake_VERSION_MAJOR@", "0")
        line = line.replace("@obake_VERSION_MINOR@", "9")
        line = line.replace("@obake_VERSION_PATCH@", "0")
        if line.startswith("@") and line.rstrip().endswith("@"):
            line = "\n"
        out.append(line)
    with open(os.path.join(inc, "obake", "config.hpp"), "w") as f:
        f.writelines(out)
    src = "/usr/include/boost/unordered/detail/foa/core.hpp"
    if os.path.exists(src):
        s = open(src).read()
        old = "  void fast_copy_elements_from(const table_core& x)\n  {\n    if(arrays.elements){"
        if old in s:
            d = os.path.join(inc, "boost", "unordered", "detail", "foa")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "core.hpp"), "w") as f:
                f.write(s.replace(old, old.replace("if(arrays.elements)", "if(arrays.elements&&x.arrays.elements)")))


def compile_one(job):
    cmd, out, deps = job
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, out, p.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only", default="")
    ap.add_argument("--max-seconds", default="")
    ap.add_argument("--keep", help="leave the binary here")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.id not in PROPS:
        sys.stderr.write("unknown property %s\n" % a.id)
        return 2
    c = PROPS[a.id]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.id + ".", dir=os.path.join(VERIF, "build"))
    try:
        return build_and_run(a, c, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build_and_run(a, c, work, t0):
    inc = os.path.join(work, "inc")
    gen_headers(inc)
    san = c.get("san", "none")
    if a.tier == "thorough":
        san = c.get("san_thorough", san)
    cxx = c.get("cxx", "g++")
    flags = ["-std=c++20", "-g0", c.get("opt", "-O1")] + SAN[san] + c.get("flags", [])
    if c.get("tbb") == "shim":
        flags += ["-I" + os.path.join(VERIF, "shim_tbb")]
    flags += ["-I" + os.path.join(VERIF, "shim"), "-I" + inc, "-I" + os.path.join(VERIF, "harness"),
              "-I" + os.path.join(REPO, "include")]
    # The library's own translation units, and the check's.
    lib = [s for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
           if os.path.basename(s) not in NOT_BUILT]
    own = [os.path.join(VERIF, "harness", s) for s in c["sources"]]
    runner = [os.path.join(VERIF, "harness", "pbt_main.cpp")]
    jobs = []
    # Longest first.
    for i, s in enumerate(own + runner + lib):
        o = os.path.join(work, "%03d.o" % i)
        src, _, variant = s.partition(":")
        cmd = [cxx] + flags + (["-DVARIANT=" + variant] if variant else []) + ["-c", src, "-o", o]
        if shutil.which("ccache") and not os.environ.get("PBT_NO_CCACHE"):
            cmd = ["ccache"] + cmd
        jobs.append((cmd, o, s))
    env_cc = os.path.join(VERIF, "build", "ccache")
    os.environ["CCACHE_DIR"] = env_cc
    os.environ["CCACHE_BASEDIR"] = work
    os.environ["CCACHE_NOHASHDIR"] = "1"
    os.environ["CCACHE_MAXSIZE"] = "3G"
    # What does not compile is left out: the rest can still find a violation. Without one, the check gives no answer.
    objs = []
    failed = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for (rc, out, txt), (_, _, src) in zip(ex.map(compile_one, jobs), jobs):
            if rc == 0:
                objs.append(out)
                continue
            failed.append(src)
            errs = [l for l in txt.split("\n") if "error" in l][:5]
            sys.stderr.write("\n".join(errs) + "\n" if errs else txt[-3000:])
    if failed:
        sys.stderr.write("ERROR: %s: the check does not build in full: %s\n"
                         % (a.id, ", ".join(os.path.basename(s) for s in failed)))
        if runner[0] in failed or all(s in failed for s in own):
            sys.stderr.write("ERROR: %s: the check does not build\n" % a.id)
            return 2
    exe = os.path.join(work, "check")
    p = subprocess.run([cxx] + SAN[san] + objs + ["-o", exe] + LIBS, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("ERROR: %s: the check does not link\n" % a.id)
        return 2
    if san == "tsan":
        # The thread sanitizer does not start under every kernel configuration.
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66")
        if subprocess.run([exe, "--self-test"], env=env, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode != 0:
            sys.stderr.write("NOTE: the thread sanitizer does not start here; building without it\n")
            c = dict(c, san="none", san_thorough="none")
            return build_and_run(a, c, work, t0)
    t_build = time.time() - t0
    if a.keep:
        shutil.copy(exe, a.keep)
    if a.build_only:
        print("built %s in %.1f s" % (a.id, t_build))
        return 0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=%d:hard_rss_limit_mb=6000:allocator_may_return_null=0:" \
        "max_allocation_size_mb=4000" % c.get("leaks", 0)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    env["LC_ALL"] = "C"
    cmd = [exe, "--property", a.id, "--tier", a.tier, "--seed", a.seed,
           "--scale", str(float(a.scale) * c.get("scale", 1)),
           "--evidence", os.path.join(VERIF, "evidence", a.id + ".json"),
           "--replay-dir", os.path.join(VERIF, "replays"),
           "--workers", str(c.get("workers", 8)), "--case-timeout", str(c.get("case_timeout", 60))]
    ms = a.max_seconds or str(c.get("max_seconds_" + a.tier, 240 if a.tier == "quick" else 3600))
    cmd += ["--max-seconds", ms]
    if a.only:
        cmd += ["--only", a.only]
    # Replay the saved regression cases first: they bypass the generators.
    if a.replay:
        return subprocess.run(cmd + ["--replay", a.replay], env=env).returncode
    ev = os.path.join(VERIF, "evidence", a.id + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    sys.stdout.flush()
    rc = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL).returncode
    try:
        d = json.load(open(ev))
        d["assumptions"] = c.get("assumptions", [])
        d["wall_s"] = round(time.time() - t0, 2)
        d["coverage"]["build_s"] = round(t_build, 2)
        d["coverage"]["sanitizer"] = san
        with open(ev, "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")
    except (OSError, ValueError) as e:
        sys.stderr.write("ERROR: no evidence: %s\n" % e)
        return rc if rc == 1 else 2
    if failed and rc != 1:
        return 2
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
