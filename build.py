#!/usr/bin/env python3
"""Content-addressed incremental build of /repo's sources and /verif's checks.

    build.py NAME...        build the named check programs (see CHECKS below)
    build.py --all          build everything (setup)
    build.py --bin NAME     print the path of a check's program

An object is rebuilt when its command line, its source or any file of /repo or
/verif it included last time has another *content*; time stamps are ignored.
Sources are found by globbing, so files that appear in or vanish from /repo are
followed without an edit here."""

import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NIXD_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(VERIF, "src")
GEN = os.path.join(BUILD, "gen")

POOL = ["-I" + SRC + "/stubs/pool"]
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute", "-fno-omit-frame-pointer"]
# The 'asan' variant is the one every check that hunts crashes uses.
VARIANTS = {
    "fast": ["-O1", "-g1"] + POOL,
    "asan": ASAN + POOL,
    # real threads and processes: Boost's own pool
    "real": ASAN,
    "plain": ["-O1", "-g1"],
    # real threads, hooked locks and a hooked pool: see src/mc/sched.h
    "schedasan": ASAN + ["-DMC_SCHED=1", "-I" + SRC + "/stubs/sched"] + POOL,
    "sched": ["-O1", "-g1", "-DMC_SCHED=1", "-I" + SRC + "/stubs/sched"] + POOL,
}
COMMON = ["g++", "-std=gnu++20", "-w", "-fPIC", "-D_FILE_OFFSET_BITS=64", "-U_FORTIFY_SOURCE", "-DBOOST_ALL_NO_LIB",
          "-D_GLIBCXX_ASSERTIONS", "-Werror=return-type", "-pthread"]
INC = ["-I" + SRC, "-I" + SRC + "/stubs", "-I" + GEN]
INC_REPO = ["-I" + REPO + "/libnixf/src", "-I" + REPO + "/libnixf/include",
            "-I" + REPO + "/nixd/lspserver/include", "-I" + REPO + "/nixd/include",
            "-I" + REPO + "/nixd/lib", "-isystem", "/usr/lib/llvm-18/include"]
LIBS = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lpthread", "-lrt", "-ldl"]

# check program -> (source files in src/checks, variant, groups of /repo objects,
#                   extra link flags)
WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock"]
CHECKS = {}


NEEDS = {}


def check(name, srcs=None, variant="fast", groups=("nixf",), ldflags=(), needs=()):
    CHECKS[name] = (srcs or [name + ".cpp"], variant, list(groups), list(ldflags))
    NEEDS[name] = list(needs)


exec(open(os.path.join(VERIF, "targets.py")).read())


def sha(data):
    return hashlib.sha256(data).hexdigest()


_filehash = {}


def fhash(path):
    h = _filehash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "-"
        _filehash[path] = h
    return h


def generate():
    os.makedirs(GEN, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    for script in sorted(glob.glob(REPO + "/libnixf/src/*/*.*.py")):
        out = os.path.join(GEN, os.path.basename(script)[:-3])
        tmp = out + ".tmp"
        subprocess.run([sys.executable, script, tmp], check=True, env=env)
        install(tmp, out)
    tmp = os.path.join(GEN, "nixd-config.h.tmp")
    with open(tmp, "w") as f:
        f.write('#pragma once\n#define NIXD_VERSION "verif"\n#define NIXD_VCS_TAG "verif"\n'
                '#define NIXD_LIBEXEC "/nonexistent"\n')
    install(tmp, os.path.join(GEN, "nixd-config.h"))


def install(tmp, out):
    with open(tmp, "rb") as f:
        new = f.read()
    try:
        with open(out, "rb") as f:
            if f.read() == new:
                os.unlink(tmp)
                return
    except OSError:
        pass
    os.replace(tmp, out)


NIXHDR = re.compile(rb'#\s*include\s*[<"](nix/(?!expr/value\.hh)|nixt/|nixd/Eval/(AttrSetProvider|EvalProvider)\.h)')


def needs_nix(path):
    with open(path, "rb") as f:
        return bool(NIXHDR.search(f.read()))


def group(name):
    """Sources of one group, as absolute paths."""
    def g(pat):
        return sorted(p for p in glob.glob(REPO + "/" + pat, recursive=True) if not needs_nix(p))
    if name == "nixf":
        return g("libnixf/src/**/*.cpp") + [GEN + "/Diagnostic.cpp", SRC + "/stubs/primops.cpp"]
    if name == "lsp":
        return g("nixd/lspserver/src/**/*.cpp")
    if name == "ctl":
        return g("nixd/lib/**/*.cpp")
    if name == "ctl-nolaunch":
        return [p for p in g("nixd/lib/**/*.cpp") if not p.endswith("/Eval/Launch.cpp")]
    if name == "ctl-noproc":
        return [p for p in g("nixd/lib/**/*.cpp") if not p.endswith(("/Eval/Launch.cpp", "/Support/ForkPiped.cpp"))]
    raise KeyError(name)


def objpath(src, variant):
    rel = src
    for base, tag in ((REPO + "/", "repo/"), (VERIF + "/", "verif/")):
        if src.startswith(base):
            rel = tag + src[len(base):]
            break
    if src.startswith(GEN + "/"):
        rel = "gen/" + src[len(GEN) + 1:]
    return os.path.join(BUILD, "obj", variant, rel.replace("/", "_") + ".o")


def command(src, variant):
    inc = list(INC)
    flags = VARIANTS[variant]
    return COMMON + flags + inc + INC_REPO + ["-c", src]


def fresh(obj, cmd):
    try:
        with open(obj + ".json") as f:
            rec = json.load(f)
    except (OSError, ValueError):
        return False
    if rec["cmd"] != cmd or not os.path.exists(obj):
        return False
    return all(fhash(p) == h for p, h in rec["deps"].items())


def compile_one(src, variant):
    obj = objpath(src, variant)
    cmd = command(src, variant)
    if fresh(obj, cmd):
        return obj, False, ""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for f in (obj, obj + ".json"):
        if os.path.exists(f):
            os.unlink(f)
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", obj + ".tmp.o"], capture_output=True, text=True)
    if r.returncode:
        return obj, True, "FAILED: " + " ".join(cmd) + "\n" + r.stderr[-6000:]
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    deps = {}
    for p in txt.split(":", 1)[1].split():
        p = os.path.abspath(p)
        if p.startswith(REPO + "/") or p.startswith(VERIF + "/") or p.startswith(BUILD + "/"):
            deps[p] = fhash(p)
    os.unlink(dep)
    os.replace(obj + ".tmp.o", obj)
    with open(obj + ".json", "w") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    return obj, True, ""


def binpath(name):
    return os.path.join(BUILD, "bin", name)


def build(names):
    names = list(dict.fromkeys(list(names) + [d for n in names for d in NEEDS[n]]))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    generate()
    jobs, per = {}, {}
    for n in names:
        srcs, variant, groups, ld = CHECKS[n]
        files = [os.path.join(SRC, "checks", s) if not s.startswith("/") else s for s in srcs]
        for g in groups:
            files += group(g)
        per[n] = [(s, variant) for s in files]
        for s in files:
            jobs[(s, variant)] = None
    # biggest sources first
    order = sorted(jobs, key=lambda k: -os.path.getsize(k[0]))
    order.sort(key=lambda k: k[1] != "asan")
    errors = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for k, (obj, new, err) in zip(order, ex.map(lambda k: compile_one(*k), order)):
            jobs[k] = obj
            if err:
                errors.append(err)
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\n")
        sys.exit(3)

    def link(n):
        srcs, variant, groups, ld = CHECKS[n]
        objs = [jobs[k] for k in per[n]]
        out = binpath(n)
        cmd = ["g++", "-fuse-ld=lld", "-pthread"] + [f for f in VARIANTS[variant] if f.startswith("-f")] + objs + ld + LIBS + ["-o", out]
        key = sha((" ".join(cmd) + "".join(fhash_obj(o) for o in objs)).encode())
        try:
            if open(out + ".key").read() == key and os.path.exists(out):
                return ""
        except OSError:
            pass
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = subprocess.run(cmd[:-1] + [out + ".tmp"], capture_output=True, text=True)
        if r.returncode:
            return "LINK FAILED: " + n + "\n" + r.stderr[-4000:]
        os.replace(out + ".tmp", out)
        with open(out + ".key", "w") as f:
            f.write(key)
        return ""

    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        errs = [e for e in ex.map(link, names) if e]
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
        sys.exit(3)
    lock.close()


def fhash_obj(o):
    with open(o + ".json", "rb") as f:
        rec = f.read()
    return sha(rec)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--bin":
        print(binpath(a[1]))
    elif a and a[0] == "--all":
        build(sorted(CHECKS))
    else:
        build(a)
