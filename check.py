#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree and runs it.

  check.py setup             build everything (also done, per check, by the commands below)
  check.py ID                run the check of property ID (VERIF_SEED, VERIF_TIER from the environment)
  check.py ID replay FILE    run one recorded case again
  check.py ID stats|sample|list ...   for development
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
CXX = "/usr/bin/g++"
FLAGS = ["-std=c++17", "-pthread", "-O1", "-w", "-g0", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "src"), "-isystem", "/usr/include/eigen3", "-I" + HARNESS]
LINK = ["-lgmpxx", "-lgmp", "-lbliss", "-lpthread", "-ldl", "-lboost_program_options", "-lboost_filesystem", "-lboost_system", "-lboost_regex"]
# Sources of the library that the checks link. What needs other libraries compiles to nothing.
LIBDIRS = ["carl", "carl-extpolys", "carl-io", "carl-settings", "carl-model", "carl-statistics", "carl-covering", "carl-logging"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "8G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_SLOPPINESS"] = ""
    e.setdefault("HOME", "/root")
    return e


def generated():
    """config.h and CompileInfo.cpp are made by cmake in the source tree; they are not tracked.
    Make them as /opt/vp/build.sh does when they are missing (a clean checkout)."""
    missing = [f for f in glob.glob(os.path.join(REPO, "src", "carl*", "**", "*.in"), recursive=True) if not os.path.exists(f[:-3])]
    if not missing:
        return
    b = os.path.join(BUILD, "cmake")
    r = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Wno-dev", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=DEBUG", "-DCMAKE_CXX_FLAGS=-w", "-DCMAKE_CXX_FLAGS_DEBUG=", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DUSE_COCOA:BOOL=OFF", "-DUSE_BLISS:BOOL=ON", "-DEXPORT_TO_CMAKE:BOOL=OFF", "-DCMAKE_PROJECT_carl_INCLUDE=/opt/vp/carl-offline.cmake"])
    if r.returncode != 0:
        print(r.stdout[-4000:])
        sys.exit(2)


def compile_one(job):
    src, obj = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ([shutil.which("ccache")] if shutil.which("ccache") else []) + [CXX] + FLAGS + ["-c", src, "-o", obj]
    return src, sh(cmd, env=env())


def build(ids):
    """Compiles the library and the harnesses of the given properties. ccache compares contents, so time stamps do not matter."""
    os.makedirs(BUILD, exist_ok=True)
    generated()
    jobs = {}
    libobjs = []
    for d in LIBDIRS:
        for src in sorted(glob.glob(os.path.join(REPO, "src", d, "**", "*.cpp"), recursive=True)):
            obj = os.path.join(BUILD, "obj", os.path.relpath(src, os.path.join(REPO, "src")) + ".o")
            jobs[src] = obj
            libobjs.append(obj)
    engine = os.path.join(BUILD, "obj", "pbt.o")
    jobs[os.path.join(HARNESS, "pbt.cpp")] = engine
    hobjs = {}
    for i in ids:
        srcs = sorted(glob.glob(os.path.join(HARNESS, i + ".cpp")) + glob.glob(os.path.join(HARNESS, i + "_*.cpp")))
        if not srcs:
            print("no harness for", i)
            sys.exit(2)
        hobjs[i] = []
        for s in srcs:
            o = os.path.join(BUILD, "obj", os.path.basename(s) + ".o")
            jobs[s] = o
            hobjs[i].append(o)
    # the harness files are the slow ones: start them first
    order = sorted(jobs.items(), key=lambda j: (not j[0].startswith(HARNESS), j[0]))
    bad = False
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("BUILD_JOBS", "8"))) as ex:
        for src, r in ex.map(compile_one, order):
            if r.returncode != 0:
                bad = True
                print("does not compile:", src)
                print(r.stdout[:6000])
    if bad:
        sys.exit(2)
    lib = os.path.join(BUILD, "libcarl.a")
    newlib = lib + ".tmp%d" % os.getpid()
    r = sh(["ar", "rcs", newlib] + libobjs)
    if r.returncode != 0:
        print(r.stdout)
        sys.exit(2)
    os.replace(newlib, lib)

    def link(i):
        exe = os.path.join(BUILD, "bin", i)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX, "-pthread", "-o", tmp] + hobjs[i] + [engine, lib] + LINK)
        if r.returncode == 0:
            os.replace(tmp, exe)
        return i, r

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for i, r in ex.map(link, ids):
            if r.returncode != 0:
                print("does not link:", i)
                print(r.stdout[:6000])
                sys.exit(2)


def all_ids():
    return sorted({re.match(r"([A-Z]\d+)", os.path.basename(f)).group(1) for f in glob.glob(os.path.join(HARNESS, "[A-Z][0-9]*.cpp"))})


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        build(sys.argv[2:] or all_ids())
        return 0
    pid = sys.argv[1]
    build([pid])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    e = dict(os.environ)
    e["PBT_EVIDENCE"] = os.path.join(HERE, "evidence", pid + ".json")
    e["PBT_REPLAY_DIR"] = os.path.join(HERE, "evidence", "replay")
    # how many cases a tier runs, so that the tiers of all properties take about the same time
    with open(os.path.join(HARNESS, "scale.json")) as f:
        scale = json.load(f).get(pid, [1, 1])
    e.setdefault("PBT_SCALE", str(scale[1 if e.get("VERIF_TIER") == "thorough" else 0]))
    args = sys.argv[2:] or ["run"]
    if args[0] != "run":
        e.pop("PBT_EVIDENCE")
    sys.stdout.flush()
    # checks run in a scratch directory of their own
    scratch = os.path.join(BUILD, "scratch", "%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    if args[0] == "replay" and len(args) > 1:
        args[1] = os.path.abspath(args[1])
    try:
        r = subprocess.run([os.path.join(BUILD, "bin", pid)] + args, env=e, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode if r.returncode >= 0 else 2


if __name__ == "__main__":
    sys.exit(main())
