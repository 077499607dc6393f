#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

usage: check.py <property> quick|thorough            run the check (VERIF_SEED chooses the seed)
       check.py <property> replay <file>             run one replay file
       check.py <property> build                     only build
       check.py setup                                build the engine (warms the compiler cache)
extra arguments are passed to the check's program.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = f"{REPO}/src"
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
FLAGS = ("-std=c++20 -DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_CHRONO_NO_LIB "
         "-DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL -DBOOST_SERIALIZATION_NO_LIB -DBOOST_THREAD_NO_LIB "
         "-DBOOST_THREAD_VERSION=5 -DHAS_STRING_VIEW=1 -DONLY_C_LOCALE=1 -D_USE_MATH_DEFINES -D_GLIBCXX_ASSERTIONS "
         "-Wno-everything").split()
LIBS = ("-lboost_program_options -lboost_serialization -lboost_thread -lboost_chrono -lboost_iostreams -lboost_filesystem "
        "-lexpat -lz -lbz2 -lpthread").split()
# the parts of the library that are not templates
LIBRARY = ["geometry/cache.cpp",
           "io/memory_mapped/utils.cpp", "matching/defect.cpp",
           "util/compiler.cpp", "util/time_helper.cpp"]
EXTRA = json.load(open(f"{VERIF}/checks/build.json"))


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(prop):
    conf = EXTRA.get(prop, {})
    out = f"{BUILD}/{prop}"
    os.makedirs(out, exist_ok=True)
    version = open(f"{SRC}/library/src/util/version.cpp.in").read() if os.path.exists(
        f"{SRC}/library/src/util/version.cpp.in") else ""
    import re
    with open(f"{out}/version.cpp", "w") as f:
        f.write(re.sub(r"[@$]\{?\w+[@}]", "verif", version))
    inc = [f"-I{VERIF}/shim", f"-I{VERIF}/lib", f"-I{SRC}/library/include", f"-I{SRC}/app/include"]
    opt = conf.get("opt", "-O1").split()
    san = conf.get("san", "").split()
    units = []
    for s in conf["sources"]:
        units.append((f"{VERIF}/checks/{s}", opt))
    units.append((f"{VERIF}/lib/pbt_main.cpp", ["-O1"]))
    for s in conf.get("library", LIBRARY):
        units.append((f"{SRC}/library/src/{s}", ["-O0" if s.endswith("srs.cpp") else "-O1"]))
    for s in conf.get("app", []):
        units.append((f"{SRC}/app/src/app/{s}", ["-O1"]))
    if version and conf.get("version", True):
        units.append((f"{out}/version.cpp", ["-O0"]))
    pre = ["ccache"] if shutil.which("ccache") else []
    os.environ.setdefault("CCACHE_DIR", f"{BUILD}/ccache")
    os.environ.setdefault("CCACHE_MAXSIZE", "3G")
    os.environ["CCACHE_NOHASHDIR"] = "1"

    def comp(u):
        src, o = u
        obj = f"{out}/{os.path.relpath(src, '/').replace('/', '_')}.o"
        r = run(pre + [CXX] + FLAGS + conf.get("flags", "").split() + inc + o + san + ["-c", src, "-o", obj])
        return src, obj, r

    objs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for src, obj, r in ex.map(comp, units):
            if r.returncode != 0:
                print(f"cannot compile {src}:\n{r.stdout[:6000]}", file=sys.stderr)
                sys.exit(2)
            objs.append(obj)
    exe = f"{out}/check"
    r = run([CXX] + san + objs + ["-o", exe] + LIBS)
    if r.returncode != 0:
        print(f"cannot link {prop}:\n{r.stdout[:6000]}", file=sys.stderr)
        sys.exit(2)
    for o in objs:
        os.remove(o)
    return exe


def main():
    prop, mode = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if prop == "setup":
        return 0
    exe = build(prop)
    if mode == "build":
        return 0
    known = f"{VERIF}/known_findings.txt"
    cmd = [exe, "--verif", VERIF, "--known", known]
    if mode == "replay":
        return subprocess.run(cmd + ["--replay", sys.argv[3]]).returncode
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    ev = f"{VERIF}/evidence/{prop}.json"
    extra = sys.argv[3:]
    cmd += ["--tier", mode, "--seed", str(int(os.environ.get("VERIF_SEED", "1") or "1"))]
    if not extra:
        cmd += ["--evidence", ev]
    else:
        cmd += ["--evidence", ev] + extra
    return subprocess.run(cmd).returncode


if __name__ == "__main__":
    sys.exit(main())
