"""Builds a conformance driver against the current /repo/src/libkiter.

Objects go to /verif/.build (git-ignored); ninja decides what is out of date, so nothing of an older
source tree can be reused.  Every .cpp of libkiter is compiled (globbed, like the project's own
build), linked statically into the driver."""
import os, subprocess, glob, hashlib, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KITER_REPO", "/repo")
SRC = os.path.join(REPO, "src", "libkiter")
BUILD = os.path.join(VERIF, ".build")

PCH = """#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <array>
#include <vector>
#include <map>
#include <string>
#include <iostream>
#include <set>
#include <algorithm>
#include <stack>
#include <chrono>
#include <queue>
#include <numeric>
#include <fstream>
#include <unordered_map>
#include <tuple>
#include <stdexcept>
#include <limits>
#include <cstdlib>
#include <cmath>
#include <climits>
#include <sstream>
#include <list>
#include <functional>
#include <cstring>
#include <cstdio>
#include <random>
#include <iomanip>
#include <cassert>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/properties.hpp>
#include <boost/graph/graph_utility.hpp>
#include <boost/graph/copy.hpp>
#include <boost/graph/bellman_ford_shortest_paths.hpp>
#include <boost/functional/hash.hpp>
"""

class BuildError(Exception):
    pass

def _write(path, text):
    old = None
    if os.path.exists(path):
        old = open(path).read()
    if old != text:
        open(path, "w").write(text)

def build(driver, only=None, mode="release"):
    """driver: name of harness/<driver>.cpp.  only: list of source prefixes (relative to libkiter)
    tried first; if that does not link, everything is compiled."""
    if only:
        try:
            return _build(driver, only, mode)
        except BuildError:
            pass
    return _build(driver, None, mode)

def _build(driver, only, mode):
    tag = hashlib.sha1((REPO + mode).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, tag)
    os.makedirs(d, exist_ok=True)
    _write(os.path.join(d, "pch.h"), PCH)
    srcs = sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True))
    srcs = [s for s in srcs if os.path.basename(s) != "null.cpp"]
    rel = {s: os.path.relpath(s, SRC) for s in srcs}
    if only is not None:
        srcs = [s for s in srcs if any(rel[s].startswith(p) for p in only)]
    defs = "-D__RELEASE_MODE__" if mode == "release" else "-D__DEBUG_MODE__"
    opt = "-O1"
    common = f"-std=c++17 {opt} -fPIC -w {defs} -I{SRC} -I/usr/include/libxml2"
    n = ["ninja_required_version = 1.3", f"builddir = {d}"]
    n += ["rule pch", f"  command = g++ {common} -x c++-header $in -o $out -MD -MF $out.d", "  depfile = $out.d", "  deps = gcc"]
    n += ["rule cc", f"  command = g++ {common} -include {d}/pch.h -c $in -o $out -MD -MF $out.d", "  depfile = $out.d", "  deps = gcc"]
    n += ["rule cx", f"  command = g++ {common} -include array -c $in -o $out -MD -MF $out.d", "  depfile = $out.d", "  deps = gcc"]
    n += ["rule ld", "  command = g++ -o $out $in -lxml2 -lglpk -lboost_filesystem -lboost_system"]
    n += [f"build {d}/pch.h.gch: pch {d}/pch.h"]
    objs = []
    for s in srcs:
        o = os.path.join(d, "obj", rel[s].replace("/", "__") + ".o")
        objs.append(o)
        n.append(f"build {o}: cc {s} | {d}/pch.h.gch")
    do = os.path.join(d, "drv", driver + ".o")
    n.append(f"build {do}: cc {VERIF}/harness/{driver}.cpp | {d}/pch.h.gch")
    exe = os.path.join(d, "bin", driver)
    n.append(f"build {exe}: ld {do} {' '.join(objs)}")
    nf = os.path.join(d, f"build-{driver}-{'all' if only is None else 'sub'}.ninja")
    _write(nf, "\n".join(n) + "\n")
    # objects shared by several build files: each keeps its own log, so up-to-date checks are separate
    r = subprocess.run(["ninja", "-C", d, "-f", nf, "-j8", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    return exe

def tag(mode="release"):
    return hashlib.sha1((REPO + mode).encode()).hexdigest()[:8]

def compile_text(name, text, mode="release"):
    """compiles a generated source against libkiter as `build` left it: (executable | None, messages).  The caller removes the directory."""
    d = os.path.join(BUILD, tag(mode)); w = os.path.join(d, f"gen-{name}-{os.getpid()}")
    os.makedirs(w, exist_ok=True); f = os.path.join(w, name + ".cpp"); open(f, "w").write(text)
    defs = "-D__RELEASE_MODE__" if mode == "release" else "-D__DEBUG_MODE__"
    flags = ["-std=c++17", "-O1", "-fPIC", "-w", defs, f"-I{SRC}", "-I/usr/include/libxml2", f"-I{VERIF}/harness"]
    r = subprocess.run(["g++", *flags, "-include", f"{d}/pch.h", "-c", f, "-o", f + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout
    srcs = [s for s in sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True)) if os.path.basename(s) != "null.cpp"]
    objs = [os.path.join(d, "obj", os.path.relpath(s, SRC).replace("/", "__") + ".o") for s in srcs]
    exe = os.path.join(w, name)
    r = subprocess.run(["g++", "-o", exe, f + ".o", *objs, "-lxml2", "-lglpk", "-lboost_filesystem", "-lboost_system"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(r.stdout[-3000:])
    return exe, ""

if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:] or None), time.time() - t)
