#!/usr/bin/env python3
"""Build the simulator from /repo's *current working tree* into /verif/build.

Own build files (ninja, generated here); nothing is read from /repo/_build and
nothing is written in /repo.  Incremental: ninja's depfiles see every header.
"""
import os, subprocess, sys, glob, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DIRS = ["src/Interfaces", "src/Interfaces/Ipopt", "src/Algorithms",
        "src/Algorithms/Branching", "src/Algorithms/OaGenerators",
        "src/Algorithms/QuadCuts", "src/CbcBonmin", "src/CbcBonmin/Heuristics"]
# translation units the shipped configuration does not compile either
SKIP = {"BonStdCInterface.cpp", "BonStdInterfaceTMINLP.cpp", "BonCurvatureEstimator.cpp", "BonCurvBranchingSolver.cpp"}

CXX = "g++"
FLAGS = ["-O1", "-g1", "-std=gnu++17", "-fPIC", "-w", "-DBONMINLIB_BUILD", "-DHAVE_CONFIG_H",
         "-DHAVE_CSTDDEF", "-pipe"]


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def sources():
    out = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f) not in SKIP:
                out.append(f)
    return out


def build(target="sim", quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    incs = ["-I" + os.path.join(VERIF, "sim/config")] + ["-I" + os.path.join(REPO, d) for d in DIRS] + \
        ["-I" + os.path.join(REPO, "src/Interfaces/Ampl"), "-I" + os.path.join(REPO, "src/Interfaces/Filter"),
         "-I/usr/include/coin"]
    n = []
    n.append("builddir = %s" % esc(BUILD))
    n.append("cxxflags = %s" % " ".join(FLAGS + incs))
    n.append("rule cxx\n  command = %s $cxxflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in" % CXX)
    n.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out")
    n.append("rule link\n  command = %s -rdynamic -o $out $in -Wl,--start-group $libs -Wl,--end-group "
             "-lipopt -lCbc -lCgl -lOsiClp -lClp -lOsi -lCoinUtils -llapack -lblas -ldl -lpthread\n  description = LINK $out" % CXX)
    objs = []
    for s in sources():
        o = os.path.join(BUILD, "bonmin", os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "_")[:-4] + ".o")
        objs.append(o)
        n.append("build %s: cxx %s" % (esc(o), esc(s)))
    simo = []
    for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
        o = os.path.join(BUILD, "sim_obj", os.path.basename(s)[:-4] + ".o")
        simo.append(o)
        n.append("build %s: cxx %s" % (esc(o), esc(s)))
    lib = os.path.join(BUILD, "libbonmin_sim.a")
    n.append("build %s: ar %s" % (esc(lib), " ".join(map(esc, objs))))
    exe = os.path.join(BUILD, "bonsim")
    n.append("build %s: link %s | %s\n  libs = %s" % (esc(exe), " ".join(map(esc, simo)), esc(lib), esc(lib)))
    n.append("default %s" % esc(exe))
    txt = "\n".join(n) + "\n"
    nf = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
        env.pop(k, None)
    r = subprocess.run(["ninja", "-C", BUILD, "-f", nf, "-j", "8"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    if not quiet:
        print(r.stdout[-300:])
    return exe


if __name__ == "__main__":
    print(build(quiet=False))
