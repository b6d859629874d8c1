#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree with ninja.

  build.py core|full      -> prints the path of the binary

The code under test is compiled with -fsanitize=thread (compile step only); the
callbacks are implemented by sim/simrt.cc, which is linked instead of libtsan.
"""
import glob, os, re, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

SUT_DEFS = ["-DFMT_DEPRECATED_OSTREAM=1", "-DFMT_HEADER_ONLY=1", "-DFMT_NO_FMT_STRING_ALIAS=1",
            "-DSPDLOG_FMT_EXTERNAL", "-DDREAL_CHECK_INTERRUPT"]
TP = REPO + "/third_party/"
INC = ["-iquote", REPO, "-iquote", BUILD + "/gen",
       "-I" + VERIF + "/shim"]
for d in ["com_github_robotlocomotion_drake", "com_github_pinam45_dynamic_bitset",
          "com_github_tartanllama_optional", "com_github_progschj_threadpool", "com_github_westes_flex"]:
    INC += ["-isystem", TP + d]
SUT_FLAGS = ["-std=c++14", "-O1", "-g1", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fsanitize=thread",
             "--param", "tsan-distinguish-volatile=0", "-w", "-pipe"]
H_FLAGS = ["-std=c++14", "-O1", "-g1", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fsanitize=thread", "-w", "-pipe",
           "-I" + VERIF + "/sim", "-I" + VERIF + "/harness"]
RT_FLAGS = ["-std=c++17", "-O2", "-g1", "-fno-strict-aliasing", "-w"]

COV = bool(os.environ.get("SIM_COV"))  # development aid: gcov data for the code under test
if COV: SUT_FLAGS += ["--coverage", "-fprofile-update=atomic"]; RT_FLAGS += ["-DSIM_COV"]

def src(pat):
    out = []
    for f in sorted(glob.glob(pat)):
        b = os.path.basename(f)
        if "test" in b: continue
        out.append(f)
    return out

_memo = {}
def needs_shim(f):
    """True if the file reaches one of the libraries that only exist here as a shim."""
    if f in _memo: return _memo[f]
    _memo[f] = False
    r = False
    try: t = open(f).read()
    except OSError: return False
    for m in re.findall(r'^\s*#\s*include\s*[<"]([^">]+)[">]', t, re.M):
        if re.search(r'(^|/)(ibex|picosat|ezOptionParser)|^cds/|pybind11', m): r = True; break
        for d in (REPO + "/",) + tuple(TP + x + "/" for x in ("com_github_robotlocomotion_drake", "com_github_progschj_threadpool")):
            if os.path.exists(d + m) and needs_shim(d + m): r = True; break
        if r: break
    _memo[f] = r
    return r

def sut_sources():
    core = []; full = []
    core += src(TP + "com_github_robotlocomotion_drake/dreal/symbolic/*.cc")
    core += src(TP + "com_github_progschj_threadpool/ThreadPool/*.cc")
    core += src(REPO + "/dreal/symbolic/*.cc")
    for f in src(REPO + "/dreal/util/*.cc"):
        (full if needs_shim(f) else core).append(f)
    core += [REPO + "/dreal/solver/icp_stat.cc"]
    for n in ["sort", "term", "logic", "command", "command_cell"]:
        core.append(REPO + "/dreal/smt2/%s.cc" % n)
    for d in ["api", "contractor", "dr", "optimization", "smt2", "solver"]:
        for f in src(REPO + "/dreal/%s/*.cc" % d):
            if f not in core: full.append(f)
    core = [f for f in core if os.path.exists(f)]
    return core, full

def q(a):
    return a.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def main():
    want = sys.argv[1] if len(sys.argv) > 1 else "full"
    os.makedirs(BUILD + "/gen/dreal", exist_ok=True)
    lock = open(BUILD + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    core, full = sut_sources()
    L = ["ninja_required_version = 1.5"]
    L.append("rule cxx\n command = g++ -MD -MF $out.d $flags -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $out")
    L.append("rule link\n command = g++ " + ("--coverage " if COV else "") + "-no-pie -rdynamic -o $out $in $libs\n description = LINK $out")
    L.append("rule bison\n command = cd $dir && bison -Wno-other -Wno-deprecated -o parser.yy.cc --defines=parser.yy.hh $in\n description = BISON $in")
    L.append("rule flex\n command = flex -o $out $in\n description = FLEX $in")
    with open(BUILD + "/gen/dreal/version.h.tmp", "w") as f:
        f.write('#pragma once\n#define DREAL_VERSION_FULL "sim"\n#define DREAL_VERSION_REPOSTAT "sim"\n#define DREAL_VERSION_STRING "sim"\n')
    vh = BUILD + "/gen/dreal/version.h"
    if not os.path.exists(vh) or open(vh).read() != open(vh + ".tmp").read(): os.replace(vh + ".tmp", vh)
    gen_hdrs = []
    gen_src = []
    for d in ["smt2", "dr"]:
        g = BUILD + "/gen/dreal/" + d
        os.makedirs(g, exist_ok=True)
        yy = glob.glob(REPO + "/dreal/%s/*.yy" % d); ll = glob.glob(REPO + "/dreal/%s/*.ll" % d)
        if not yy: continue
        L.append("build %s | %s: bison %s\n dir = %s" % (q(g + "/parser.yy.cc"), q(g + "/parser.yy.hh"), q(yy[0]), q(g)))
        L.append("build %s: flex %s" % (q(g + "/scanner.ll.cc"), q(ll[0])))
        gen_hdrs.append(g + "/parser.yy.hh")
        gen_src += [g + "/parser.yy.cc", g + "/scanner.ll.cc"]
    def obj(f, sub): return BUILD + "/obj/" + sub + "/" + f.strip("/").replace("/", "__") + ".o"
    def cxx(f, sub, flags, order=None):
        o = obj(f, sub)
        L.append("build %s: cxx %s%s\n flags = %s" % (q(o), q(f), (" || " + " ".join(map(q, order))) if order else "", " ".join(flags)))
        return o
    sf = SUT_FLAGS + SUT_DEFS + INC
    ocore = [cxx(f, "sut", sf) for f in core]
    ofull = [cxx(f, "sut", sf + (["-Dmain=dreal_cli_main"] if f.endswith("dreal_main.cc") else []), gen_hdrs) for f in full + gen_src]
    hf = H_FLAGS + SUT_DEFS + INC
    hcore = [cxx(f, "h", hf) for f in sorted(glob.glob(VERIF + "/harness/core_*.cc"))]
    hfull = [cxx(f, "h", hf, gen_hdrs) for f in sorted(glob.glob(VERIF + "/harness/full_*.cc"))]
    shim = [cxx(f, "h", hf) for f in sorted(glob.glob(VERIF + "/shim/*.cc"))]
    rt = [cxx(f, "rt", RT_FLAGS) for f in [VERIF + "/sim/simmain.cc", VERIF + "/sim/simrt.cc"]]
    libs = "-lnlopt -lpicosat -pthread -ldl -lgmpxx -lgmp"
    L.append("build %s: link %s\n libs = %s" % (q(BUILD + "/simcore"), " ".join(map(q, ocore + hcore + rt)), "-pthread -ldl"))
    L.append("build %s: link %s\n libs = %s" % (q(BUILD + "/simfull"), " ".join(map(q, ocore + ofull + hfull + shim + rt)), libs))
    nf = BUILD + "/build.ninja"
    txt = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt: open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", BUILD, "-k", "0", BUILD + "/sim" + want], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + "\n"); sys.exit(2)
    print(BUILD + "/sim" + want)

main()
